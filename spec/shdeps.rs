// ---- state shared between threads: every value below is a handle; what other handles do in between
// is unconstrained, and what this handle did is recorded in ghost state.
pub mod sync {
    use vstd::prelude::*;
    pub mod atomic {
        use vstd::prelude::*;
        verus! {
        pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
        /// A counter. `mine` is what this handle added to it (the value is the sum over all handles
        /// modulo 2^64); nothing is known about `mine` once the value was overwritten.
        #[verifier::external_body]
        pub struct AtomicU64 { x: u8 }
        impl AtomicU64 {
            pub uninterp spec fn id(&self) -> int;
            pub uninterp spec fn mine(&self) -> int;
            /// The value this handle wrote last.
            pub uninterp spec fn stored(&self) -> u64;
            /// A value the counter had when it was read.
            pub uninterp spec fn was(&self, v: u64) -> bool;
            #[verifier::external_body]
            pub fn new(v: u64) -> (r: Self) ensures r.mine() == v, r.stored() == v { unimplemented!() }
            pub fn default() -> (r: Self) ensures r.mine() == 0, r.stored() == 0 { Self::new(0) }
            #[verifier::external_body]
            pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64)
                ensures final(self).id() == old(self).id(), final(self).mine() == old(self).mine() + n
            { unimplemented!() }
            #[verifier::external_body]
            pub fn store(&mut self, n: u64, o: Ordering)
                ensures final(self).id() == old(self).id(), final(self).stored() == n
            { unimplemented!() }
            #[verifier::external_body]
            pub fn load(&self, o: Ordering) -> (r: u64) ensures self.was(r) { unimplemented!() }
        }
        /// A flag which is only ever set.
        #[verifier::external_body]
        pub struct AtomicBool { x: u8 }
        impl AtomicBool {
            pub uninterp spec fn id(&self) -> int;
            /// This handle has seen the flag set, or set it.
            pub uninterp spec fn seen(&self) -> bool;
            #[verifier::external_body]
            pub fn new(v: bool) -> (r: Self) ensures r.seen() == v { unimplemented!() }
            #[verifier::external_body]
            pub fn clone(&self) -> (r: Self) ensures r.id() == self.id(), r.seen() == self.seen() { unimplemented!() }
            #[verifier::external_body]
            pub fn load(&mut self, o: Ordering) -> (r: bool)
                ensures final(self).id() == old(self).id(), final(self).seen() == (old(self).seen() || r), old(self).seen() ==> r
            { unimplemented!() }
            #[verifier::external_body]
            pub fn store(&mut self, v: bool, o: Ordering)
                requires v, // the flag is only ever set
                ensures final(self).id() == old(self).id(), final(self).seen() == v
            { unimplemented!() }
        }
        }
    }
    verus! {
    #[verifier::external_body]
    pub struct PoisonError { x: u8 }
    #[verifier::external]
    impl core::fmt::Debug for PoisonError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    /// What every holder of a lock relies on and restores, and what is assumed of it in addition.
    pub trait Guarded: Sized {
        spec fn ok(&self) -> bool;
        spec fn room(&self) -> bool;
    }
    /// What is put into a channel, and so what comes out of it, satisfies ok.
    pub trait Carried: Sized { spec fn ok(&self) -> bool; }
    /// A handle of a mutex. `deeds` are the states in which this handle found and left the content,
    /// one pair for each time it held the lock; the lock makes the pairs of all handles follow one
    /// after the other.
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct ArcMutex<T> { x: core::marker::PhantomData<T> }
    impl<T: Guarded> ArcMutex<T> {
        pub uninterp spec fn id(&self) -> int;
        pub uninterp spec fn deeds(&self) -> Seq<(T, T)>;
        pub uninterp spec fn start(&self) -> T;
        #[verifier::external_body]
        pub fn new(v: T) -> (r: Self)
            requires v.ok(),
            ensures r.start() == v, r.deeds() == Seq::<(T, T)>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Self) ensures r.id() == self.id(), r.deeds() == Seq::<(T, T)>::empty() { unimplemented!() }
        /// No holder panics (the functions under contract do not), so the lock is not poisoned.
        #[verifier::external_body]
        pub fn lock(&mut self) -> (r: Result<&mut T, PoisonError>)
            ensures
                r.is_ok(),
                r->Ok_0.ok(), r->Ok_0.room(),
                final(self).id() == old(self).id(),
                final(self).deeds() == old(self).deeds().push((*r->Ok_0, *final(r->Ok_0))),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn try_lock(&mut self) -> (r: Result<&mut T, PoisonError>)
            ensures
                final(self).id() == old(self).id(),
                r.is_ok() ==> r->Ok_0.ok() && r->Ok_0.room()
                    && final(self).deeds() == old(self).deeds().push((*r->Ok_0, *final(r->Ok_0))),
                r.is_err() ==> final(self).deeds() == old(self).deeds(),
        { unimplemented!() }
    }
    }
}
pub mod thread {
    use vstd::prelude::*;
    use crate::deps::time::Duration;
    verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct JoinHandle<T> { x: core::marker::PhantomData<T> }
    /// The arguments of the function that runs in the thread.
    pub uninterp spec fn runs<A>(h: JoinHandle<()>) -> A;
    /// The thread has ended.
    pub uninterp spec fn ended(h: JoinHandle<()>) -> bool;
    impl JoinHandle<()> {
        #[verifier::external_body]
        pub fn join(self) -> (r: Result<(), u8>) ensures ended(self) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn v_spawned<A>(a: Ghost<A>) -> (r: JoinHandle<()>) ensures runs::<A>(r) == a@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sleep(d: Duration) { unimplemented!() }
    }
}
pub mod time {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Duration { x: u8 }
    impl Duration {
        pub uninterp spec fn ms(&self) -> nat;
        #[verifier::external_body]
        pub fn from_millis(n: u64) -> (r: Self) ensures r.ms() == n { unimplemented!() }
        /// The clock reads below 2^64 milliseconds.
        #[verifier::external_body]
        pub fn as_millis(&self) -> (r: u128) ensures r == self.ms(), r <= u64::MAX { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct SystemTimeError { x: u8 }
    #[verifier::external]
    impl core::fmt::Debug for SystemTimeError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
    }
    pub struct Epoch {}
    pub const UNIX_EPOCH: Epoch = Epoch {};
    #[verifier::external_body]
    pub struct SystemTime { x: u8 }
    /// A reading of the clock, in milliseconds since the epoch.
    pub uninterp spec fn clock(ms: nat) -> bool;
    impl SystemTime {
        pub uninterp spec fn ms(&self) -> nat;
        #[verifier::external_body]
        pub fn now() -> (r: Self) ensures clock(r.ms()) { unimplemented!() }
        /// The clock does not read before the epoch.
        #[verifier::external_body]
        pub fn duration_since(&self, e: Epoch) -> (r: Result<Duration, SystemTimeError>) ensures r.is_ok(), r->Ok_0.ms() == self.ms() { unimplemented!() }
    }
    }
}
pub mod rand {
    use vstd::prelude::*;
    use crate::vspec::*;
    verus! {
    pub trait Rng {
        fn v_gen_incl(&mut self, a: usize, b: usize) -> (r: usize)
            requires a <= b, // empty range
            ensures a <= r <= b;
        fn v_gen_excl(&mut self, a: usize, b: usize) -> (r: usize)
            requires a < b, // empty range
            ensures a <= r < b;
        fn fill_bytes<B: Filled + ?Sized>(&mut self, dest: &mut B)
            ensures final(dest).filled().len() == old(dest).filled().len();
    }
    /// What can be filled with random bytes.
    pub trait Filled {
        spec fn filled(&self) -> Seq<u8>;
    }
    impl Filled for Vec<u8> {
        open spec fn filled(&self) -> Seq<u8> { self@ }
    }
    impl Filled for [u8] {
        open spec fn filled(&self) -> Seq<u8> { self@ }
    }
    impl<const N: usize> Filled for [u8; N] {
        open spec fn filled(&self) -> Seq<u8> { self@ }
    }
    pub trait SeedableRng: Sized {
        fn from_entropy() -> Self;
    }
    }
    pub mod rngs {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        pub struct StdRng { x: u8 }
        impl super::Rng for StdRng {
            #[verifier::external_body]
            fn v_gen_incl(&mut self, a: usize, b: usize) -> (r: usize) { unimplemented!() }
            #[verifier::external_body]
            fn v_gen_excl(&mut self, a: usize, b: usize) -> (r: usize) { unimplemented!() }
            #[verifier::external_body]
            fn fill_bytes<B: super::Filled + ?Sized>(&mut self, dest: &mut B) { unimplemented!() }
        }
        impl super::SeedableRng for StdRng {
            #[verifier::external_body]
            fn from_entropy() -> Self { unimplemented!() }
        }
        }
    }
}
