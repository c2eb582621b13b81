// ---- std::io, tokio::io: transports as sequences of bytes. `rest` is everything the peer will ever
// deliver, `sent` everything handed over so far; how it is cut into calls is unconstrained.
pub mod io {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;
    use crate::vspec::*;
    verus! {
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
    pub enum ErrorKind {
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable,
        ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists,
        WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof,
        OutOfMemory, Other,
    }
    #[verifier::external_body]
    pub struct Error { x: u8 }
    impl Error {
        pub uninterp spec fn k(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
        #[verifier::external_body]
        pub fn new(kind: ErrorKind, msg: &str) -> (r: Error) ensures r.k() == kind { unimplemented!() }
        #[verifier::external_body]
        pub fn other(msg: &str) -> (r: Error) ensures r.k() == ErrorKind::Other { unimplemented!() }
    }
    impl FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { false }
        uninterp spec fn from_spec(e: ErrorKind) -> Error;
    }
    impl From<ErrorKind> for Error {
        #[verifier::external_body]
        fn from(k: ErrorKind) -> (r: Error) ensures r.k() == k { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;

    pub open spec fn got(before: Bytes, after: Bytes, buf: Bytes, n: int) -> bool {
        0 <= n && n <= buf.len() && n <= before.len() && after == before.skip(n) && buf.take(n) == before.take(n)
    }
    pub trait Read {
        spec fn rest(&self) -> Bytes;
        /// No call fails.
        spec fn faultless(&self) -> bool;
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(self).faultless() == old(self).faultless(),
                final(buf)@.len() == old(buf)@.len(),
                r.is_ok() ==> got(old(self).rest(), final(self).rest(), final(buf)@, r->Ok_0 as int), // [C13]
                r.is_ok() && r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0, // [C13]
                r.is_err() ==> final(self).rest() == old(self).rest() && !old(self).faultless(); // [C13]
    }
    /// The provided method `Read::read_exact` of the standard library, proved against `read`.
    pub trait ReadExact: Read {
        /// The provided method of the standard library: fills the buffer, retrying interrupted calls.
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(self).faultless() == old(self).faultless(),
                final(buf)@.len() == old(buf)@.len(),
                r.is_ok() ==> got(old(self).rest(), final(self).rest(), final(buf)@, old(buf)@.len() as int),
                r.is_err() && old(self).faultless() ==> old(self).rest().len() < old(buf)@.len() && r->Err_0.k() == ErrorKind::UnexpectedEof;
    }
    impl<R: Read> ReadExact for R {
        #[verifier::exec_allows_no_decreases_clause]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        {
            let total = buf.len();
            let mut at: usize = 0;
            let ghost s = self.rest();
            while at < total
                invariant
                    total == buf@.len(),
                    buf@.len() == old(buf)@.len(),
                    at <= total,
                    at <= s.len(),
                    s == old(self).rest(),
                    self.faultless() == old(self).faultless(),
                    self.rest() == s.skip(at as int),
                    buf@.take(at as int) == s.take(at as int),
            {
                use crate::vpre::VSlice;
                let ghost b0 = buf@;
                match self.read(buf.v_from_m(at)) {
                    Ok(0) => return Err(Error::new(ErrorKind::UnexpectedEof, "failed to fill whole buffer")),
                    Ok(n) => {
                        proof {
                            assert(buf@.skip(at as int).take(n as int) =~= s.skip(at as int).take(n as int));
                            assert(buf@.take(at + n) =~= s.take(at + n)) by {
                                assert forall|i: int| 0 <= i < at + n implies buf@[i] == s[i] by {
                                    if i < at { assert(buf@[i] == b0[i]); assert(b0.take(at as int)[i] == s.take(at as int)[i]); }
                                    else { assert(buf@.skip(at as int).take(n as int)[i - at] == s.skip(at as int).take(n as int)[i - at]); }
                                }
                            }
                            assert(s.skip(at as int).skip(n as int) =~= s.skip(at + n));
                        }
                        at += n;
                    }
                    Err(e) => {
                        if e.kind() != ErrorKind::Interrupted { return Err(e); }
                    }
                }
            }
            Ok(())
        }
    }
    pub trait Write {
        spec fn sent(&self) -> Bytes;
        /// How many of the bytes were flushed.
        spec fn flushed(&self) -> nat;
        spec fn wfaultless(&self) -> bool;
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
                final(self).wfaultless() == old(self).wfaultless(),
                final(self).flushed() == old(self).flushed(),
                r.is_ok() ==> r->Ok_0 <= buf@.len() && final(self).sent() == old(self).sent() + buf@.take(r->Ok_0 as int),
                r.is_err() ==> final(self).sent() == old(self).sent() && !old(self).wfaultless();
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
                final(self).wfaultless() == old(self).wfaultless(),
                final(self).flushed() == old(self).flushed(),
                r.is_ok() ==> final(self).sent() == old(self).sent() + buf@,
                r.is_err() ==> !old(self).wfaultless() && exists|n: int| 0 <= n <= buf@.len() && final(self).sent() == old(self).sent() + #[trigger] buf@.take(n);
        fn flush(&mut self) -> (r: Result<()>)
            ensures
                final(self).wfaultless() == old(self).wfaultless(),
                final(self).sent() == old(self).sent(),
                r.is_ok() ==> final(self).flushed() == old(self).sent().len(),
                r.is_err() ==> !old(self).wfaultless();
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Cursor<T> { x: core::marker::PhantomData<T> }
    impl Cursor<Vec<u8>> {
        pub uninterp spec fn left(&self) -> Bytes;
        #[verifier::external_body]
        pub fn new(v: Vec<u8>) -> (r: Self) ensures r.left() == v@ { unimplemented!() }
        #[verifier::external_body]
        pub fn chain<R: Read>(self, next: R) -> (r: Chain<Self, R>)
            ensures r.a() == self, r.b() == next
        { unimplemented!() }
    }
    impl Read for Cursor<Vec<u8>> {
        open spec fn rest(&self) -> Bytes { self.left() }
        open spec fn faultless(&self) -> bool { true }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(A)]
    #[verifier::accept_recursive_types(B)]
    pub struct Chain<A, B> { x: core::marker::PhantomData<(A, B)> }
    impl<A, B> Chain<A, B> {
        pub uninterp spec fn a(&self) -> A;
        pub uninterp spec fn b(&self) -> B;
    }
    impl<A: Read, B: Read> Read for Chain<A, B> {
        open spec fn rest(&self) -> Bytes { self.a().rest() + self.b().rest() }
        open spec fn faultless(&self) -> bool { self.a().faultless() && self.b().faultless() }
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    }
    } // verus!
}

pub mod pin {
    use vstd::prelude::*;
    verus! {
    pub struct Pin<T> { pub p: T }
    }
}
pub mod task {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct Context<'a> { x: core::marker::PhantomData<&'a u8> }
    pub enum Poll<T> { Ready(T), Pending }
    }
}
pub mod tokio {
use vstd::prelude::*;
verus! {
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { x: core::marker::PhantomData<T> }
/// The arguments of the function that runs in the task.
pub uninterp spec fn runs<A>(h: JoinHandle<()>) -> A;
/// A task which runs the function with these arguments was spawned.
pub uninterp spec fn started<A>(a: A) -> bool;
#[verifier::external_body]
pub fn v_spawned<A>(a: Ghost<A>) -> (r: JoinHandle<()>) ensures runs::<A>(r) == a@, started::<A>(a@) { unimplemented!() }
}
pub mod time {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct Interval { x: u8 }
    pub struct Instant {}
    #[verifier::external_body]
    pub fn interval(d: crate::deps::time::Duration) -> Interval { unimplemented!() }
    impl Interval {
        #[verifier::external_body]
        pub fn tick(&mut self) -> Instant { unimplemented!() }
    }
    }
}
pub mod sync {
    pub mod mpsc {
        use vstd::prelude::*;
        verus! {
        /// An unbounded channel with one sender: first in, first out.
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct UnboundedSender<T> { x: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct UnboundedReceiver<T> { x: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct SendError<T> { x: core::marker::PhantomData<T> }
        use crate::deps::sync::Carried;
        impl<T: Carried> UnboundedSender<T> {
            pub uninterp spec fn id(&self) -> int;
            /// What this handle put into the channel, in order.
            pub uninterp spec fn put(&self) -> Seq<T>;
            #[verifier::external_body]
            pub fn send(&mut self, t: T) -> (r: Result<(), SendError<T>>)
                requires t.ok(),
                ensures
                    final(self).id() == old(self).id(),
                    final(self).put() == (if r.is_ok() { old(self).put().push(t) } else { old(self).put() }),
            { unimplemented!() }
        }
        impl<T: Carried> UnboundedReceiver<T> {
            pub uninterp spec fn id(&self) -> int;
            /// What was received so far, in order.
            pub uninterp spec fn taken(&self) -> Seq<T>;
            /// All senders are gone and everything put into the channel was taken.
            pub uninterp spec fn closed(&self) -> bool;
            #[verifier::external_body]
            pub fn recv(&mut self) -> (r: Option<T>)
                ensures
                    final(self).id() == old(self).id(),
                    old(self).closed() ==> r.is_none(),
                    final(self).closed() == r.is_none(),
                    r.is_some() ==> r->Some_0.ok(),
                    final(self).taken() == (if r.is_some() { old(self).taken().push(r->Some_0) } else { old(self).taken() }),
            { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn unbounded_channel<T: Carried>() -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
            ensures r.0.id() == r.1.id(), r.0.put() == Seq::<T>::empty(), r.1.taken() == Seq::<T>::empty(), !r.1.closed()
        { unimplemented!() }
        }
    }
    pub mod oneshot {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Sender<T> { x: core::marker::PhantomData<T> }
        #[verifier::external_body]
        #[verifier::accept_recursive_types(T)]
        pub struct Receiver<T> { x: core::marker::PhantomData<T> }
        #[verifier::external_body]
        pub struct RecvError { x: u8 }
        /// The value v was sent on channel c.
        pub uninterp spec fn told<T>(c: int, v: T) -> bool;
        impl<T> Sender<T> {
            pub uninterp spec fn id(&self) -> int;
            #[verifier::external_body]
            pub fn send(self, t: T) -> (r: Result<(), T>) ensures told(self.id(), t) { unimplemented!() }
        }
        impl<T> Receiver<T> {
            pub uninterp spec fn id(&self) -> int;
            #[verifier::external_body]
            pub fn v_await(self) -> (r: Result<T, RecvError>) ensures r.is_ok() ==> told(self.id(), r->Ok_0) { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id() { unimplemented!() }
        }
    }
}
pub mod io {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::deps::io::{got, Result, ErrorKind};
    use crate::deps::task::{Context, Poll};
    verus! {
    #[verifier::external_body]
    pub struct ReadBuf<'a> { x: core::marker::PhantomData<&'a u8> }
    impl<'a> ReadBuf<'a> {
        pub uninterp spec fn fill(&self) -> Bytes;
        pub uninterp spec fn cap(&self) -> nat;
        #[verifier::external_body]
        pub fn remaining(&self) -> (r: usize) ensures r == self.cap() - self.fill().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
        #[verifier::external_body]
        pub fn put_slice(&mut self, s: &[u8])
            requires s@.len() <= old(self).cap() - old(self).fill().len(), // bounds
            ensures final(self).cap() == old(self).cap(), final(self).fill() == old(self).fill() + s@
        { unimplemented!() }
    }
    pub trait AsyncRead {
        spec fn rest(&self) -> Bytes;
        spec fn faultless(&self) -> bool;
        fn poll_read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<Result<()>>)
            ensures
                final(self).faultless() == old(self).faultless(), // [C14]
                final(buf).cap() == old(buf).cap(), // [C14]
                !(r is Ready && r->Ready_0.is_ok()) ==> final(self).rest() == old(self).rest() && final(buf).fill() == old(buf).fill(), // [C14]
                r is Ready && r->Ready_0.is_err() ==> !old(self).faultless(), // [C14]
                r is Ready && r->Ready_0.is_ok() ==> moved(old(self).rest(), final(self).rest(), old(buf).fill(), final(buf).fill(), old(buf).cap()); // [C14]
    }
    /// Bytes went from the stream to the buffer, at least one if there are any and there is space.
    pub open spec fn moved(s0: Bytes, s1: Bytes, f0: Bytes, f1: Bytes, cap: nat) -> bool {
        let n = f1.len() - f0.len();
        &&& 0 <= n && n <= s0.len() && f1.len() <= cap
        &&& f1 == f0 + s0.take(n) && s1 == s0.skip(n)
        &&& n == 0 ==> s0.len() == 0 || f0.len() == cap
    }
    pub trait AsyncReadExt: AsyncRead {
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(self).faultless() == old(self).faultless(),
                final(buf)@.len() == old(buf)@.len(),
                r.is_ok() ==> got(old(self).rest(), final(self).rest(), final(buf)@, r->Ok_0 as int),
                r.is_ok() && r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0,
                r.is_err() ==> final(self).rest() == old(self).rest() && !old(self).faultless();
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(self).faultless() == old(self).faultless(),
                final(buf)@.len() == old(buf)@.len(),
                r.is_ok() ==> got(old(self).rest(), final(self).rest(), final(buf)@, old(buf)@.len() as int) && r->Ok_0 == old(buf)@.len(),
                r.is_err() && old(self).faultless() ==> old(self).rest().len() < old(buf)@.len() && r->Err_0.k() == ErrorKind::UnexpectedEof;
    }
    impl<R: AsyncRead> AsyncReadExt for R {
        #[verifier::external_body]
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
    }
    pub trait AsyncWrite {
        spec fn sent(&self) -> Bytes;
        spec fn flushed(&self) -> nat;
        spec fn wfaultless(&self) -> bool;
    }
    pub trait AsyncWriteExt: AsyncWrite {
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
                final(self).wfaultless() == old(self).wfaultless(),
                final(self).flushed() == old(self).flushed(),
                r.is_ok() ==> r->Ok_0 <= buf@.len() && final(self).sent() == old(self).sent() + buf@.take(r->Ok_0 as int),
                r.is_err() ==> final(self).sent() == old(self).sent() && !old(self).wfaultless();
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
                final(self).wfaultless() == old(self).wfaultless(),
                final(self).flushed() == old(self).flushed(),
                r.is_ok() ==> final(self).sent() == old(self).sent() + buf@,
                r.is_err() ==> !old(self).wfaultless() && exists|n: int| 0 <= n <= buf@.len() && final(self).sent() == old(self).sent() + #[trigger] buf@.take(n);
        fn flush(&mut self) -> (r: Result<()>)
            ensures
                final(self).wfaultless() == old(self).wfaultless(),
                final(self).sent() == old(self).sent(),
                r.is_ok() ==> final(self).flushed() == old(self).sent().len(),
                r.is_err() ==> !old(self).wfaultless();
    }
    impl<W: AsyncWrite> AsyncWriteExt for W {
        #[verifier::external_body]
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body]
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
    } // verus!
}
}
