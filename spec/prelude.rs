// Helpers which the extraction substitutes for Rust notation that Verus does not accept
// (range indexing, slice conversions, ...). Their contracts are assumed; each is what the Rust
// reference says about the operation it stands for, panics included (a panic is a precondition).
verus! {

pub trait VSlice {
    spec fn sv(&self) -> Seq<u8>;
    fn v_range_r(&self, a: usize, b: usize) -> (r: &[u8])
        requires a <= b <= self.sv().len(), // bounds
        ensures r@ == self.sv().subrange(a as int, b as int);
    fn v_from_r(&self, a: usize) -> (r: &[u8])
        requires a <= self.sv().len(), // bounds
        ensures r@ == self.sv().skip(a as int);
    fn v_to_r(&self, b: usize) -> (r: &[u8])
        requires b <= self.sv().len(), // bounds
        ensures r@ == self.sv().take(b as int);
    fn v_all_r(&self) -> (r: &[u8])
        ensures r@ == self.sv();
    fn v_range_m(&mut self, a: usize, b: usize) -> (r: &mut [u8])
        requires a <= b <= old(self).sv().len(), // bounds
        ensures
            r@ == old(self).sv().subrange(a as int, b as int),
            final(r)@.len() == r@.len(),
            final(self).sv().len() == old(self).sv().len(),
            forall|i: int| 0 <= i < old(self).sv().len() ==> #[trigger] final(self).sv()[i]
                == if a <= i && i < b { final(r)@[i - a] } else { old(self).sv()[i] };
    fn v_from_m(&mut self, a: usize) -> (r: &mut [u8])
        requires a <= old(self).sv().len(), // bounds
        ensures
            r@ == old(self).sv().skip(a as int),
            final(r)@.len() == r@.len(),
            final(self).sv().len() == old(self).sv().len(),
            final(self).sv().take(a as int) == old(self).sv().take(a as int),
            final(self).sv().skip(a as int) == final(r)@,
            forall|i: int| 0 <= i < old(self).sv().len() ==> #[trigger] final(self).sv()[i]
                == if a <= i { final(r)@[i - a] } else { old(self).sv()[i] };
    fn v_to_m(&mut self, b: usize) -> (r: &mut [u8])
        requires b <= old(self).sv().len(), // bounds
        ensures
            r@ == old(self).sv().take(b as int),
            final(r)@.len() == r@.len(),
            final(self).sv().len() == old(self).sv().len(),
            forall|i: int| 0 <= i < old(self).sv().len() ==> #[trigger] final(self).sv()[i]
                == if i < b { final(r)@[i] } else { old(self).sv()[i] };
    fn v_all_m(&mut self) -> (r: &mut [u8])
        ensures
            r@ == old(self).sv(),
            final(r)@.len() == r@.len(),
            final(self).sv() == final(r)@;
    fn v_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self.sv();
    fn v_starts_with(&self, n: &[u8]) -> (r: bool)
        ensures r == (n@.len() <= self.sv().len() && self.sv().take(n@.len() as int) == n@);
    fn v_ends_with(&self, n: &[u8]) -> (r: bool)
        ensures r == (n@.len() <= self.sv().len() && self.sv().skip(self.sv().len() - n@.len()) == n@);
}
impl VSlice for [u8] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_range_r(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_from_r(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_r(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_all_r(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_range_m(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_from_m(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_m(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_all_m(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
}
impl<const N: usize> VSlice for [u8; N] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_range_r(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_from_r(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_r(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_all_r(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_range_m(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_from_m(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_m(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_all_m(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
}
impl VSlice for Vec<u8> {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_range_r(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_from_r(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_r(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_all_r(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_range_m(&mut self, a: usize, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_from_m(&mut self, a: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_m(&mut self, b: usize) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_all_m(&mut self) -> (r: &mut [u8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with(&self, n: &[u8]) -> (r: bool) { unimplemented!() }
}

#[verifier::external_body]
pub fn v_vec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= alloc_limit(), // [C16] allocation
    ensures r@ == filled(x, n as nat),
{ unimplemented!() }

#[verifier::external_body]
pub fn v_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= alloc_limit(), // [C16] allocation
    ensures r@ == Seq::<T>::empty(),
{ unimplemented!() }

/// `x.try_into().expect(..)` of a slice into an array.
#[verifier::external_body]
pub fn v_to_array<const N: usize>(s: &[u8]) -> (r: [u8; N])
    requires s@.len() == N, // bounds
    ensures r@ == s@,
{ unimplemented!() }

#[verifier::external_body]
pub fn v_fill<T: Copy, const N: usize>(x: T) -> (r: [T; N])
    ensures r@ == filled(x, N as nat),
{ unimplemented!() }

pub fn v_empty<T>() -> (r: [T; 0])
    ensures r@ == Seq::<T>::empty(),
{ let r: [T; 0] = []; assert(r@ =~= Seq::<T>::empty()); r }

pub fn v_slice(s: &[u8]) -> (r: &[u8])
    ensures r@ == s@,
{ s }

pub fn v_assert(b: bool)
    requires b, // assertion
{ }

#[verifier::external_body]
pub fn v_unreachable() -> !
    requires false, // panic
{ unimplemented!() }

/// Any boolean: a choice made outside the verified code.
#[verifier::external_body]
pub fn v_nondet() -> bool
{ unimplemented!() }

/// Whether the future is dropped at this suspension point.
#[verifier::external_body]
pub fn v_cancelled() -> (r: bool)
    ensures r ==> !no_cancel(),
{ unimplemented!() }
/// In this execution no future is dropped before it is ready.
pub uninterp spec fn no_cancel() -> bool;
/// What a dropped future counts as having returned.
pub trait VCancel: Sized {
    spec fn is_cancel(self) -> bool;
    fn cancel() -> (r: Self) ensures r.is_cancel();
}
pub fn v_cancel<T: VCancel>() -> (r: T)
    ensures r.is_cancel(),
{ T::cancel() }

/// Position of the first window of length n equal to w.
#[verifier::external_body]
pub fn v_windows_position(s: &[u8], n: usize, w: &[u8]) -> (r: Option<usize>)
    requires n > 0, // bounds
    ensures
        n != w@.len() ==> r.is_none(),
        n == w@.len() ==> match r {
            Some(i) => first_at(s@, w@, s@.len(), i as int),
            None => forall|i: int| !occurs_at(s@, w@, s@.len(), i),
        },
{ unimplemented!() }

#[verifier::external_body]
pub fn v_collect_slices<'a>(v: &'a Vec<Vec<u8>>) -> (r: Vec<&'a [u8]>)
    ensures
        r@.len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i]@ == v@[i]@,
{ unimplemented!() }

#[verifier::external_body]
pub fn v_fdiv(a: u64, b: u64) -> (r: f64)
    ensures r == fdiv(a, b),
{ unimplemented!() }
/// `a as f64 / b as f64`
pub uninterp spec fn fdiv(a: u64, b: u64) -> f64;

/// The end of a thread or task.
#[verifier::external_body]
pub fn v_stop()
    ensures false,
{ unimplemented!() }

#[verifier::external_body]
pub fn v_u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == le_val4(b@),
{ unimplemented!() }

#[verifier::external_body]
pub fn v_u32_from_be_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == le_val4(b@.reverse()),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u16_from_le_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == b@[0] + 256 * b@[1],
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
    ensures r == b@[1] + 256 * b@[0],
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
    ensures r == le_val4(b@.take(4)) + 0x1_0000_0000 * le_val4(b@.skip(4)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_usize_from_le_bytes(b: [u8; 8]) -> (r: usize)
    ensures r == le_val4(b@.take(4)) + 0x1_0000_0000 * le_val4(b@.skip(4)),
{ unimplemented!() }

pub trait VLe4 { 
    spec fn v_nat(&self) -> nat;
    fn v_to_le_bytes(&self) -> (r: [u8; 4]) ensures r@ == le4(self.v_nat());
    fn v_to_be_bytes(&self) -> (r: [u8; 4]) ensures r@ == le4(self.v_nat()).reverse();
}
impl VLe4 for u32 {
    open spec fn v_nat(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn v_to_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_be_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
}
pub trait VLe8 { 
    spec fn v_nat(&self) -> nat;
    fn v_to_le_bytes(&self) -> (r: [u8; 8]) ensures r@ == le8(self.v_nat());
    fn v_to_be_bytes(&self) -> (r: [u8; 8]) ensures r@ == le8(self.v_nat()).reverse();
}
impl VLe8 for u64 {
    open spec fn v_nat(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn v_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_be_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
}
impl VLe8 for usize {
    open spec fn v_nat(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn v_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_be_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
}

pub trait VLe2 {
    spec fn v_nat(&self) -> nat;
    fn v_to_le_bytes(&self) -> (r: [u8; 2]) ensures r@ == le4(self.v_nat()).take(2);
    fn v_to_be_bytes(&self) -> (r: [u8; 2]) ensures r@ == le4(self.v_nat()).take(2).reverse();
}
impl VLe2 for u16 {
    open spec fn v_nat(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn v_to_le_bytes(&self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_be_bytes(&self) -> (r: [u8; 2]) { unimplemented!() }
}
impl VLe4 for i32 {
    open spec fn v_nat(&self) -> nat { if *self >= 0 { *self as nat } else { (*self + 0x1_0000_0000) as nat } }
    #[verifier::external_body]
    fn v_to_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_be_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
}
impl VLe8 for i64 {
    open spec fn v_nat(&self) -> nat { if *self >= 0 { *self as nat } else { (*self + 0x1_0000_0000_0000_0000) as nat } }
    #[verifier::external_body]
    fn v_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body]
    fn v_to_be_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
}

pub trait VOptSlice<'a> {
    spec fn ob(self) -> Seq<u8>;
    fn v_unwrap_or_default(self) -> (r: &'a [u8]) ensures r@ == self.ob();
}
impl<'a> VOptSlice<'a> for Option<&'a [u8]> {
    open spec fn ob(self) -> Seq<u8> { opt_bytes(self) }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: &'a [u8]) { unimplemented!() }
}

pub trait VDerefOpt<T> {
    spec fn inner(&self) -> Option<Vec<T>>;
    fn v_as_deref(&self) -> (r: Option<&[T]>)
        ensures
            r.is_some() == self.inner().is_some(),
            r.is_some() ==> r->0@ == self.inner()->0@;
}
impl<T> VDerefOpt<T> for Option<Vec<T>> {
    open spec fn inner(&self) -> Option<Vec<T>> { *self }
    #[verifier::external_body]
    fn v_as_deref(&self) -> (r: Option<&[T]>) { unimplemented!() }
}

/// Conversion of payload contents into a vector.
pub trait VInto<T>: Sized {
    spec fn into_spec(self) -> T;
    fn into(self) -> (r: T) ensures r == self.into_spec();
}
impl VInto<Vec<u8>> for Vec<u8> {
    open spec fn into_spec(self) -> Vec<u8> { self }
    fn into(self) -> (r: Vec<u8>) { self }
}

// Standard library operations vstd has no specification for, by their documentation. Element types
// are bytes or arrays of bytes here, whose equality and clone are structural.
pub assume_specification<T: Clone> [<[T]>::fill](s: &mut [T], x: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| x);
pub assume_specification<T: PartialEq> [<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);
pub assume_specification<T> [<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T> [<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Clone> [<[T]>::clone_from_slice](s: &mut [T], x: &[T])
    requires old(s)@.len() == x@.len()
    ensures final(s)@ == x@;
pub assume_specification<T> [core::mem::replace](a: &mut T, b: T) -> (r: T)
    ensures *final(a) == b, r == *old(a);
pub assume_specification<T> [core::mem::drop](a: T);
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [Option::<T>::replace](a: &mut Option<T>, b: T) -> (r: Option<T>)
    ensures *final(a) == Some(b), r == *old(a);
pub assume_specification<T: Copy> [Option::<&T>::copied](a: Option<&T>) -> (r: Option<T>)
    ensures a is Some <==> r is Some, a is Some ==> r->0 == *a->0;
pub assume_specification<T, E> [Result::<T, E>::unwrap_or](a: Result<T, E>, b: T) -> (r: T)
    ensures r == (if a is Ok { a->Ok_0 } else { b });
pub assume_specification<T> [bool::then_some](a: bool, b: T) -> (r: Option<T>)
    ensures r == (if a { Some(b) } else { None });
pub assume_specification [usize::abs_diff](a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });
pub assume_specification [usize::div_ceil](a: usize, b: usize) -> (r: usize)
    requires b != 0 ensures r == (if a % b == 0 { a / b + 0 } else { a / b + 1 });
pub assume_specification [u64::div_ceil](a: u64, b: u64) -> (r: u64)
    requires b != 0 ensures r == (if a % b == 0 { a / b + 0 } else { a / b + 1 });
pub assume_specification [u64::rem_euclid](a: u64, b: u64) -> (r: u64)
    requires b != 0 ensures r == a % b;
pub assume_specification [u64::div_euclid](a: u64, b: u64) -> (r: u64)
    requires b != 0 ensures r == a / b;
pub assume_specification [u64::overflowing_add](a: u64, b: u64) -> (r: (u64, bool))
    ensures r.1 == (a + b > u64::MAX), r.0 == (a + b) % 0x1_0000_0000_0000_0000;
pub assume_specification [u32::overflowing_add](a: u32, b: u32) -> (r: (u32, bool))
    ensures r.1 == (a + b > u32::MAX), r.0 == (a + b) % 0x1_0000_0000;

} // verus!
