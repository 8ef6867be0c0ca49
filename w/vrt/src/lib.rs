//! Specification vocabulary for the contract functions in the `w_*` crates.
//! Nothing here is ever executed: the bodies are placeholders, and the analyser gives every
//! function below a meaning of its own (see engine/models.py).
#![allow(unused_variables)]
pub mod shadow;
use oct::decode::Input;
use oct::encode::Output;

/// an arbitrary value
#[inline(never)] pub fn any<T>() -> T { loop {} }
/// restricts what follows to executions where `c` holds
#[inline(never)] pub fn assume(c: bool) { loop {} }
/// `c` must hold whenever this point is reached
#[inline(never)] pub fn require(c: bool, what: &'static str) { loop {} }
/// this point must not be reached
#[inline(never)] pub fn unreachable(what: &'static str) -> ! { loop {} }
/// both values are equal in every component
#[inline(never)] pub fn same<T: ?Sized, U: ?Sized>(a: &T, b: &U, what: &'static str) { loop {} }
/// the values differ for certain (used by negative contracts)
#[inline(never)] pub fn is_same<T: ?Sized, U: ?Sized>(a: &T, b: &U) -> bool { loop {} }
/// a stream that records what is written to it
#[inline(never)] pub fn recorder() -> Output<'static> { loop {} }
/// a stream that yields what was recorded
#[inline(never)] pub fn replay(o: &Output<'_>) -> Input<'static> { loop {} }
/// a stream with arbitrary contents
#[inline(never)] pub fn any_input() -> Input<'static> { loop {} }
/// everything recorded has been read back
#[inline(never)] pub fn exhausted(i: &Input<'_>, what: &'static str) { loop {} }
/// two recordings hold the same bytes
#[inline(never)] pub fn same_written(a: &Output<'_>, b: &Output<'_>, what: &'static str) { loop {} }
/// at most `n` bytes were recorded
#[inline(never)] pub fn size_at_most(o: &Output<'_>, n: usize, what: &'static str) { loop {} }
/// from here on, heap memory is taken for at most `n` items at a time
#[inline(never)] pub fn allocate_at_most(n: usize, what: &'static str) { loop {} }
/// from here on a panic is permitted
#[inline(never)] pub fn may_panic() { loop {} }
/// from here on a panic is a violation again
#[inline(never)] pub fn must_not_panic() { loop {} }
/// the stream ran out of input on this path
#[inline(never)] pub fn ran_out() -> bool { loop {} }
/// forget the drops seen so far
#[inline(never)] pub fn reset_drops() { loop {} }
/// a second reader over the same bytes, at the same position
#[inline(never)] pub fn same_input(i: &Input<'_>) -> Input<'static> { loop {} }
/// both readers stand at the same place of the same bytes
#[inline(never)] pub fn same_position(a: &Input<'_>, b: &Input<'_>, what: &'static str) { loop {} }
/// from here on the streams hold as many bytes as are read
#[inline(never)] pub fn must_suffice() { loop {} }
/// the slice holds exactly the bytes that were recorded
#[inline(never)] pub fn holds(s: &[u8], o: &Output<'_>, what: &'static str) { loop {} }
/// how many values of type `T` were dropped
#[inline(never)] pub fn drops<T>(m: core::marker::PhantomData<T>) -> usize { loop {} }
/// how many values of type T were cloned
#[inline(never)] pub fn cloned<T>(m: core::marker::PhantomData<T>) -> usize { loop {} }
/// how often this very value was dropped
#[inline(never)] pub fn dropped<T>(x: &T) -> usize { loop {} }
/// the value behind `x`, without any ownership of it
#[inline(never)] pub fn ghost<T>(x: &T) -> T { loop {} }
/// every `T` that was decoded from an arbitrary stream has been dropped, once
#[inline(never)] pub fn all_decoded_are_dropped<T>(m: core::marker::PhantomData<T>, what: &'static str) { loop {} }
/// a formatter that remembers what it is given
#[inline(never)] pub fn formatter() -> core::fmt::Formatter<'static> { loop {} }
/// both formatters were given the same values, in this order
#[inline(never)] pub fn same_shown(a: &core::fmt::Formatter<'_>, b: &core::fmt::Formatter<'_>, what: &'static str) { loop {} }
/// both formatters were given the same values with the same options
#[inline(never)] pub fn same_format(a: &core::fmt::Formatter<'_>, b: &core::fmt::Formatter<'_>, what: &'static str) { loop {} }
/// from here on what the arguments refer to may only be read, and only shared borrows and locks of it be taken
#[inline(never)] pub fn shared_only() { loop {} }
/// every borrow and lock taken since `shared_only` has been given back
#[inline(never)] pub fn nothing_held(what: &'static str) { loop {} }
