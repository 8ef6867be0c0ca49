#![allow(unused)]
//! Conversion of the errors of built-in codecs into generic errors, and of impossible errors into `Infallible`.
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output};
use oct::error::*;
use oct::PrimitiveDiscriminant;
use core::convert::Infallible;
use core::cell::BorrowError;
use core::error::Error;

type D = GenericDecodeError;
type E = GenericEncodeError;

// What the generic error of an innermost cause is.
pub fn check_char(code_point: u32) { match D::from(CharDecodeError { code_point }) { D::BadChar(e) => vrt::same(&e.code_point, &code_point, "the cause is kept"), _ => vrt::unreachable("a bad character stays one") } }
pub fn check_utf8(value: u8, index: usize) { match D::from(Utf8Error { value, index }) { D::BadString(e) => { vrt::same(&e.value, &value, "the cause is kept"); vrt::same(&e.index, &index, "the cause is kept"); } _ => vrt::unreachable("a bad string stays one") } }
pub fn check_c_string(index: usize) { match D::from(CStringDecodeError { index }) { D::NullString(e) => vrt::same(&e.index, &index, "the cause is kept"), _ => vrt::unreachable("a null octet stays one") } }
pub fn check_non_zero() { match D::from(NonZeroDecodeError) { D::NullInteger(_) => (), _ => vrt::unreachable("a null integer stays one") } }
pub fn check_length(capacity: usize, len: usize) { match D::from(LengthError { capacity, len }) { D::SmallBuffer(e) => { vrt::same(&e.capacity, &capacity, "the cause is kept"); vrt::same(&e.len, &len, "the cause is kept"); } _ => vrt::unreachable("a small buffer stays one") } }
pub fn check_system_time(timestamp: i64) { match D::from(SystemTimeDecodeError { timestamp }) { D::NarrowSystemTime(e) => vrt::same(&e.timestamp, &timestamp, "the cause is kept"), _ => vrt::unreachable("an unrepresentable time stays one") } }
pub fn check_isize(v: isize) { match E::from(IsizeEncodeError(v)) { E::LargeIsize(e) => vrt::same(&e.0, &v, "the cause is kept"), _ => vrt::unreachable("a large isize stays one") } }
pub fn check_usize(v: usize) { match E::from(UsizeEncodeError(v)) { E::LargeUsize(e) => vrt::same(&e.0, &v, "the cause is kept"), _ => vrt::unreachable("a large usize stays one") } }
pub fn check_borrow(v: BorrowError) { let g = vrt::ghost(&v); match E::from(v) { E::BadBorrow(e) => vrt::same(&e, &g, "the cause is kept"), _ => vrt::unreachable("a failed borrow stays one") } }

// Errors that wrap a cause convert to what the cause converts to.
macro_rules! wraps {
	($name:ident [$($g:tt)*] [$($wh:tt)*] $to:ty, $err:ty, |$x:ident: $inner:ty| $make:expr) => {
		pub fn $name<$($g)*>($x: $inner) where $($wh)* {
			let want: $to = vrt::ghost(&$x).into();
			let e: $err = $make;
			let got: $to = e.into();
			vrt::same(&got, &want, "a wrapped error becomes what its cause becomes");
		}
	};
}
wraps!(check_collection_decode_length [L, I] [L: Into<D>, I: Into<D>,] D, CollectionDecodeError<L, I>, |x: L| CollectionDecodeError::BadLength(x));
wraps!(check_collection_decode_item [L, I] [L: Into<D>, I: Into<D>,] D, CollectionDecodeError<L, I>, |x: I| CollectionDecodeError::BadItem(x));
wraps!(check_collection_encode_length [L, I] [L: Into<E>, I: Into<E>,] E, CollectionEncodeError<L, I>, |x: L| CollectionEncodeError::BadLength(x));
wraps!(check_collection_encode_item [L, I] [L: Into<E>, I: Into<E>,] E, CollectionEncodeError<L, I>, |x: I| CollectionEncodeError::BadItem(x));
wraps!(check_item_decode [I, X] [X: Into<D>,] D, ItemDecodeError<I, X>, |x: X| ItemDecodeError { index: vrt::any(), error: x });
wraps!(check_item_encode [I, X] [X: Into<E>,] E, ItemEncodeError<I, X>, |x: X| ItemEncodeError { index: vrt::any(), error: x });
wraps!(check_enum_decode_field [T, F] [T: Decode<Error: Into<D>> + PrimitiveDiscriminant, F: Into<D>,] D, EnumDecodeError<T, F>, |x: F| EnumDecodeError::BadField(x));
wraps!(check_enum_decode_discriminant [T, F] [T: Decode<Error: Into<D>> + PrimitiveDiscriminant, F: Into<D>,] D, EnumDecodeError<T, F>, |x: T::Error| EnumDecodeError::InvalidDiscriminant(x));
wraps!(check_enum_encode_field [T, F] [T: Encode<Error: Into<E>>, F: Into<E>,] E, EnumEncodeError<T, F>, |x: F| EnumEncodeError::BadField(x));
wraps!(check_enum_encode_discriminant [T, F] [T: Encode<Error: Into<E>>, F: Into<E>,] E, EnumEncodeError<T, F>, |x: T::Error| EnumEncodeError::BadDiscriminant(x));
wraps!(check_cell_borrow [X] [X: Into<E>,] E, RefCellEncodeError<X>, |x: BorrowError| RefCellEncodeError::BadBorrow(x));
wraps!(check_cell_value [X] [X: Into<E>,] E, RefCellEncodeError<X>, |x: X| RefCellEncodeError::BadValue(x));
wraps!(check_bool_enum_field [F] [F: Into<D>,] D, EnumDecodeError<bool, F>, |x: F| EnumDecodeError::BadField(x));

// An unassigned discriminant is reported with its bit pattern.
macro_rules! disc {
	($($name:ident $t:ty, $u:ty;)*) => { $(
		pub fn $name(value: $t) {
			match D::from(EnumDecodeError::<$t, Infallible>::UnassignedDiscriminant { value }) {
				D::UnassignedDiscriminant { value: got } => vrt::require(got == value as $u as u128, "an unassigned discriminant is reported with its representation, zero-extended"),
				_ => vrt::unreachable("an unassigned discriminant stays one"),
			}
		}
	)* };
}
disc! {
	check_disc_u8 u8, u8; check_disc_i8 i8, u8; check_disc_u16 u16, u16; check_disc_i16 i16, u16; check_disc_u32 u32, u32; check_disc_i32 i32, u32;
	check_disc_u64 u64, u64; check_disc_i64 i64, u64; check_disc_u128 u128, u128; check_disc_i128 i128, u128; check_disc_usize usize, usize; check_disc_isize isize, usize;
}

// Conversions into `Infallible` exist for errors that cannot occur, and can therefore not panic.
macro_rules! never {
	($($name:ident $t:ty;)*) => { $( pub fn $name(e: $t) { let _: Infallible = e.into(); } )* };
}
never! {
	check_never_collection_decode CollectionDecodeError<Infallible, Infallible>;
	check_never_collection_encode CollectionEncodeError<Infallible, Infallible>;
	check_never_item_decode ItemDecodeError<usize, Infallible>;
	check_never_item_encode ItemEncodeError<usize, Infallible>;
	check_never_items_decode CollectionDecodeError<Infallible, ItemDecodeError<usize, Infallible>>;
	check_never_items_encode CollectionEncodeError<Infallible, ItemEncodeError<usize, Infallible>>;
	check_never_enum_encode EnumEncodeError<u8, Infallible>;
	check_never_enum_decode EnumDecodeError<u8, Infallible>;
}

// Errors that can occur are not convertible into `Infallible`.
trait Inhabited<A> { fn is() {} }
impl<T> Inhabited<()> for T {}
struct Converts;
impl<T: Into<Infallible>> Inhabited<Converts> for T {}
macro_rules! possible { ($($t:ty),* $(,)?) => { $( const _: fn() = <$t as Inhabited<_>>::is; )* }; }
possible!(CollectionDecodeError<LengthError, Infallible>, CollectionDecodeError<Infallible, Utf8Error>, CollectionDecodeError<Infallible, ItemDecodeError<usize, NonZeroDecodeError>>, CollectionEncodeError<UsizeEncodeError, Infallible>, CollectionEncodeError<Infallible, ItemEncodeError<usize, BorrowError>>, ItemDecodeError<usize, Utf8Error>, ItemDecodeError<Infallible, Utf8Error>, ItemEncodeError<usize, IsizeEncodeError>, EnumDecodeError<char, Infallible>, EnumDecodeError<bool, Utf8Error>, EnumDecodeError<u8, LengthError>, EnumEncodeError<usize, Infallible>, EnumEncodeError<u8, UsizeEncodeError>, RefCellEncodeError<Infallible>, RefCellEncodeError<UsizeEncodeError>, GenericDecodeError, GenericEncodeError, Utf8Error, LengthError);

// Everything that can be encoded or decoded can be a field of a derived type: its error converts, whatever it is made of.
use std::collections::*; use std::net::*; use std::num::*; use std::ops::*; use std::rc::Rc; use std::sync::*; use std::sync::atomic::*; use std::cell::*; use std::time::*; use std::borrow::Cow; use std::ffi::{CStr, CString}; use std::marker::*; use std::hash::*;
use oct::{SizedSlice, SizedStr};
fn enc<T: Encode<Error: Into<E>> + ?Sized>() {}
fn dec<T: Decode<Error: Into<D>>>() {}
macro_rules! both { ($($t:ty),* $(,)?) => { $( enc::<$t>(); dec::<$t>(); )* }; }
pub fn check_fields<T, const N: usize>() where T: Encode<Error: Into<E>> + Decode<Error: Into<D>> {
	both!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, usize, isize, bool, char, (), String, CString, Duration, SystemTime, IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, RangeFull, PhantomPinned, Infallible,
		NonZero<u8>, NonZero<u16>, NonZero<u32>, NonZero<u64>, NonZero<u128>, NonZero<usize>, NonZero<i8>, NonZero<i16>, NonZero<i32>, NonZero<i64>, NonZero<i128>, NonZero<isize>,
		AtomicBool, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, SizedStr<N>,
		(T,), (T, T), (T, T, T), (T, T, T, T), (T, T, T, T, T), (T, T, T, T, T, T), (T, T, T, T, T, T, T), (T, T, T, T, T, T, T, T), (T, T, T, T, T, T, T, T, T), (T, T, T, T, T, T, T, T, T, T), (T, T, T, T, T, T, T, T, T, T, T), (T, T, T, T, T, T, T, T, T, T, T, T),
		[T; N], Vec<T>, LinkedList<T>, Box<T>, Rc<T>, Arc<T>, Option<T>, Bound<T>, Range<T>, RangeFrom<T>, RangeInclusive<T>, RangeTo<T>, RangeToInclusive<T>, Mutex<T>, RwLock<T>, RefCell<T>, Saturating<T>, Wrapping<T>, PhantomData<T>, SizedSlice<T, N>, Cow<'static, str>, Cow<'static, CStr>);
	enc::<str>(); enc::<CStr>(); enc::<[T]>(); enc::<&T>(); enc::<&mut T>(); enc::<&str>(); enc::<&[T]>(); enc::<Box<str>>(); enc::<Box<[T]>>(); enc::<Rc<str>>(); enc::<Arc<[T]>>(); enc::<LazyCell<T>>(); enc::<LazyLock<T>>();
}
pub fn check_copied_fields<T>() where T: Copy + Encode<Error: Into<E>> + Decode<Error: Into<D>> { both!(Cell<T>); }
pub fn check_keyed_fields<K, V, S, X, Y>() where K: Eq + Hash + Encode<Error = X> + Decode<Error = Y>, V: Encode<Error = X> + Decode<Error = Y>, S: BuildHasher + Default, X: Into<E>, Y: Into<D> { both!(HashMap<K, V, S>, HashSet<K, S>, Result<K, V>); }

// The source of a wrapping error is the wrapped error.
macro_rules! source {
	($($name:ident [$($g:tt)*] [$($wh:tt)*] |$e:ident: $t:ty| $($p:pat => $x:expr),*;)*) => { $(
		pub fn $name<$($g)*>($e: &$t) where $($wh)* {
			let got = Error::source($e);
			match *$e { $( $p => match got { Some(s) => vrt::require(core::ptr::addr_eq(s as *const dyn Error, $x), "the source is the wrapped error"), None => vrt::unreachable("a wrapped error is the source") }, )*
				#[allow(unreachable_patterns)] _ => vrt::require(got.is_none(), "an error that wraps none has no source") }
		}
	)* };
}
source! {
	check_source_generic_decode [] [] |e: D| D::BadChar(ref x) => x as *const _, D::BadString(ref x) => x as *const _, D::NullString(ref x) => x as *const _, D::NullInteger(ref x) => x as *const _, D::SmallBuffer(ref x) => x as *const _, D::NarrowSystemTime(ref x) => x as *const _;
	check_source_generic_encode [] [] |e: E| E::BadBorrow(ref x) => x as *const _, E::LargeIsize(ref x) => x as *const _, E::LargeUsize(ref x) => x as *const _;
	check_source_collection_decode [L, I] [L: Error + 'static, I: Error + 'static,] |e: CollectionDecodeError<L, I>| CollectionDecodeError::BadLength(ref x) => x as *const L, CollectionDecodeError::BadItem(ref x) => x as *const _;
	check_source_collection_encode [L, I] [L: Error + 'static, I: Error + 'static,] |e: CollectionEncodeError<L, I>| CollectionEncodeError::BadLength(ref x) => x as *const L, CollectionEncodeError::BadItem(ref x) => x as *const _;
	check_source_item_decode [I, X] [ItemDecodeError<I, X>: core::fmt::Debug + core::fmt::Display, X: Error + 'static,] |e: ItemDecodeError<I, X>| ItemDecodeError { ref error, .. } => error as *const X;
	check_source_item_encode [I, X] [ItemEncodeError<I, X>: core::fmt::Debug + core::fmt::Display, X: Error + 'static,] |e: ItemEncodeError<I, X>| ItemEncodeError { ref error, .. } => error as *const X;
	check_source_cell [X] [X: Error + 'static,] |e: RefCellEncodeError<X>| RefCellEncodeError::BadBorrow(ref x) => x as *const BorrowError, RefCellEncodeError::BadValue(ref x) => x as *const _;
	check_source_enum_decode [T, F] [T: core::fmt::Debug + core::fmt::Display + Decode<Error: Error + 'static>, F: Error + 'static,] |e: EnumDecodeError<T, F>| EnumDecodeError::InvalidDiscriminant(ref x) => x as *const T::Error, EnumDecodeError::BadField(ref x) => x as *const _;
	check_source_enum_encode [T, F] [T: core::fmt::Debug + core::fmt::Display + Encode<Error: Error + 'static>, F: Error + 'static,] |e: EnumEncodeError<T, F>| EnumEncodeError::BadDiscriminant(ref x) => x as *const T::Error, EnumEncodeError::BadField(ref x) => x as *const _;
	check_source_string [] [] |e: StringError| StringError::BadUtf16(ref x) => x as *const _, StringError::BadUtf8(ref x) => x as *const _, StringError::SmallBuffer(ref x) => x as *const _;
}
