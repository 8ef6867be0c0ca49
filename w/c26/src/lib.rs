#![allow(unused)]
//! What is shown is what is there.
use oct::decode::Decode;
use oct::encode::{Encode, Output};
use oct::error::*;
use oct::{SizedIter, SizedSlice, SizedStr, Slot};
use core::cell::BorrowError;
use core::fmt::{Debug, Display, Formatter, Result};

macro_rules! shows {
	($($name:ident [$($g:tt)*] [$($wh:tt)*] |$e:ident: $t:ty, $f:ident| $w:expr;)*) => { $(
		pub fn $name<$($g)*>($e: &$t) where $($wh)* {
			let mut a = vrt::formatter();
			let mut b = vrt::formatter();
			let _ = Display::fmt($e, &mut a);
			{ let $f = &mut b; let _ = $w; }
			vrt::same_shown(&a, &b, "the message shows the details of the error, in order");
		}
	)* };
}
shows! {
	check_c_string [] [] |e: CStringDecodeError, f| write!(f, "{}", e.index);
	check_char [] [] |e: CharDecodeError, f| write!(f, "{}", e.code_point);
	check_input [] [] |e: InputError, f| write!(f, "{} {} {}", e.count, e.position, e.capacity);
	check_output [] [] |e: OutputError, f| write!(f, "{} {} {}", e.count, e.position, e.capacity);
	check_isize [] [] |e: IsizeEncodeError, f| write!(f, "{}", e.0);
	check_usize [] [] |e: UsizeEncodeError, f| write!(f, "{}", e.0);
	check_length [] [] |e: LengthError, f| write!(f, "{} {}", e.capacity, e.len);
	check_system_time [] [] |e: SystemTimeDecodeError, f| write!(f, "{}", e.timestamp);
	check_utf8 [] [] |e: Utf8Error, f| write!(f, "{} {}", e.value, e.index);
	check_utf16 [] [] |e: Utf16Error, f| write!(f, "{} {}", e.value, e.index);
	check_item_decode [I, X] [I: Display, X: Display,] |e: ItemDecodeError<I, X>, f| write!(f, "{} {}", e.index, e.error);
	check_item_encode [I, X] [I: Display, X: Display,] |e: ItemEncodeError<I, X>, f| write!(f, "{} {}", e.index, e.error);
	check_collection_decode [L, I] [L: Display, I: Display,] |e: CollectionDecodeError<L, I>, f| match e { CollectionDecodeError::BadLength(x) => write!(f, "{x}"), CollectionDecodeError::BadItem(x) => write!(f, "{x}") };
	check_collection_encode [L, I] [L: Display, I: Display,] |e: CollectionEncodeError<L, I>, f| match e { CollectionEncodeError::BadLength(x) => write!(f, "{x}"), CollectionEncodeError::BadItem(x) => write!(f, "{x}") };
	check_enum_decode [T, F] [T: Decode<Error: Display> + Display, F: Display,] |e: EnumDecodeError<T, F>, f| match e { EnumDecodeError::InvalidDiscriminant(x) => write!(f, "{x}"), EnumDecodeError::UnassignedDiscriminant { value } => write!(f, "{value}"), EnumDecodeError::BadField(x) => write!(f, "{x}") };
	check_enum_encode [T, F] [T: Encode<Error: Display> + Display, F: Display,] |e: EnumEncodeError<T, F>, f| match e { EnumEncodeError::BadDiscriminant(x) => write!(f, "{x}"), EnumEncodeError::BadField(x) => write!(f, "{x}") };
	check_cell [X] [X: Display,] |e: RefCellEncodeError<X>, f| match e { RefCellEncodeError::BadBorrow(x) => write!(f, "{x}"), RefCellEncodeError::BadValue(x) => write!(f, "{x}") };
	check_string [] [] |e: StringError, f| match e { StringError::BadUtf16(x) => write!(f, "{x}"), StringError::BadUtf8(x) => write!(f, "{x}"), StringError::SmallBuffer(x) => write!(f, "{x}"), _ => Ok(()) };
	check_generic_decode [] [] |e: GenericDecodeError, f| match e { GenericDecodeError::BadChar(x) => write!(f, "{x}"), GenericDecodeError::BadString(x) => write!(f, "{x}"), GenericDecodeError::NullString(x) => write!(f, "{x}"), GenericDecodeError::NullInteger(x) => write!(f, "{x}"), GenericDecodeError::SmallBuffer(x) => write!(f, "{x}"), GenericDecodeError::UnassignedDiscriminant { value } => write!(f, "{value}"), GenericDecodeError::NarrowSystemTime(x) => write!(f, "{x}"), _ => Ok(()) };
	check_generic_encode [] [] |e: GenericEncodeError, f| match e { GenericEncodeError::BadBorrow(x) => write!(f, "{x}"), GenericEncodeError::LargeIsize(x) => write!(f, "{x}"), GenericEncodeError::LargeUsize(x) => write!(f, "{x}"), _ => Ok(()) };
}

// Containers are formatted as what they contain, with the same options.
macro_rules! formats {
	($($name:ident [$($g:tt)*] [$($wh:tt)*] |$e:ident: $t:ty, $f:ident| $a:expr, $w:expr;)*) => { $(
		pub fn $name<$($g)*>($e: &$t) where $($wh)* {
			let mut a = vrt::formatter();
			let mut b = vrt::formatter();
			{ let $f = &mut a; let _ = $a; }
			{ let $f = &mut b; let _ = $w; }
			vrt::same_format(&a, &b, "a container is formatted as its contents, with the same options");
		}
	)* };
}
formats! {
	check_slice_debug [T, const N: usize] [T: Debug,] |s: SizedSlice<T, N>, f| Debug::fmt(s, f), Debug::fmt(s.as_slice(), f);
	check_str_debug [const N: usize] [] |s: SizedStr<N>, f| Debug::fmt(s, f), Debug::fmt(s.as_str(), f);
	check_str_display [const N: usize] [] |s: SizedStr<N>, f| Display::fmt(s, f), Display::fmt(s.as_str(), f);
}
pub fn check_slot_debug<T>(s: &Slot<T>) {
	let mut a = vrt::formatter();
	let mut b = vrt::formatter();
	let _ = Debug::fmt(s, &mut a);
	let _ = Debug::fmt(s.as_slice(), &mut b);
	vrt::same_shown(&a, &b, "a slot is formatted as its contents");
}
