//! What promises to decode the scheme of another type does.
#![allow(unused)]
use oct::decode::{Decode, DecodeBorrowed, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::borrow::{Borrow, Cow};
use std::cell::*;
use std::collections::*;
use std::ffi::{CStr, CString};
use std::rc::Rc;
use std::sync::*;

/// the encoding of a borrowed form is decoded by the owned form, which borrows as the same value
macro_rules! decodes {
	($name:ident [$($g:tt)*] $b:ty => $t:ty) => {
		pub fn $name<$($g)*>(v: &$b) {
			let mut o = vrt::recorder();
			if let Ok(()) = <$b as Encode>::encode(v, &mut o) {
				let mut i = vrt::replay(&o);
				fn promised<B: ?Sized, T: DecodeBorrowed<B>>(i: &mut Input) -> Result<T, T::Error> { T::decode(i) }
				match promised::<$b, $t>(&mut i) {
					Ok(w) => {
						vrt::same(<$t as Borrow<$b>>::borrow(&w), v, "the decoded value borrows as the encoded value");
						vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
						core::mem::forget(w);
					}
					Err(_) => vrt::unreachable("what was encoded is decoded by the owned form"),
				}
			}
		}
	};
}
decodes!(check_self_u8 [] u8 => u8);
decodes!(check_self_char [] char => char);
decodes!(check_self [T: Encode + Decode] T => T);
decodes!(check_box [T: Encode + Decode] T => Box<T>);
decodes!(check_rc [T: Encode + Decode] T => Rc<T>);
decodes!(check_arc [T: Encode + Decode] T => Arc<T>);
decodes!(check_c_string [] CStr => CString);
decodes!(check_string [] str => String);
decodes!(check_vec [T: Encode + Decode] [T] => Vec<T>);

/// a container of fixed capacity decodes what fits into it, and refuses the rest
pub fn check_sized_slice<T: Encode + Decode, const N: usize>(v: &[T]) {
	let mut o = vrt::recorder();
	if let Ok(()) = v.encode(&mut o) {
		let mut i = vrt::replay(&o);
		fn promised<B: ?Sized, T: DecodeBorrowed<B>>(i: &mut Input) -> Result<T, T::Error> { T::decode(i) }
		match promised::<[T], SizedSlice<T, N>>(&mut i) {
			Ok(w) => {
				vrt::require(v.len() <= N, "only what fits is decoded");
				vrt::same(<SizedSlice<T, N> as Borrow<[T]>>::borrow(&w), v, "the decoded value borrows as the encoded value");
				vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
				core::mem::forget(w);
			}
			Err(e) => { vrt::require(v.len() > N, "what fits is decoded"); core::mem::forget(e); }
		}
	}
}
pub fn check_sized_str<const N: usize>(v: &str) {
	let mut o = vrt::recorder();
	if let Ok(()) = v.encode(&mut o) {
		let mut i = vrt::replay(&o);
		fn promised<B: ?Sized, T: DecodeBorrowed<B>>(i: &mut Input) -> Result<T, T::Error> { T::decode(i) }
		match promised::<str, SizedStr<N>>(&mut i) {
			Ok(w) => {
				vrt::require(v.len() <= N, "only what fits is decoded");
				vrt::same(<SizedStr<N> as Borrow<str>>::borrow(&w), v, "the decoded value borrows as the encoded value");
				vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
				core::mem::forget(w);
			}
			Err(e) => { vrt::require(v.len() > N, "what fits is decoded"); core::mem::forget(e); }
		}
	}
}
/// either form of a Cow is read back as its owned form
macro_rules! cow {
	($name:ident [$($g:tt)*] $b:ty) => {
		pub mod $name {
			use super::*;
			pub fn check_borrowed<$($g)*>(v: &$b) {
				let mut o = vrt::recorder();
				if let Ok(()) = Cow::<$b>::Borrowed(v).encode(&mut o) {
					let mut p = vrt::recorder();
					match v.encode(&mut p) { Ok(()) => vrt::same_written(&o, &p, "a borrowed value is encoded like the value"), Err(_) => vrt::unreachable("a borrowed value is encodable only if the value is") }
				}
			}
			pub fn check_owned<$($g)*>(v: <$b as ToOwned>::Owned) {
				let mut p = vrt::recorder();
				let r = <<$b as ToOwned>::Owned as Borrow<$b>>::borrow(&v).encode(&mut p).is_ok();
				let mut o = vrt::recorder();
				let w = Cow::<$b>::Owned(v);
				if let Ok(()) = w.encode(&mut o) {
					vrt::require(r, "an owned value is encodable only if the value is");
					vrt::same_written(&o, &p, "an owned value is encoded like the value");
				}
				core::mem::forget(w);
			}
			pub fn check_decoded<$($g)*>(v: &$b) {
				let mut o = vrt::recorder();
				if let Ok(()) = v.encode(&mut o) {
					let mut i = vrt::replay(&o);
					match Cow::<'static, $b>::decode(&mut i) {
						Ok(w) => {
							match &w {
								Cow::Owned(x) => vrt::same(<<$b as ToOwned>::Owned as Borrow<$b>>::borrow(x), v, "the decoded value borrows as the encoded value"),
								Cow::Borrowed(_) => vrt::unreachable("what is decoded is owned"),
							}
							vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
							core::mem::forget(w);
						}
						Err(_) => vrt::unreachable("what was encoded is decoded by the owned form"),
					}
				}
			}
		}
	};
}
cow!(cow_str [] str);
cow!(cow_slice [T: Encode + Decode + Clone + 'static] [T]);
cow!(cow_sized [T: Encode + Decode + Clone + 'static] T);
cow!(cow_c_str [] CStr);

/// types with the scheme of a sequence, a string or their content decode each other
macro_rules! across {
	($name:ident [$($g:tt)*] $a:ty => $b:ty, |$v:ident, $w:ident| $same:expr) => {
		pub fn $name<$($g)*>($v: &$a) {
			let mut o = vrt::recorder();
			if let Ok(()) = <$a as Encode>::encode($v, &mut o) {
				let mut i = vrt::replay(&o);
				match <$b as Decode>::decode(&mut i) {
					Ok($w) => {
						$same;
						vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
						{}
					}
					Err(_) => vrt::unreachable("a type of the same scheme decodes it"),
				}
			}
		}
	};
}

across!(check_boxed_slice_vec [T: Encode + Decode] Box<[T]> => Vec<T>, |v, w| vrt::same(w.as_slice(), &**v, "the decoded value has the encoded contents"));
across!(check_vec_of_sized [T: Encode + Decode, const N: usize] SizedSlice<T, N> => Vec<T>, |v, w| vrt::same(w.as_slice(), v.as_slice(), "the decoded value has the encoded contents"));
across!(check_sized_str_string [const N: usize] SizedStr<N> => String, |v, w| vrt::same(w.as_str(), v.as_str(), "the decoded value has the encoded contents"));
across!(check_sized_str_sized_str [const N: usize] SizedStr<N> => SizedStr<N>, |v, w| vrt::same(w.as_str(), v.as_str(), "the decoded value has the encoded contents"));
across!(check_sized_str_bytes [const N: usize] SizedStr<N> => Vec<u8>, |v, w| vrt::same(w.as_slice(), v.as_bytes(), "the decoded value has the encoded contents"));
across!(check_string_bytes [] String => Vec<u8>, |v, w| vrt::same(w.as_slice(), v.as_bytes(), "the decoded value has the encoded contents"));
across!(check_boxed_str_string [] Box<str> => String, |v, w| vrt::same(w.as_str(), &**v, "the decoded value has the encoded contents"));
across!(check_ref [T: Encode + Decode] &T => T, |v, w| vrt::same(&w, *v, "the decoded value has the encoded contents"));
across!(check_mut_ref [T: Encode + Decode] &mut T => T, |v, w| vrt::same(&w, &**v, "the decoded value has the encoded contents"));
across!(check_boxed [T: Encode + Decode] Box<T> => Rc<T>, |v, w| vrt::same(&*w, &**v, "the decoded value has the encoded contents"));
across!(check_arc_box [T: Encode + Decode] Arc<T> => Box<T>, |v, w| vrt::same(&*w, &**v, "the decoded value has the encoded contents"));
across!(check_plain_cell [T: Encode + Decode + Copy] T => Cell<T>, |v, w| vrt::same(&w.get(), v, "the decoded value has the encoded contents"));
across!(check_plain_ref_cell [T: Encode + Decode] T => RefCell<T>, |v, w| { let x = w.into_inner(); vrt::same(&x, v, "the decoded value has the encoded contents"); let w = x; core::mem::forget(w) });
across!(check_array_tuple [] [u16; 2] => (u16, u16), |v, w| vrt::same(&[w.0, w.1], v, "the decoded value has the encoded contents"));
across!(check_tuple_array [] (u8, u8, u8) => [u8; 3], |v, w| vrt::same(&w, &[v.0, v.1, v.2], "the decoded value has the encoded contents"));
