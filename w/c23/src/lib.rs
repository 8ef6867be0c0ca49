#![allow(unused)]
//! Conversions between containers keep every element, in order.
use core::str::FromStr;
use oct::{SizedIter, SizedSlice, SizedStr};
use vrt::*;

pub fn check_from_array<T: Clone, const N: usize>(a: [T; N]) {
	let c = a.clone();
	let s = SizedSlice::<T, N>::from(a);
	require(s.len() == N && s.is_full(), "every element is kept");
	same(s.as_slice(), c.as_slice(), "elements keep their order");
}
pub fn check_try_from<T: Clone, const N: usize>(d: &[T]) {
	match SizedSlice::<T, N>::try_from(d) {
		Ok(s) => { require(d.len() <= N, "only what fits is accepted"); same(s.as_slice(), d, "elements keep their order"); }
		Err(e) => { require(d.len() > N, "only what does not fit is refused"); require(e.capacity == N && e.len == d.len(), "the error names capacity and length"); }
	}
}
pub fn check_into_boxed<T: Clone, const N: usize>(s: SizedSlice<T, N>) {
	let c = s.clone();
	let b = s.into_boxed_slice();
	require(b.len() == c.len(), "every element is kept");
	same(&*b, c.as_slice(), "elements keep their order");
}
pub fn check_into_vec<T: Clone, const N: usize>(s: SizedSlice<T, N>) {
	let c = s.clone();
	let b = s.into_vec();
	require(b.len() == c.len(), "every element is kept");
	same(b.as_slice(), c.as_slice(), "elements keep their order");
}
pub fn check_boxed_from<T: Clone, const N: usize>(s: SizedSlice<T, N>) {
	let c = s.clone();
	let b = Box::<[T]>::from(s);
	require(b.len() == c.len(), "every element is kept");
	same(&*b, c.as_slice(), "elements keep their order");
}
pub fn check_vec_from<T: Clone, const N: usize>(s: SizedSlice<T, N>) {
	let c = s.clone();
	let b = Vec::<T>::from(s);
	require(b.len() == c.len(), "every element is kept");
	same(b.as_slice(), c.as_slice(), "elements keep their order");
}
pub fn check_str_into_bytes<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let b = s.into_bytes();
	require(b.len() == c.len(), "every byte is kept");
	same(b.as_slice(), c.as_bytes(), "bytes keep their order");
}
pub fn check_str_into_boxed<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let b = s.into_boxed_str();
	require(b.len() == c.len(), "every byte is kept");
	same(b.as_bytes(), c.as_bytes(), "bytes keep their order");
}
pub fn check_str_into_string<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let b = s.into_string();
	require(b.len() == c.len(), "every byte is kept");
	same(b.as_bytes(), c.as_bytes(), "bytes keep their order");
}
pub fn check_boxed_from_str<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let b = Box::<str>::from(s);
	same(b.as_bytes(), c.as_bytes(), "bytes keep their order");
}
pub fn check_string_from_str<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let b = String::from(s);
	same(b.as_bytes(), c.as_bytes(), "bytes keep their order");
}
pub fn check_str_raw<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let (b, n) = s.into_raw_parts();
	require(n == c.len(), "every byte is kept");
	let r = unsafe { SizedStr::<N>::from_utf8_unchecked(&b[..n]) };
	same(r.as_bytes(), c.as_bytes(), "bytes keep their order");
}
pub fn check_str_to_string_back<const N: usize>(s: SizedStr<N>) {
	let c = s.clone();
	let t: String = s.into();
	match SizedStr::<N>::try_from(t) { Ok(r) => same(r.as_bytes(), c.as_bytes(), "there and back again"), Err(_) => unreachable("there and back again") }
}
pub fn check_slice_to_array_back<T: Clone, const N: usize>(a: [T; N]) {
	let c = a.clone();
	let v = SizedSlice::<T, N>::from(a).into_vec();
	same(v.as_slice(), c.as_slice(), "there and back again");
}
