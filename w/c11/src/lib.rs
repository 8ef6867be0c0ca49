#![allow(unused)]
//! Typed slots: contents and length.
use core::borrow::{Borrow, BorrowMut};
use oct::Slot;
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use vrt::*;

pub fn check_with_capacity<T>(n: usize) {
	assume(n <= isize::MAX as usize);
	let s = Slot::<T>::with_capacity(n);
	require(s.capacity() == n, "the capacity is the requested one");
	require(s.len() == 0 && s.is_empty() && s.as_slice().is_empty(), "a new slot is empty");
}
pub fn check_new<T: SizedEncode>() {
	let s = Slot::<T>::new();
	require(s.capacity() == T::MAX_ENCODED_SIZE, "the capacity is the maximum encoded size");
	require(s.len() == 0, "a new slot is empty");
}
pub fn check_default<T: SizedEncode>() {
	let s = Slot::<T>::default();
	require(s.capacity() == T::MAX_ENCODED_SIZE, "the capacity is the maximum encoded size");
	require(s.len() == 0, "a new slot is empty");
}
pub fn check_accessors<T>(s: &Slot<T>, j: usize) {
	require(s.len() <= s.capacity(), "the length never exceeds the capacity");
	require(s.is_empty() == (s.len() == 0), "empty means that the length is zero");
	require(s.is_full() == (s.len() == s.capacity()), "full means that the length is the capacity");
	let p = s.as_ptr(); let v = s.as_slice();
	require(v.len() == s.len() && core::ptr::eq(v.as_ptr(), p), "the view is the used part");
	let a: &[u8] = s.as_ref(); let b: &[u8] = s.borrow(); let d: &[u8] = s;
	require(a.len() == v.len() && b.len() == v.len() && d.len() == v.len(), "all views are the used part");
	require(core::ptr::eq(a.as_ptr(), p) && core::ptr::eq(b.as_ptr(), p) && core::ptr::eq(d.as_ptr(), p), "all views are the used part");
	if j < s.len() { require(s[j] == v[j], "indexing yields the byte of the view"); }
}
pub fn check_mut<T>(s: &mut Slot<T>) {
	let (n, l, p) = (s.capacity(), s.len(), s.as_ptr());
	require(core::ptr::eq(s.as_mut_ptr() as *const u8, p), "the mutable pointer is the first byte");
	{ let v = s.as_mut_slice(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view is the whole buffer"); }
	{ let v: &mut [u8] = s.as_mut(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view is the whole buffer"); }
	{ let v: &mut [u8] = s.borrow_mut(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view is the whole buffer"); }
	{ let v: &mut [u8] = &mut *s; require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view is the whole buffer"); }
	require(s.len() == l && s.capacity() == n, "looking changes nothing");
}
pub fn check_index_out<T>(s: &Slot<T>, j: usize) {
	assume(j >= s.len());
	may_panic();
	let _ = s[j];
	unreachable("indexing past the used part panics");
}
pub fn check_index_mut<T>(s: &mut Slot<T>, j: usize, i: usize, x: u8) {
	assume(j < s.capacity()); assume(i < s.capacity());
	let old = s.as_mut_slice()[i]; let l = s.len();
	s[j] = x;
	require(s.as_mut_slice()[j] == x, "a stored byte is read back");
	if i != j { require(s.as_mut_slice()[i] == old, "other bytes stay"); }
	require(s.len() == l, "storing does not change the length");
}
pub fn check_copy<T>(s: &mut Slot<T>, d: &[u8], j: usize) {
	let n = s.capacity();
	if d.len() > n { may_panic(); }
	s.copy_from_slice(d);
	require(d.len() <= n, "what does not fit is not copied");
	require(s.len() == d.len() && s.capacity() == n, "the length is that of the copied data");
	if j < d.len() { require(s.as_slice()[j] == d[j], "bytes are copied in order"); }
}
pub fn check_set_len<T>(s: &mut Slot<T>, l: usize, j: usize) {
	let n = s.capacity(); let old = if j < n { s.as_mut_slice()[j] } else { 0 };
	if l > n { may_panic(); }
	s.set_len(l);
	require(l <= n, "the length never exceeds the capacity");
	require(s.len() == l && s.capacity() == n && s.as_slice().len() == l, "the length is the one that was set");
	if j < n { require(s.as_mut_slice()[j] == old, "setting the length does not touch the contents"); }
}
pub fn check_set_len_unchecked<T>(s: &mut Slot<T>, l: usize) {
	let n = s.capacity();
	assume(l <= n);
	unsafe { s.set_len_unchecked(l) };
	require(s.len() == l && s.capacity() == n, "the length is the one that was set");
}
pub fn check_raw<T>(b: Box<[u8]>, l: usize, j: usize) {
	let n = b.len(); assume(l <= n); let old = if j < l { b[j] } else { 0 };
	let p = Box::into_raw(b);
	let s = unsafe { Slot::<T>::from_raw_parts(p as *mut u8, n, l) };
	require(s.capacity() == n && s.len() == l, "the parts keep capacity and length");
	if j < l { require(s.as_slice()[j] == old, "the parts keep the contents"); }
}
// ---- writing
pub fn check_write<T: Encode>(s: &mut Slot<T>, x: T) {
	let n = s.capacity();
	let mut o = recorder();
	let want = x.encode(&mut o);
	let got = s.write(&x);
	require(s.capacity() == n, "the capacity never changes");
	require(s.len() <= n, "the length never exceeds the capacity");
	match got {
		Ok(()) => match want {
			Ok(()) => holds(s.as_slice(), &o, "the slot holds exactly the encoding"),
			Err(_) => unreachable("a failed encoding is reported"),
		},
		Err(e) => match want { Ok(()) => { } Err(f) => same(&e, &f, "the error of the encoding is passed on") },
	}
}
pub fn check_write_owned<T: Encode>(s: &mut Slot<T>, x: T, y: T) where T: Clone {
	let mut o = recorder();
	assume(x.encode(&mut o).is_ok());
	if s.write(x.clone()).is_ok() { holds(s.as_slice(), &o, "the slot holds exactly the encoding"); }
}
pub fn check_write_twice<T: Encode>(s: &mut Slot<T>, x: T, y: T) {
	let mut o = recorder();
	assume(y.encode(&mut o).is_ok());
	let _ = s.write(&x);
	if s.write(&y).is_ok() { holds(s.as_slice(), &o, "the slot holds exactly the latest encoding"); }
}
pub fn check_write_u32(s: &mut Slot<u32>, x: u32, j: usize) {
	let n = s.capacity();
	assume(n >= 4);
	require(s.write(x).is_ok(), "what fits is written");
	require(s.len() == 4, "the length is that of the encoding");
	let b = x.to_le_bytes();
	require(s[0] == b[0] && s[1] == b[1] && s[2] == b[2] && s[3] == b[3], "the slot holds exactly the encoding");
}
pub fn check_write_new(x: u32) {
	let mut s = Slot::<u32>::new();
	require(s.write(x).is_ok(), "a slot of the maximum size holds any value");
	require(s.len() == 4, "the length is that of the encoding");
}
// ---- reading
pub fn check_read<T: Decode>(s: &Slot<T>) {
	let got = s.read();
	let mut i = Input::new(s.as_slice());
	let want = T::decode(&mut i);
	same(&got, &want, "reading decodes exactly the used part");
}
pub fn check_read_u16(s: &Slot<u16>) {
	assume(s.len() >= 2);
	match s.read() {
		Ok(x) => { let b = x.to_le_bytes(); require(b[0] == s[0] && b[1] == s[1], "reading decodes the used part from its beginning"); }
		Err(_) => unreachable("what is complete is read"),
	}
}
pub fn check_write_read<T: Encode + Decode>(s: &mut Slot<T>, x: T) {
	if s.write(&x).is_ok() {
		match s.read() { Ok(y) => same(&y, &x, "what was written is read back"), Err(_) => unreachable("what was written is read back") }
	}
}
pub fn check_write_read_u64(s: &mut Slot<u64>, x: u64) {
	assume(s.capacity() >= 8);
	assume(s.write(x).is_ok());
	match s.read() { Ok(y) => require(y == x, "what was written is read back"), Err(_) => unreachable("what was written is read back") }
}
// ---- comparison
pub fn check_eq<T>(s: &Slot<T>, d: &[u8]) {
	let want = s.as_slice() == d;
	require((*s == *d) == want, "a slot compares like its used part");
	require((*s == d) == want, "a slot compares like its used part");
}
pub fn check_eq_mut<T>(s: &Slot<T>, d: &mut [u8]) {
	let want = s.as_slice() == &*d;
	require((*s == d) == want, "a slot compares like its used part");
}
