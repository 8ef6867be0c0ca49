#![allow(unused)]
//! Fixed-capacity containers: length within the capacity, views that agree, constructors that refuse what does not fit.
use core::borrow::{Borrow, BorrowMut};
use core::mem::MaybeUninit;
use core::str::FromStr;
use oct::error::{LengthError, StringError};
use oct::{SizedIter, SizedSlice, SizedStr};
use vrt::*;

// ---- SizedSlice
pub fn check_slice_len<T, const N: usize>(s: &SizedSlice<T, N>) {
	require(s.capacity() == N, "the capacity is the declared one");
	require(s.len() <= N, "the length never exceeds the capacity");
	require(s.is_empty() == (s.len() == 0), "empty means that the length is zero");
	require(s.is_full() == (s.len() == N), "full means that the length is the capacity");
	require(s.as_slice().len() == s.len(), "the view is as long as the contents");
}
pub fn check_slice_views<T, const N: usize>(s: &SizedSlice<T, N>, j: usize) {
	let v = s.as_slice();
	let a: &[T] = s.as_ref(); let b: &[T] = s.borrow(); let d: &[T] = s;
	require(a.len() == s.len() && b.len() == s.len() && d.len() == s.len(), "all views are as long as the contents");
	require(core::ptr::eq(v.as_ptr(), s.as_ptr()), "the view starts at the first element");
	require(core::ptr::eq(a.as_ptr(), s.as_ptr()) && core::ptr::eq(b.as_ptr(), s.as_ptr()) && core::ptr::eq(d.as_ptr(), s.as_ptr()), "all views start at the first element");
	if j < s.len() { same(&s[j], &v[j], "indexing yields the element of the view"); }
}
pub fn check_slice_views_mut<T, const N: usize>(s: &mut SizedSlice<T, N>) {
	let n = s.len(); let p = s.as_ptr();
	let m: *mut T = s.as_mut_ptr();
	require(core::ptr::eq(m as *const T, p), "the mutable pointer is the first element");
	{ let v = s.as_mut_slice(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	{ let v: &mut [T] = s.as_mut(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	{ let v: &mut [T] = s.borrow_mut(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	{ let v: &mut [T] = &mut *s; require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	require(s.len() == n, "looking does not change the length");
}
pub fn check_slice_store<const N: usize>(s: &mut SizedSlice<u32, N>, i: usize, j: usize, x: u32) {
	let n = s.len();
	assume(i < n); assume(j < n);
	let old = s[j];
	s[i] = x;
	require(s.len() == n, "storing does not change the length");
	require(s[i] == x, "a stored element is read back");
	if j != i { require(s[j] == old, "other elements stay"); }
}
pub fn check_slice_index_out<T, const N: usize>(s: &SizedSlice<T, N>, j: usize) {
	assume(j >= s.len());
	require(s.get(j).is_none(), "there is nothing past the contents");
	may_panic();
	let _ = &s[j];
	unreachable("indexing past the contents panics");
}
pub fn check_slice_index_mut_out<T, const N: usize>(s: &mut SizedSlice<T, N>, j: usize) {
	assume(j >= s.len());
	may_panic();
	let _ = &mut s[j];
	unreachable("indexing past the contents panics");
}
pub fn check_slice_new<const N: usize>(d: &[u32], j: usize) {
	match SizedSlice::<u32, N>::new(d) {
		Ok(s) => {
			require(d.len() <= N, "only what fits is accepted");
			require(s.len() == d.len(), "all elements are taken");
			if j < d.len() { require(s[j] == d[j], "elements are taken in order"); }
		}
		Err(e) => {
			require(d.len() > N, "only what does not fit is refused");
			require(e.capacity == N && e.len == d.len(), "the error names capacity and length");
		}
	}
}
pub fn check_slice_new_generic<T: Clone, const N: usize>(d: &[T]) {
	match SizedSlice::<T, N>::new(d) {
		Ok(s) => { require(d.len() <= N, "only what fits is accepted"); same(s.as_slice(), d, "elements are taken in order"); }
		Err(e) => { require(d.len() > N, "only what does not fit is refused"); require(e.capacity == N && e.len == d.len(), "the error names capacity and length"); }
	}
}
pub fn check_slice_default<T, const N: usize>() {
	let s = SizedSlice::<T, N>::default();
	require(s.len() == 0 && s.is_empty() && s.capacity() == N, "the default is empty");
}
pub fn check_slice_copy<const N: usize>(s: &mut SizedSlice<u32, N>, d: &[u32], j: usize) {
	if d.len() > N { may_panic(); }
	s.copy_from_slice(d);
	require(d.len() <= N, "what does not fit is not copied");
	require(s.len() == d.len(), "the length is that of the copied data");
	if j < d.len() { require(s[j] == d[j], "elements are copied in order"); }
}
pub fn check_slice_clone<T: Clone, const N: usize>(s: &SizedSlice<T, N>) {
	let c = s.clone();
	require(c.len() == s.len(), "a clone has the same length");
	same(c.as_slice(), s.as_slice(), "a clone has the same contents");
}
pub fn check_slice_from_iter<T, I: Iterator<Item = T>, const N: usize>(it: I) {
	let s: SizedSlice<T, N> = it.collect();
	require(s.len() <= N, "the length never exceeds the capacity");
}
pub fn check_slice_from_items<const N: usize>(d: &[u32], j: usize) {
	let s: SizedSlice<u32, N> = d.iter().copied().collect();
	if d.len() <= N { require(s.len() == d.len(), "everything that fits is collected"); } else { require(s.len() == N, "collecting stops at the capacity"); }
	if j < s.len() { require(s[j] == d[j], "elements are collected in order"); }
}
pub fn check_slice_each_ref<T, const N: usize>(s: &SizedSlice<T, N>, j: usize) {
	let r = s.each_ref();
	require(r.len() == s.len(), "one reference per element");
	if j < s.len() { require(core::ptr::eq(r[j], &s[j]), "references are in order"); }
}
pub fn check_slice_each_mut<T, const N: usize>(s: &mut SizedSlice<T, N>, j: usize) {
	let n = s.len(); let p = s.as_ptr();
	let r = s.each_mut();
	require(r.len() == n, "one reference per element");
	if j < n { require(core::ptr::eq(&*r[j], unsafe { p.add(j) }), "references are in order"); }
}
pub fn check_slice_raw<const N: usize>(s: SizedSlice<u32, N>, j: usize) {
	let n = s.len();
	let old = if j < n { s[j] } else { 0 };
	let (buf, len) = s.into_raw_parts();
	require(len == n, "the parts keep the length");
	let t = unsafe { SizedSlice::<u32, N>::from_raw_parts(buf, len) };
	require(t.len() == n, "the parts keep the length");
	if j < n { require(t[j] == old, "the parts keep the contents"); }
}
pub fn check_slice_set_len<T, const N: usize>(s: &mut SizedSlice<T, N>, n: usize) {
	assume(n <= s.len());
	unsafe { s.set_len(n) };
	require(s.len() == n && s.as_slice().len() == n, "the length is the one that was set");
}
pub fn check_slice_iter<T, const N: usize>(s: &SizedSlice<T, N>) {
	let mut it = s.into_iter();
	require(it.len() == s.len(), "all elements are visited");
	let p = s.as_slice();
	if let Some(a) = it.next() { require(core::ptr::eq(a, &p[0]), "elements are visited in order"); } else { require(p.is_empty(), "all elements are visited"); }
	if let Some(a) = it.next() { require(core::ptr::eq(a, &p[1]), "elements are visited in order"); } else { require(p.len() <= 1, "all elements are visited"); }
}
pub fn check_slice_iter_mut<T, const N: usize>(s: &mut SizedSlice<T, N>) {
	let n = s.len(); let p = s.as_ptr();
	let mut it = s.into_iter();
	require(it.len() == n, "all elements are visited");
	if let Some(a) = it.next() { require(core::ptr::eq(&*a, p), "elements are visited in order"); } else { require(n == 0, "all elements are visited"); }
	if let Some(a) = it.next() { require(core::ptr::eq(&*a, unsafe { p.add(1) }), "elements are visited in order"); } else { require(n <= 1, "all elements are visited"); }
}

// ---- SizedStr
pub fn check_str_len<const N: usize>(s: &SizedStr<N>) {
	require(s.capacity() == N, "the capacity is the declared one");
	require(s.len() <= N, "the length never exceeds the capacity");
	require(s.is_empty() == (s.len() == 0), "empty means that the length is zero");
	require(s.is_full() == (s.len() == N), "full means that the length is the capacity");
	require(s.as_str().len() == s.len() && s.as_bytes().len() == s.len(), "the view is as long as the contents");
}
pub fn check_str_views<const N: usize>(s: &SizedStr<N>) {
	let p = s.as_ptr(); let n = s.len();
	let a: &str = s.as_ref(); let b: &[u8] = s.as_ref(); let c: &str = s.borrow(); let d: &str = s; let e = s.as_bytes(); let f = s.as_str();
	require(a.len() == n && b.len() == n && c.len() == n && d.len() == n && e.len() == n && f.len() == n, "all views are as long as the contents");
	require(core::ptr::eq(a.as_ptr(), p) && core::ptr::eq(b.as_ptr(), p) && core::ptr::eq(c.as_ptr(), p) && core::ptr::eq(d.as_ptr(), p) && core::ptr::eq(e.as_ptr(), p) && core::ptr::eq(f.as_ptr(), p), "all views start at the first byte");
}
pub fn check_str_views_mut<const N: usize>(s: &mut SizedStr<N>) {
	let n = s.len(); let p = s.as_ptr();
	require(core::ptr::eq(s.as_mut_ptr() as *const u8, p), "the mutable pointer is the first byte");
	{ let v = s.as_mut_str(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	{ let v: &mut str = s.as_mut(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	{ let v: &mut str = s.borrow_mut(); require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	{ let v: &mut str = &mut *s; require(v.len() == n && core::ptr::eq(v.as_ptr(), p), "the mutable view covers exactly the contents"); }
	require(s.len() == n, "looking does not change the length");
}
fn took<const N: usize>(r: Result<SizedStr<N>, StringError>, d: &[u8], j: usize) {
	match r {
		Ok(s) => {
			require(d.len() <= N, "only what fits is accepted");
			require(s.len() == d.len(), "all bytes are taken");
			if j < d.len() { require(s.as_bytes()[j] == d[j], "bytes are taken in order"); }
		}
		Err(StringError::SmallBuffer(e)) => {
			require(d.len() > N, "only what does not fit is refused");
			require(e.capacity == N && e.len == d.len(), "the error names capacity and length");
		}
		Err(_) => unreachable("valid strings are not refused as invalid"),
	}
}
pub fn check_str_new<const N: usize>(d: &str, j: usize) { took(SizedStr::<N>::new(d), d.as_bytes(), j); }
pub fn check_str_from_str<const N: usize>(d: &str, j: usize) { took(SizedStr::<N>::from_str(d), d.as_bytes(), j); }
pub fn check_str_try_from<const N: usize>(d: &str, j: usize) { took(SizedStr::<N>::try_from(d), d.as_bytes(), j); }
pub fn check_str_try_from_string<const N: usize>(d: String, j: usize) { took(SizedStr::<N>::try_from(d.clone()), d.as_bytes(), j); }
pub fn check_str_try_from_char<const N: usize>(c: char, j: usize) { let mut b = [0u8; 4]; let d = c.encode_utf8(&mut b); took(SizedStr::<N>::try_from(c), d.as_bytes(), j); }
pub fn check_str_from_utf8<const N: usize>(d: &[u8], j: usize) {
	match SizedStr::<N>::from_utf8(d) {
		Ok(s) => {
			require(d.len() <= N, "only what fits is accepted");
			require(core::str::from_utf8(d).is_ok(), "only valid UTF-8 is accepted");
			require(s.len() == d.len(), "all bytes are taken");
			if j < d.len() { require(s.as_bytes()[j] == d[j], "bytes are taken in order"); }
		}
		Err(StringError::SmallBuffer(e)) => {
			require(d.len() > N, "only what does not fit is refused");
			require(e.capacity == N && e.len == d.len(), "the error names capacity and length");
		}
		Err(StringError::BadUtf8(e)) => {
			require(d.len() <= N, "what does not fit is refused as such");
			match core::str::from_utf8(d) {
				Ok(_) => unreachable("valid strings are not refused as invalid"),
				Err(f) => { require(e.index == f.valid_up_to(), "the error names the first invalid byte"); if e.index < d.len() { require(e.value == d[e.index], "the error names the first invalid byte"); } }
			}
		}
		Err(_) => unreachable("no other error"),
	}
}
pub fn check_str_default<const N: usize>() {
	let s = SizedStr::<N>::default();
	require(s.len() == 0 && s.is_empty() && s.capacity() == N, "the default is empty");
}
pub fn check_str_clone<const N: usize>(s: &SizedStr<N>) {
	let c = s.clone();
	require(c.len() == s.len(), "a clone has the same length");
	same(c.as_bytes(), s.as_bytes(), "a clone has the same contents");
}
pub fn check_str_raw<const N: usize>(s: SizedStr<N>, j: usize) {
	let n = s.len();
	let old = if j < n { s.as_bytes()[j] } else { 0 };
	let (buf, len) = s.into_raw_parts();
	require(len == n, "the parts keep the length");
	if j < n { require(buf[j] == old, "the parts keep the contents"); }
}
/// collecting characters: a prefix of the characters, as long as they fit
pub fn check_str_from_iter<const N: usize>(d: &[char]) {
	assume(d.len() == 2);
	let (a, b) = (d[0], d[1]);
	let s: SizedStr<N> = d.iter().copied().collect();
	let mut x = [0u8; 4]; let x: &str = a.encode_utf8(&mut x);
	let mut y = [0u8; 4]; let y: &str = b.encode_utf8(&mut y);
	let (k, l) = (x.len(), y.len());
	if k > N { require(s.len() == 0, "collecting stops at the first character that does not fit"); }
	else if k + l > N { require(s.len() == k, "collecting stops at the first character that does not fit"); same(s.as_bytes(), x.as_bytes(), "the characters are collected in order"); }
	else {
		require(s.len() == k + l, "everything that fits is collected");
		same(&s.as_bytes()[..k], x.as_bytes(), "the characters are collected in order");
		same(&s.as_bytes()[k..], y.as_bytes(), "the characters are collected in order");
	}
}
pub fn check_str_from_iter_any<I: Iterator<Item = char>, const N: usize>(it: I) {
	let s: SizedStr<N> = it.collect();
	require(s.len() <= N, "the length never exceeds the capacity");
}
pub fn check_str_chars<const N: usize>(s: &SizedStr<N>) { vrt::same(&s.chars().as_str(), &s.as_str(), "the characters are those of the contents"); }
pub fn check_str_char_indices<const N: usize>(s: &SizedStr<N>) { vrt::same(&s.char_indices().as_str(), &s.as_str(), "the characters are those of the contents"); vrt::require(s.char_indices().offset() == 0, "the characters are numbered from the beginning"); }
pub fn check_str_os<const N: usize>(s: &SizedStr<N>) { let a: &std::ffi::OsStr = s.as_ref(); let b: &std::ffi::OsStr = s.as_str().as_ref(); vrt::same(&a, &b, "a path is the contents"); }
pub fn check_str_path<const N: usize>(s: &SizedStr<N>) { let a: &std::path::Path = s.as_ref(); let b: &std::path::Path = s.as_str().as_ref(); vrt::same(&a, &b, "a path is the contents"); }
pub fn check_str_index<const N: usize>(s: &SizedStr<N>, a: usize, b: usize) { vrt::may_panic(); let x: &str = &s[a..b]; vrt::must_not_panic(); let y: Option<&str> = s.as_str().get(a..b); match y { Some(y) => vrt::same(&x, &y, "indexing is indexing of the contents"), None => vrt::unreachable("an index outside of the contents is refused") } }
pub fn check_str_index_mut<const N: usize>(s: &mut SizedStr<N>, a: usize, b: usize) { vrt::may_panic(); let p: *const str = &mut s[a..b]; vrt::must_not_panic(); match s.as_str().get(a..b) { Some(y) => vrt::require(core::ptr::eq(p, y), "mutable indexing reaches the contents"), None => vrt::unreachable("an index outside of the contents is refused") } }
pub fn check_str_sockets<const N: usize>(s: &SizedStr<N>) { use std::net::ToSocketAddrs; let a = s.to_socket_addrs(); let b = s.as_str().to_socket_addrs(); match (&a, &b) { (Ok(a), Ok(b)) => vrt::same(a, b, "the addresses are those that the contents denote"), (Err(_), Err(_)) => (), _ => vrt::unreachable("the addresses are those that the contents denote") } }
