//! Library functions the analyser knows by these definitions instead of by their own source.
//! Each has the observable behaviour its documentation promises; the table that maps the library
//! functions to them is SHADOWS in driver/driver.rs.
use core::mem::MaybeUninit;
use std::collections::{HashMap, HashSet, LinkedList};
use std::collections::hash_map::Entry as MapEntry;
use std::hash::{BuildHasher, Hash};
use std::ops::{Bound, RangeBounds};
use std::time::Duration;

pub struct Pair<A, B>(pub A, pub B);

pub fn zip_next<A: Iterator, B: Iterator>(z: &mut Pair<A, B>) -> Option<(A::Item, B::Item)> {
	let Some(a) = z.0.next() else { return None };
	let Some(b) = z.1.next() else { return None };
	Some((a, b))
}
pub fn slice_to_vec<T: Clone>(s: &[T]) -> Vec<T> {
	let mut v = Vec::with_capacity(s.len());
	let mut i = 0;
	while i < s.len() { v.push(s[i].clone()); i += 1; }
	v
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
	let mut i = 0;
	while i < s.len() { if s[i] == *x { return true } i += 1; }
	false
}
pub fn slice_starts_with<T: PartialEq>(s: &[T], t: &[T]) -> bool {
	t.len() <= s.len() && s[..t.len()] == *t
}
pub fn slice_ends_with<T: PartialEq>(s: &[T], t: &[T]) -> bool {
	t.len() <= s.len() && s[s.len() - t.len()..] == *t
}
pub fn slice_fill<T: Clone>(s: &mut [T], x: T) {
	let mut i = 0;
	while i < s.len() { s[i] = x.clone(); i += 1; }
}
pub fn slice_reverse<T>(s: &mut [T]) {
	let mut i = 0;
	while i < s.len() / 2 { let j = s.len() - 1 - i; s.swap(i, j); i += 1; }
}
pub fn slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
	if s.is_empty() { None } else { Some((&s[0], &s[1..])) }
}
pub fn slice_split_last<T>(s: &[T]) -> Option<(&T, &[T])> {
	if s.is_empty() { None } else { let n = s.len() - 1; Some((&s[n], &s[..n])) }
}
pub fn slice_split_at_checked<T>(s: &[T], n: usize) -> Option<(&[T], &[T])> {
	if n <= s.len() { Some((&s[..n], &s[n..])) } else { None }
}
pub fn slice_get_many<T>(s: &[T], n: usize) -> Option<&T> { if n < s.len() { Some(&s[n]) } else { None } }
pub fn slice_write_copy<T: Copy>(s: &mut [MaybeUninit<T>], t: &[T]) {
	assert!(s.len() == t.len());
	let mut i = 0;
	while i < s.len() { s[i] = MaybeUninit::new(t[i]); i += 1; }
}
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
	let mut out = [const { MaybeUninit::<U>::uninit() }; N];
	let a = core::mem::ManuallyDrop::new(a);
	let mut i = 0;
	while i < N { out[i] = MaybeUninit::new(f(unsafe { a.as_ptr().add(i).read() })); i += 1; }
	unsafe { out.as_ptr().cast::<[U; N]>().read() }
}
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
	let mut out = [const { MaybeUninit::<T>::uninit() }; N];
	let mut i = 0;
	while i < N { out[i] = MaybeUninit::new(f(i)); i += 1; }
	unsafe { out.as_ptr().cast::<[T; N]>().read() }
}
pub fn vec_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
	let mut i = 0;
	while i < s.len() { v.push(s[i].clone()); i += 1; }
}
pub fn vec_from_slice<T: Clone>(s: &[T]) -> Vec<T> { slice_to_vec(s) }
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
	let mut v = Vec::new();
	for x in it { v.push(x); }
	v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
	for x in it { v.push(x); }
}
pub fn vec_pop<T>(v: &mut Vec<T>) -> Option<T> {
	if v.len() == 0 { return None }
	let n = v.len() - 1;
	unsafe { v.set_len(n); Some(v.as_ptr().add(n).read()) }
}
pub fn vec_truncate<T>(v: &mut Vec<T>, n: usize) { while v.len() > n { drop(vec_pop(v)); } }
pub fn vec_clear<T>(v: &mut Vec<T>) { while v.len() > 0 { drop(vec_pop(v)); } }
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
	vec_truncate(v, n);
	while v.len() < n { v.push(x.clone()); }
}
pub fn box_from_slice<T: Clone>(s: &[T]) -> Box<[T]> { slice_to_vec(s).into_boxed_slice() }
pub fn box_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> { vec_from_iter::<T, I>(it).into_boxed_slice() }
pub fn string_from_str(s: &str) -> String {
	let mut v = Vec::with_capacity(s.len());
	unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), v.as_mut_ptr(), s.len()); v.set_len(s.len()); String::from_utf8_unchecked(v) }
}
pub fn string_from_char(c: char) -> String { let mut s = String::new(); string_push(&mut s, c); s }
pub fn string_from_charref(c: &char) -> String { string_from_char(*c) }
pub fn string_from_string(s: &String) -> String { string_from_str(s.as_str()) }
pub fn list_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> LinkedList<T> {
	let mut v = LinkedList::new();
	for x in it { v.push_back(x); }
	v
}
pub fn list_extend<T, I: IntoIterator<Item = T>>(v: &mut LinkedList<T>, it: I) { for x in it { v.push_back(x); } }
pub fn map_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V, S> {
	let mut m = HashMap::with_hasher(S::default());
	for (k, x) in it { m.insert(k, x); }
	m
}
pub fn map_extend<K: Eq + Hash, V, S: BuildHasher, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, it: I) {
	for (k, x) in it { m.insert(k, x); }
}
pub fn set_from_iter<K: Eq + Hash, S: BuildHasher + Default, I: IntoIterator<Item = K>>(it: I) -> HashSet<K, S> {
	let mut m = HashSet::with_hasher(S::default());
	for k in it { m.insert(k); }
	m
}
pub fn set_extend<K: Eq + Hash, S: BuildHasher, I: IntoIterator<Item = K>>(m: &mut HashSet<K, S>, it: I) {
	for k in it { m.insert(k); }
}
pub fn string_eq(a: &String, b: &String) -> bool { a.as_bytes() == b.as_bytes() }
pub fn string_ne(a: &String, b: &String) -> bool { a.as_bytes() != b.as_bytes() }
pub fn string_eq_str(a: &String, b: &str) -> bool { a.as_bytes() == b.as_bytes() }
pub fn string_eq_ref(a: &String, b: &&str) -> bool { a.as_bytes() == b.as_bytes() }
pub fn str_eq_string(a: &str, b: &String) -> bool { a.as_bytes() == b.as_bytes() }
pub fn ref_eq_string(a: &&str, b: &String) -> bool { a.as_bytes() == b.as_bytes() }
pub fn vec_eq<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool { a[..] == b[..] }
pub fn vec_eq_array<T: PartialEq<U>, U, const N: usize>(a: &Vec<T>, b: &[U; N]) -> bool { a[..] == b[..] }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(a: Option<T>, f: F) -> bool { match a { Some(x) => f(x), None => false } }

pub fn slice_first_chunk<T, const N: usize>(s: &[T]) -> Option<&[T; N]> { if s.len() < N { None } else { s[..N].try_into().ok() } }
pub fn slice_last_chunk<T, const N: usize>(s: &[T]) -> Option<&[T; N]> { if s.len() < N { None } else { s[s.len() - N..].try_into().ok() } }
pub fn slice_split_first_chunk<T, const N: usize>(s: &[T]) -> Option<(&[T; N], &[T])> {
	let Some(a) = slice_first_chunk::<T, N>(s) else { return None };
	Some((a, &s[N..]))
}
pub fn slice_split_last_chunk<T, const N: usize>(s: &[T]) -> Option<(&[T], &[T; N])> {
	let Some(b) = slice_last_chunk::<T, N>(s) else { return None };
	Some((&s[..s.len() - N], b))
}
pub fn slice_fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) { for p in s.iter_mut() { *p = f(); } }
pub fn slice_copy_within<T: Copy, R: RangeBounds<usize>>(s: &mut [T], r: R, to: usize) {
	let lo = match r.start_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => *x + 1, Bound::Unbounded => 0 };
	let hi = match r.end_bound() { Bound::Included(x) => *x + 1, Bound::Excluded(x) => *x, Bound::Unbounded => s.len() };
	if lo > hi || hi > s.len() || to > s.len() - (hi - lo) { panic!("range out of bounds"); }
	let p = s.as_mut_ptr();
	unsafe { core::ptr::copy(p.add(lo), p.add(to), hi - lo); }
}
pub fn vec_is_empty<T>(v: &Vec<T>) -> bool { v.len() == 0 }
pub fn vec_from_array<T, const N: usize>(a: [T; N]) -> Vec<T> {
	let a = core::mem::ManuallyDrop::new(a);
	let mut v = Vec::with_capacity(N);
	unsafe {
		core::ptr::copy_nonoverlapping(a.as_ptr(), v.as_mut_ptr(), N);
		v.set_len(N);
	}
	v
}
pub fn array_from_vec<T, const N: usize>(mut v: Vec<T>) -> Result<[T; N], Vec<T>> {
	if v.len() != N { return Err(v); }
	unsafe {
		v.set_len(0);
		Ok((v.as_ptr() as *const [T; N]).read())
	}
}
pub fn string_push_str(s: &mut String, t: &str) { unsafe { s.as_mut_vec() }.extend_from_slice(t.as_bytes()) }
pub fn string_push(s: &mut String, c: char) {
	let mut b = [0; 4];
	string_push_str(s, c.encode_utf8(&mut b));
}
pub fn string_insert_str(s: &mut String, i: usize, t: &str) {
	if !s.as_str().is_char_boundary(i) { panic!("not a character boundary"); }
	let w = unsafe { s.as_mut_vec() }.split_off(i);
	unsafe { s.as_mut_vec() }.extend_from_slice(t.as_bytes());
	unsafe { s.as_mut_vec() }.extend_from_slice(&w);
}
pub fn string_insert(s: &mut String, i: usize, c: char) {
	let mut b = [0; 4];
	string_insert_str(s, i, c.encode_utf8(&mut b));
}
pub fn string_truncate(s: &mut String, n: usize) {
	if n <= s.len() {
		if !s.as_str().is_char_boundary(n) { panic!("not a character boundary"); }
		unsafe { s.as_mut_vec().set_len(n) }
	}
}
pub fn string_clear(s: &mut String) { unsafe { s.as_mut_vec().set_len(0) } }
pub fn chars_count(c: core::str::Chars) -> usize { let mut n = 0; for _ in c { n += 1; } n }
pub const fn dur_from_millis(n: u64) -> Duration { Duration::new(n / 1_000, (n % 1_000) as u32 * 1_000_000) }
pub const fn dur_from_micros(n: u64) -> Duration { Duration::new(n / 1_000_000, (n % 1_000_000) as u32 * 1_000) }
pub const fn dur_from_nanos(n: u64) -> Duration { Duration::new(n / 1_000_000_000, (n % 1_000_000_000) as u32) }
pub fn dur_is_zero(d: &Duration) -> bool { d.as_secs() == 0 && d.subsec_nanos() == 0 }
pub fn dur_checked_add(d: Duration, e: Duration) -> Option<Duration> {
	let n = d.subsec_nanos() + e.subsec_nanos();
	let Some(s) = d.as_secs().checked_add(e.as_secs()) else { return None };
	if n < 1_000_000_000 { return Some(Duration::new(s, n)); }
	let Some(s) = s.checked_add(1) else { return None };
	Some(Duration::new(s, n - 1_000_000_000))
}
pub fn dur_checked_sub(d: Duration, e: Duration) -> Option<Duration> {
	let Some(s) = d.as_secs().checked_sub(e.as_secs()) else { return None };
	if d.subsec_nanos() >= e.subsec_nanos() { return Some(Duration::new(s, d.subsec_nanos() - e.subsec_nanos())); }
	let Some(s) = s.checked_sub(1) else { return None };
	Some(Duration::new(s, d.subsec_nanos() + 1_000_000_000 - e.subsec_nanos()))
}
pub fn dur_saturating_sub(d: Duration, e: Duration) -> Duration { match dur_checked_sub(d, e) { Some(x) => x, None => Duration::new(0, 0) } }
pub fn dur_saturating_add(d: Duration, e: Duration) -> Duration { match dur_checked_add(d, e) { Some(x) => x, None => Duration::new(u64::MAX, 999_999_999) } }
pub fn dur_abs_diff(d: Duration, e: Duration) -> Duration { match dur_checked_sub(d, e) { Some(x) => x, None => dur_saturating_sub(e, d) } }
pub fn string_is_empty(s: &String) -> bool { s.len() == 0 }
pub fn slice_is_ascii(s: &[u8]) -> bool { for b in s { if *b >= 0x80 { return false; } } true }
pub fn str_is_ascii(s: &str) -> bool { slice_is_ascii(s.as_bytes()) }
pub fn slice_eq_ignore_ascii_case(a: &[u8], b: &[u8]) -> bool {
	if a.len() != b.len() { return false; }
	let mut i = 0;
	while i < a.len() { if a[i].to_ascii_lowercase() != b[i].to_ascii_lowercase() { return false; } i += 1; }
	true
}
pub fn str_eq_ignore_ascii_case(a: &str, b: &str) -> bool { slice_eq_ignore_ascii_case(a.as_bytes(), b.as_bytes()) }

// entries of maps
pub fn entry_or_insert<'a, K, V>(e: MapEntry<'a, K, V>, v: V) -> &'a mut V { match e { MapEntry::Occupied(e) => e.into_mut(), MapEntry::Vacant(e) => e.insert(v) } }
pub fn entry_or_insert_with<'a, K, V, F: FnOnce() -> V>(e: MapEntry<'a, K, V>, f: F) -> &'a mut V { match e { MapEntry::Occupied(e) => e.into_mut(), MapEntry::Vacant(e) => e.insert(f()) } }
pub fn entry_or_default<'a, K, V: Default>(e: MapEntry<'a, K, V>) -> &'a mut V { match e { MapEntry::Occupied(e) => e.into_mut(), MapEntry::Vacant(e) => e.insert(V::default()) } }
pub fn entry_and_modify<'a, K, V, F: FnOnce(&mut V)>(e: MapEntry<'a, K, V>, f: F) -> MapEntry<'a, K, V> { match e { MapEntry::Occupied(mut e) => { f(e.get_mut()); MapEntry::Occupied(e) } MapEntry::Vacant(e) => MapEntry::Vacant(e) } }
