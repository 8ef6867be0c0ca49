#![allow(unused)]
//! Comparison, ordering and hashing agree with the live contents, with each other and with the borrowed form.
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use oct::encode::Output;
use oct::{SizedSlice, SizedStr, Slot};
use vrt::*;

const EQ: &str = "equality is that of the contents";
const ORD: &str = "ordering is that of the contents";
const HASH: &str = "hashing is that of the contents";

// ---- equality
pub fn check_eq_slices<T: PartialEq<U>, U: PartialEq<T>, const N: usize, const M: usize>(a: &SizedSlice<T, N>, b: &SizedSlice<U, M>) {
	let want = a.as_slice() == b.as_slice();
	require((*a == *b) == want, "equality is that of the contents");
	require((*a != *b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_array<T: PartialEq<U>, U: PartialEq<T>, const N: usize, const M: usize>(a: &SizedSlice<T, N>, b: &[U; M]) {
	let want = a.as_slice() == b.as_slice();
	require((*a == *b) == want, "equality is that of the contents");
	require((*a != *b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_slice<T: PartialEq<U>, U: PartialEq<T>, const N: usize>(a: &SizedSlice<T, N>, b: &[U]) {
	let want = a.as_slice() == b;
	require((*a == b) == want, "equality is that of the contents");
	require((*a != b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_vec<T: PartialEq<U>, U: PartialEq<T>, const N: usize>(a: &SizedSlice<T, N>, b: &Vec<U>) {
	let want = a.as_slice() == b.as_slice();
	require((*a == *b) == want, "equality is that of the contents");
	require((*a != *b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_str<const N: usize, const M: usize>(a: &SizedStr<N>, b: &SizedStr<M>) {
	let want = a.as_str() == b.as_str();
	require((*a == *b) == want, "equality is that of the contents");
	require((*b == *a) == want, "equality is symmetric");
	require((*a != *b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_str_ref<const N: usize>(a: &SizedStr<N>, b: &str) {
	let want = a.as_str() == b;
	require((*a == b) == want, "equality is that of the contents");
	require((*a != b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_string<const N: usize>(a: &SizedStr<N>, b: &String) {
	let want = a.as_str() == b.as_str();
	require((*a == *b) == want, "equality is that of the contents");
	require((*a != *b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_slot<T>(a: &Slot<T>, b: &[u8]) {
	let want = a.as_slice() == b;
	require((*a == *b) == want, "equality is that of the contents");
	require((*a == b) == want, "equality is that of the contents");
	require((*a != *b) == !want, "inequality is the negation of equality");
}
pub fn check_eq_slot_mut<T>(a: &Slot<T>, b: &mut [u8]) {
	let want = a.as_slice() == &*b;
	require((*a == b) == want, "equality is that of the contents");
}
pub fn check_eq_output(a: &Output<'_>, b: &Output<'_>) {
	let want = a.as_slice() == b.as_slice();
	require((*a == *b) == want, "equality is that of the contents");
	require((*b == *a) == want, "equality is symmetric");
}
pub fn check_eq_output_slice(a: &Output<'_>, b: &[u8]) {
	let want = a.as_slice() == b;
	require((*a == *b) == want, "equality is that of the contents");
	require((*a == b) == want, "equality is that of the contents");
}
pub fn check_eq_output_mut(a: &Output<'_>, b: &mut [u8]) {
	let want = a.as_slice() == &*b;
	require((*a == b) == want, "equality is that of the contents");
}
pub fn check_reflexive<const N: usize>(a: &SizedSlice<u32, N>, s: &SizedStr<N>) {
	require(*a == *a, "equality is reflexive");
	require(*s == *s, "equality is reflexive");
	let b = a.clone(); let t = s.clone();
	require(*a == b && b == *a, "a clone is equal");
	require(*s == t && t == *s, "a clone is equal");
}
pub fn check_symmetric<const N: usize, const M: usize>(a: &SizedSlice<u32, N>, b: &SizedSlice<u32, M>) {
	require((*a == *b) == (*b == *a), "equality is symmetric");
}
pub fn check_len_matters<T: PartialEq, const N: usize, const M: usize>(a: &SizedSlice<T, N>, b: &SizedSlice<T, M>) {
	assume(a.len() != b.len());
	require(*a != *b, "contents of different lengths differ");
}
pub fn check_element_matters<const N: usize, const M: usize>(a: &SizedSlice<u8, N>, b: &SizedSlice<u8, M>) {
	assume(a.len() == 1 && b.len() == 1);
	require((*a == *b) == (a[0] == b[0]), "contents with a different element differ");
}
// ---- ordering
pub fn check_cmp<T: Ord, const N: usize>(a: &SizedSlice<T, N>, b: &SizedSlice<T, N>) {
	same(&a.cmp(b), &a.as_slice().cmp(b.as_slice()), "ordering is that of the contents");
}
pub fn check_cmp_u32<const N: usize>(a: &SizedSlice<u32, N>, b: &SizedSlice<u32, N>) {
	same(&a.partial_cmp(b), &Some(a.cmp(b)), "partial and total order agree");
	require((a.cmp(b) == Ordering::Equal) == (*a == *b), "order and equality agree");
	require((*a < *b) == (a.cmp(b) == Ordering::Less), "order and comparison agree");
	require((*a <= *b) == (a.cmp(b) != Ordering::Greater), "order and comparison agree");
	require((*a > *b) == (a.cmp(b) == Ordering::Greater), "order and comparison agree");
	require((*a >= *b) == (a.cmp(b) != Ordering::Less), "order and comparison agree");
}
pub fn check_antisymmetric<const N: usize>(a: &SizedSlice<u32, N>, b: &SizedSlice<u32, N>) {
	require(a.cmp(b) == b.cmp(a).reverse(), "the order is antisymmetric");
}
pub fn check_partial<T: PartialOrd, const N: usize, const M: usize>(a: &SizedSlice<T, N>, b: &SizedSlice<T, M>) {
	same(&a.partial_cmp(b), &a.as_slice().partial_cmp(b.as_slice()), "ordering is that of the contents");
}
pub fn check_partial_array<T: PartialOrd, const N: usize, const M: usize>(a: &SizedSlice<T, N>, b: &[T; M]) {
	same(&a.partial_cmp(b), &a.as_slice().partial_cmp(b.as_slice()), "ordering is that of the contents");
}
pub fn check_partial_slice<T: PartialOrd, const N: usize>(a: &SizedSlice<T, N>, b: &[T]) {
	same(&a.partial_cmp(&b), &a.as_slice().partial_cmp(b), "ordering is that of the contents");
}
pub fn check_partial_vec<T: PartialOrd, const N: usize>(a: &SizedSlice<T, N>, b: &Vec<T>) {
	same(&a.partial_cmp(b), &a.as_slice().partial_cmp(b.as_slice()), "ordering is that of the contents");
}
pub fn check_str_order<const N: usize>(a: &SizedStr<N>, b: &SizedStr<N>) {
	same(&a.cmp(b), &a.as_str().cmp(b.as_str()), "ordering is that of the contents");
	same(&a.partial_cmp(b), &Some(a.cmp(b)), "partial and total order agree");
	require((a.cmp(b) == Ordering::Equal) == (*a == *b), "order and equality agree");
	require(a.cmp(b) == b.cmp(a).reverse(), "the order is antisymmetric");
}
pub fn check_str_partial<const N: usize, const M: usize>(a: &SizedStr<N>, b: &SizedStr<M>) {
	same(&a.partial_cmp(b), &a.as_str().partial_cmp(b.as_str()), "ordering is that of the contents");
}
pub fn check_str_partial_ref<const N: usize>(a: &SizedStr<N>, b: &str) {
	same(&a.partial_cmp(&b), &a.as_str().partial_cmp(b), "ordering is that of the contents");
}
pub fn check_str_partial_string<const N: usize>(a: &SizedStr<N>, b: &String) {
	same(&a.partial_cmp(b), &a.as_str().partial_cmp(b.as_str()), "ordering is that of the contents");
}
// ---- hashing, borrowing
pub fn check_hash<T: Hash, H: Hasher + Clone, const N: usize>(a: &SizedSlice<T, N>, h: &H) {
	let mut x = h.clone(); let mut y = h.clone();
	a.hash(&mut x);
	a.as_slice().hash(&mut y);
	require(x.finish() == y.finish(), "hashing is that of the contents");
}
pub fn check_hash_borrow<T: Hash, H: Hasher + Clone, const N: usize>(a: &SizedSlice<T, N>, h: &H) {
	let mut x = h.clone(); let mut y = h.clone();
	a.hash(&mut x);
	Borrow::<[T]>::borrow(a).hash(&mut y);
	require(x.finish() == y.finish(), "the borrowed form hashes alike");
}
pub fn check_hash_str<H: Hasher + Clone, const N: usize>(a: &SizedStr<N>, h: &H) {
	let mut x = h.clone(); let mut y = h.clone();
	a.hash(&mut x);
	a.as_str().hash(&mut y);
	require(x.finish() == y.finish(), "hashing is that of the contents");
}
pub fn check_hash_str_borrow<H: Hasher + Clone, const N: usize>(a: &SizedStr<N>, h: &H) {
	let mut x = h.clone(); let mut y = h.clone();
	a.hash(&mut x);
	Borrow::<str>::borrow(a).hash(&mut y);
	require(x.finish() == y.finish(), "the borrowed form hashes alike");
}
pub fn check_hash_equal<H: Hasher + Clone, const N: usize>(a: &SizedSlice<u32, N>, h: &H) {
	let b = a.clone();
	let mut x = h.clone(); let mut y = h.clone();
	a.hash(&mut x); b.hash(&mut y);
	require(x.finish() == y.finish(), "equal contents hash alike");
}
pub fn check_hash_str_equal<H: Hasher + Clone, const N: usize>(a: &SizedStr<N>, h: &H) {
	let b = a.clone();
	let mut x = h.clone(); let mut y = h.clone();
	a.hash(&mut x); b.hash(&mut y);
	require(x.finish() == y.finish(), "equal contents hash alike");
}
pub fn check_borrow_eq<T: PartialEq, const N: usize>(a: &SizedSlice<T, N>, b: &SizedSlice<T, N>) {
	require((*a == *b) == (Borrow::<[T]>::borrow(a) == Borrow::<[T]>::borrow(b)), "the borrowed form compares alike");
}
pub fn check_borrow_ord<T: Ord, const N: usize>(a: &SizedSlice<T, N>, b: &SizedSlice<T, N>) {
	same(&a.cmp(b), &Borrow::<[T]>::borrow(a).cmp(Borrow::<[T]>::borrow(b)), "the borrowed form compares alike");
}
pub fn check_borrow_str<const N: usize>(a: &SizedStr<N>, b: &SizedStr<N>) {
	require((*a == *b) == (Borrow::<str>::borrow(a) == Borrow::<str>::borrow(b)), "the borrowed form compares alike");
	same(&a.cmp(b), &Borrow::<str>::borrow(a).cmp(Borrow::<str>::borrow(b)), "the borrowed form compares alike");
}
