#![allow(unused)]
//! The consuming iterator: exactly the remaining elements, from both ends, each once.
use oct::{SizedIter, SizedSlice};
use vrt::*;

pub fn check_len<T, const N: usize>(it: &SizedIter<T, N>) {
	let n = it.as_slice().len();
	require(n <= N, "never more elements than the capacity");
	require(it.len() == n, "the length is the number of remaining elements");
	let (lo, hi) = it.size_hint();
	require(lo == n, "the size hint is exact");
	require(hi == Some(n), "the size hint is exact");
}
pub fn check_views<T, const N: usize>(it: &mut SizedIter<T, N>) {
	let n = it.as_slice().len(); let p = it.as_slice().as_ptr();
	{ let a: &[T] = it.as_ref(); require(a.len() == n && core::ptr::eq(a.as_ptr(), p), "all views are the remaining elements"); }
	{ let a = it.as_mut_slice(); require(a.len() == n && core::ptr::eq(a.as_ptr(), p), "all views are the remaining elements"); }
	{ let a: &mut [T] = it.as_mut(); require(a.len() == n && core::ptr::eq(a.as_ptr(), p), "all views are the remaining elements"); }
	require(it.len() == n, "looking takes nothing");
}
pub fn check_next<const N: usize>(it: &mut SizedIter<u32, N>, j: usize) {
	let n = it.len();
	let first = if n > 0 { it.as_slice()[0] } else { 0 };
	let old = if j < n { it.as_slice()[j] } else { 0 };
	match it.next() {
		Some(x) => {
			require(n > 0, "an exhausted iterator yields nothing");
			require(x == first, "the first remaining element is yielded");
			require(it.len() == n - 1 && it.as_slice().len() == n - 1, "one element is taken");
			if j > 0 && j < n { require(it.as_slice()[j - 1] == old, "the other elements stay in order"); }
		}
		None => { require(n == 0, "every element is yielded"); require(it.len() == 0, "an exhausted iterator stays exhausted"); }
	}
}
pub fn check_next_back<const N: usize>(it: &mut SizedIter<u32, N>, j: usize) {
	let n = it.len();
	let last = if n > 0 { it.as_slice()[n - 1] } else { 0 };
	let old = if j < n { it.as_slice()[j] } else { 0 };
	match it.next_back() {
		Some(x) => {
			require(n > 0, "an exhausted iterator yields nothing");
			require(x == last, "the last remaining element is yielded");
			require(it.len() == n - 1 && it.as_slice().len() == n - 1, "one element is taken");
			if j < n - 1 { require(it.as_slice()[j] == old, "the other elements stay in order"); }
		}
		None => { require(n == 0, "every element is yielded"); require(it.len() == 0, "an exhausted iterator stays exhausted"); }
	}
}
pub fn check_exhausted<T, const N: usize>(it: &mut SizedIter<T, N>) {
	assume(it.len() == 0);
	require(it.next().is_none(), "an exhausted iterator yields nothing");
	require(it.next_back().is_none(), "an exhausted iterator yields nothing");
	require(it.next().is_none(), "an exhausted iterator stays exhausted");
	require(it.len() == 0, "an exhausted iterator stays exhausted");
}
/// arbitrary element types: the yielded value is the element itself
pub fn check_next_generic<T: Clone, const N: usize>(it: &mut SizedIter<T, N>) {
	assume(it.len() > 0);
	let c = it.as_slice()[0].clone();
	match it.next() { Some(x) => same(&x, &c, "the first remaining element is yielded"), None => unreachable("every element is yielded") }
}
pub fn check_next_back_generic<T: Clone, const N: usize>(it: &mut SizedIter<T, N>) {
	assume(it.len() > 0);
	let c = it.as_slice()[it.len() - 1].clone();
	match it.next_back() { Some(x) => same(&x, &c, "the last remaining element is yielded"), None => unreachable("every element is yielded") }
}
pub fn check_both_ends<const N: usize>(it: &mut SizedIter<u32, N>) {
	let n = it.len(); assume(n >= 2);
	let (a, b) = (it.as_slice()[0], it.as_slice()[n - 1]);
	let x = it.next(); let y = it.next_back();
	require(x == Some(a) && y == Some(b), "both ends are served");
	require(it.len() == n - 2, "two elements are taken");
}
pub fn check_clone<T: Clone, const N: usize>(it: &SizedIter<T, N>) {
	let c = it.clone();
	require(c.len() == it.len(), "a clone yields as many elements");
	same(c.as_slice(), it.as_slice(), "a clone yields the same elements");
}
pub fn check_clone_apart<const N: usize>(it: &SizedIter<u32, N>, j: usize) {
	assume(j < it.len()); let n = it.len(); let old = it.as_slice()[j];
	let mut c = it.clone();
	let _ = c.next();
	require(it.len() == n && it.as_slice()[j] == old, "a clone is independent");
}
pub fn check_into_iter<const N: usize>(s: SizedSlice<u32, N>, j: usize) {
	let n = s.len();
	let old = if j < n { s[j] } else { 0 };
	let it = s.into_iter();
	require(it.len() == n, "all elements are iterated over");
	if j < n { require(it.as_slice()[j] == old, "elements are iterated over in order"); }
}
pub fn check_into_iter_generic<T: Clone, const N: usize>(s: SizedSlice<T, N>) {
	let c = s.clone();
	let it = s.into_iter();
	same(it.as_slice(), c.as_slice(), "elements are iterated over in order");
}
/// skipping
pub fn check_nth<const N: usize>(it: &mut SizedIter<u32, N>, k: usize) {
	let n = it.len();
	let at = if k < n { it.as_slice()[k] } else { 0 };
	match it.nth(k) {
		Some(x) => {
			require(k < n, "nothing is yielded from behind the end");
			require(x == at, "the element after the skipped ones is yielded");
			require(it.len() == n - k - 1, "skipped and yielded elements are taken");
		}
		None => {
			require(k >= n, "an element that exists is yielded");
			require(it.len() == 0, "skipping past the end exhausts the iterator");
		}
	}
}
/// what can be relied on: from the beginning, the element itself is found
pub fn check_nth_fresh<const N: usize>(s: SizedSlice<u32, N>, k: usize) {
	assume(k >= 1 && k < s.len());
	let at = s[k];
	require(s.into_iter().nth(k) == Some(at), "the element after the skipped ones is yielded");
}
pub fn check_nth_far<const N: usize>(it: &mut SizedIter<u32, N>, k: usize) {
	let n = it.len();
	assume(k > n);
	require(it.nth(k).is_none(), "nothing is yielded from behind the end");
}
