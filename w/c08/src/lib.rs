#![allow(unused)]
//! Every element has one owner: what is decoded is either kept or dropped once, what is converted is moved, what is only looked at is left alone.
use core::marker::PhantomData;
use core::mem::{forget, ManuallyDrop, MaybeUninit};
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::{GenericEncodeError, GenericDecodeError};
use oct::{SizedIter, SizedSlice, SizedStr, Slot};
use std::borrow::Cow;
use std::cell::*;
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::num::*;
use std::ops::*;
use std::rc::Rc;
use std::sync::*;
use vrt::*;


/// decoding `$t`: a refused encoding leaves no element behind, an accepted one owns them all
macro_rules! owns {
	($name:ident [$($g:tt)*] [$($e:ident)*] $t:ty) => {
		pub fn $name<$($g)*>() {
			let mut i = any_input();
			may_panic();
			reset_drops();
			match <$t as Decode>::decode(&mut i) {
				Ok(v) => { $( require(drops(PhantomData::<$e>) == 0, "decoded elements are kept"); )* forget(v); }
				Err(e) => { $( all_decoded_are_dropped(PhantomData::<$e>, "a refused encoding leaves no element behind"); )* forget(e); }
			}
		}
	};
}
owns!(check_decode_array [T: Decode, const N: usize] [T] [T; N]);
owns!(check_decode_vec [T: Decode] [T] Vec<T>);
owns!(check_decode_sized_slice [T: Decode, const N: usize] [T] SizedSlice<T, N>);
owns!(check_decode_linked_list [T: Decode] [T] LinkedList<T>);
owns!(check_decode_option [T: Decode] [T] Option<T>);
owns!(check_decode_bound [T: Decode] [T] Bound<T>);
owns!(check_decode_result [T: Decode<Error = X>, F: Decode<Error = X>, X] [T F] Result<T, F>);
owns!(check_decode_range [T: Decode] [T] Range<T>);
owns!(check_decode_range_from [T: Decode] [T] RangeFrom<T>);
owns!(check_decode_range_inclusive [T: Decode] [T] RangeInclusive<T>);
owns!(check_decode_range_to [T: Decode] [T] RangeTo<T>);
owns!(check_decode_range_to_inclusive [T: Decode] [T] RangeToInclusive<T>);
owns!(check_decode_box [T: Decode] [T] Box<T>);
owns!(check_decode_rc [T: Decode] [T] Rc<T>);
owns!(check_decode_arc [T: Decode] [T] Arc<T>);
owns!(check_decode_ref_cell [T: Decode] [T] RefCell<T>);
owns!(check_decode_mutex [T: Decode] [T] Mutex<T>);
owns!(check_decode_rw_lock [T: Decode] [T] RwLock<T>);
owns!(check_decode_wrapping [T: Decode] [T] Wrapping<T>);
owns!(check_decode_saturating [T: Decode] [T] Saturating<T>);
owns!(check_decode_tuple1 [A: Decode] [A] (A,));
owns!(check_decode_tuple2 [A: Decode<Error = X>, B: Decode<Error = X>, X] [A B] (A, B));
owns!(check_decode_tuple3 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, X] [A B C] (A, B, C));
owns!(check_decode_tuple4 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, X] [A B C D] (A, B, C, D));
owns!(check_decode_nested_array [T: Decode] [T] [[T; 2]; 2]);
owns!(check_decode_vec_of_options [T: Decode] [T] Vec<Option<T>>);
owns!(check_decode_array_of_boxes [T: Decode, const N: usize] [T] [Box<T>; N]);
#[derive(Decode)]
pub struct Fields<A, B> where A: Decode, <A as Decode>::Error: Into<GenericDecodeError>, B: Decode, <B as Decode>::Error: Into<GenericDecodeError>, { pub a: A, pub b: B }
owns!(check_decode_struct [A: Decode<Error = X>, B: Decode<Error = X>, X: Into<GenericDecodeError>] [A B] Fields<A, B>);
#[derive(Decode)]
#[repr(u8)]
pub enum Variants<A, B> where A: Decode, <A as Decode>::Error: Into<GenericDecodeError>, B: Decode, <B as Decode>::Error: Into<GenericDecodeError>, { None, One(A), Two { a: B, b: A } }
owns!(check_decode_enum [A: Decode<Error = X>, B: Decode<Error = X>, X: Into<GenericDecodeError>] [A B] Variants<A, B>);

/// encoding borrows
macro_rules! borrows {
	($name:ident [$($g:tt)*] [$($e:ident)*] $t:ty) => {
		pub fn $name<$($g)*>(v: &$t) {
			let mut o = recorder();
			reset_drops();
			let r = <$t as Encode>::encode(v, &mut o);
			$( require(drops(PhantomData::<$e>) == 0, "encoding drops nothing"); )*
			forget(r);
		}
	};
}
borrows!(check_encode_array [T: Encode, const N: usize] [T] [T; N]);
borrows!(check_encode_slice [T: Encode] [T] [T]);
borrows!(check_encode_vec [T: Encode] [T] Vec<T>);
borrows!(check_encode_box [T: Encode] [T] Box<T>);
borrows!(check_encode_box_slice [T: Encode] [T] Box<[T]>);
borrows!(check_encode_rc [T: Encode] [T] Rc<T>);
borrows!(check_encode_arc [T: Encode] [T] Arc<T>);
borrows!(check_encode_cow [T: Encode + Clone + 'static] [T] Cow<'static, [T]>);
borrows!(check_encode_linked_list [T: Encode] [T] LinkedList<T>);
borrows!(check_encode_option [T: Encode] [T] Option<T>);
borrows!(check_encode_bound [T: Encode] [T] Bound<T>);
borrows!(check_encode_result [T: Encode<Error = X>, F: Encode<Error = X>, X] [T F] Result<T, F>);
borrows!(check_encode_range [T: Encode] [T] Range<T>);
borrows!(check_encode_range_from [T: Encode] [T] RangeFrom<T>);
borrows!(check_encode_range_inclusive [T: Encode] [T] RangeInclusive<T>);
borrows!(check_encode_range_to [T: Encode] [T] RangeTo<T>);
borrows!(check_encode_range_to_inclusive [T: Encode] [T] RangeToInclusive<T>);
borrows!(check_encode_ref_cell [T: Encode] [T] RefCell<T>);
borrows!(check_encode_mutex [T: Encode] [T] Mutex<T>);
borrows!(check_encode_rw_lock [T: Encode] [T] RwLock<T>);
borrows!(check_encode_lazy_cell [T: Encode] [T] LazyCell<T>);
borrows!(check_encode_lazy_lock [T: Encode] [T] LazyLock<T>);
borrows!(check_encode_wrapping [T: Encode] [T] Wrapping<T>);
borrows!(check_encode_saturating [T: Encode] [T] Saturating<T>);
borrows!(check_encode_tuple1 [A: Encode] [A] (A,));
borrows!(check_encode_tuple2 [A: Encode<Error = X>, B: Encode<Error = X>, X] [A B] (A, B));
borrows!(check_encode_tuple3 [A: Encode<Error = X>, B: Encode<Error = X>, C: Encode<Error = X>, X] [A B C] (A, B, C));
borrows!(check_encode_sized_slice [T: Encode, const N: usize] [T] SizedSlice<T, N>);
borrows!(check_encode_hash_map [K: Encode<Error = X> + Eq + Hash, V: Encode<Error = X>, S: BuildHasher, X] [K V] HashMap<K, V, S>);
borrows!(check_encode_hash_set [K: Encode + Eq + Hash, S: BuildHasher] [K] HashSet<K, S>);

// ---- sized slices
pub fn check_from_array<T, const N: usize>(a: [T; N], j: usize) {
	assume(j < N);
	let x = ghost(&a[j]);
	reset_drops();
	let s = SizedSlice::<T, N>::from(a);
	require(dropped(&x) == 0, "a moved element is not dropped");
	require(drops(PhantomData::<T>) == 0, "a moved element is not dropped");
	if j < s.len() { same(&s[j], &x, "a moved element is the element itself"); }
	forget(s); forget(x);
}
macro_rules! moves {
	($($name:ident $s:ident => $e:expr;)*) => { $(
		pub fn $name<T, const N: usize>($s: SizedSlice<T, N>, j: usize) {
			assume(j < $s.len());
			let x = ghost(&$s[j]);
			reset_drops();
			let r = $e;
			require(drops(PhantomData::<T>) == 0, "a moved element is not dropped");
			same(&r[j], &x, "a moved element is the element itself");
			forget(r); forget(x);
		}
	)* };
}
moves! {
	check_into_boxed s => s.into_boxed_slice();
	check_into_vec s => s.into_vec();
	check_box_from s => Box::<[T]>::from(s);
	check_vec_from s => Vec::<T>::from(s);
	check_raw_there_and_back s => { let (b, n) = s.into_raw_parts(); unsafe { SizedSlice::<T, N>::from_raw_parts(b, n) } };
}
pub fn check_into_iter<T, const N: usize>(s: SizedSlice<T, N>, j: usize) {
	assume(j < s.len());
	let x = ghost(&s[j]); let n = s.len();
	reset_drops();
	let i = s.into_iter();
	require(drops(PhantomData::<T>) == 0, "a moved element is not dropped");
	require(i.as_slice().len() == n, "no element is lost");
	same(&i.as_slice()[j], &x, "a moved element is the element itself");
	forget(i); forget(x);
}
pub fn check_new<T: Clone, const N: usize>(d: &[T]) {
	reset_drops();
	match SizedSlice::<T, N>::new(d) {
		Ok(s) => { require(cloned(PhantomData::<T>) == s.len() + drops(PhantomData::<T>), "the clones are kept"); forget(s); }
		Err(_) => require(cloned(PhantomData::<T>) == drops(PhantomData::<T>), "every clone that is not kept is dropped"),
	}
}
pub fn check_clone<T: Clone, const N: usize>(s: &SizedSlice<T, N>) {
	reset_drops();
	let c = s.clone();
	require(cloned(PhantomData::<T>) == c.len() + drops(PhantomData::<T>), "the clones are kept");
	forget(c);
}
macro_rules! looks {
	($($name:ident $s:ident => $e:expr;)*) => { $(
		pub fn $name<T, const N: usize>($s: &mut SizedSlice<T, N>) {
			reset_drops();
			{ let _ = $e; }
			require(drops(PhantomData::<T>) == 0, "looking drops nothing");
		}
	)* };
}
looks! {
	check_each_ref s => s.each_ref();
	check_each_mut s => s.each_mut();
	check_views s => (s.as_slice().len(), s.as_mut_slice().len(), s.as_ptr(), s.as_mut_ptr());
	check_iter s => s.iter().next().is_some();
	check_iter_mut s => s.iter_mut().next().is_some();
}
/// counts what is taken from an iterator
pub struct Counted<'a, I>(I, &'a mut usize);
impl<I: Iterator> Iterator for Counted<'_, I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> {
		match self.0.next() { Some(x) => { *self.1 += 1; Some(x) }, None => None }
	}
}
pub fn check_collect<T, const N: usize, I: Iterator<Item = T>>(v: I) {
	reset_drops();
	let mut n = 0;
	let s = Counted(v, &mut n).collect::<SizedSlice<T, N>>();
	require(n == s.len() + drops(PhantomData::<T>), "every item that was taken is kept or dropped");
	forget(s);
}
// ---- the consuming iterator
pub fn check_next<T, const N: usize>(it: &mut SizedIter<T, N>) {
	let n = it.len();
	reset_drops();
	let r = it.next();
	require(drops(PhantomData::<T>) == 0, "a yielded element is not dropped");
	match r {
		Some(x) => { require(it.len() + 1 == n, "a yielded element is taken"); forget(x); }
		None => require(n == 0, "no element is lost"),
	}
}
pub fn check_next_back<T, const N: usize>(it: &mut SizedIter<T, N>) {
	let n = it.len();
	reset_drops();
	let r = it.next_back();
	require(drops(PhantomData::<T>) == 0, "a yielded element is not dropped");
	match r {
		Some(x) => { require(it.len() + 1 == n, "a yielded element is taken"); forget(x); }
		None => require(n == 0, "no element is lost"),
	}
}
pub fn check_nth<T, const N: usize>(it: &mut SizedIter<T, N>, k: usize) {
	assume(k < it.len());
	reset_drops();
	let r = it.nth(k);
	require(drops(PhantomData::<T>) == k, "skipped elements are dropped");
	forget(r);
}
pub fn check_iter_clone<T: Clone, const N: usize>(it: &SizedIter<T, N>) {
	reset_drops();
	let c = it.clone();
	require(cloned(PhantomData::<T>) == c.len() + drops(PhantomData::<T>), "the clones are kept");
	forget(c);
}
// ---- the end of a container
pub fn check_drop_slice<T, const N: usize>(s: SizedSlice<T, N>) {
	let n = s.len();
	reset_drops();
	drop(s);
	require(drops(PhantomData::<T>) == n, "the elements of a dropped container are dropped");
}
pub fn check_drop_iter<T, const N: usize>(s: SizedIter<T, N>) {
	let n = s.len();
	reset_drops();
	drop(s);
	require(drops(PhantomData::<T>) == n, "the elements of a dropped container are dropped");
}
// ---- slots
pub fn check_slot_write<T: Encode + SizedEncode>(s: &mut Slot<T>, v: &T) {
	reset_drops();
	let r = s.write(v);
	require(drops(PhantomData::<T>) == 0, "writing borrows");
	forget(r);
}
pub fn check_slot_read<T: Encode + SizedEncode + Decode>(s: &Slot<T>) {
	may_panic();
	reset_drops();
	match s.read() {
		Ok(v) => { require(drops(PhantomData::<T>) == 0, "decoded elements are kept"); forget(v); }
		Err(e) => { all_decoded_are_dropped(PhantomData::<T>, "a refused encoding leaves no element behind"); forget(e); }
	}
}
