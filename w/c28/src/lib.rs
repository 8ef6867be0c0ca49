#![allow(unused)]
//! Heap memory is taken for what the resulting value owns and for nothing else.
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::GenericEncodeError;
use oct::{SizedIter, SizedSlice, SizedStr, Slot};
use std::borrow::{Borrow, Cow};
use std::cell::*;
use std::collections::*;
use std::ffi::{CStr, CString};
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::*;
use std::net::*;
use std::num::*;
use std::ops::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;

#[derive(Encode, Decode, SizedEncode)] pub struct Pair { pub a: u16, pub b: SizedStr<4>, pub c: Option<char> }
#[derive(Encode, Decode, SizedEncode)] pub enum Kind { A, B(u32, bool), C { x: SizedSlice<u16, 3>, y: Pair } }
#[derive(Encode)] pub struct Derived<T: Encode<Error: Into<GenericEncodeError>>> { pub a: RefCell<T>, pub b: Mutex<u8>, pub c: Cell<u16>, pub d: AtomicU32 }
#[derive(Encode)] pub enum Choice<T: Encode<Error: Into<GenericEncodeError>>> { A, B(RwLock<T>), C { x: AtomicBool, y: Rc<T> } }

macro_rules! writes {
	($name:ident [$($g:tt)*] $t:ty) => {
		pub fn $name<$($g)*>(v: &$t) {
			let mut o = vrt::recorder();
			vrt::allocate_at_most(0, "encoding allocates nothing");
			let x = <$t as Encode>::encode(v, &mut o);
			core::mem::forget(x);
		}
	};
}
writes!(check_enc_usize [] usize);
writes!(check_enc_isize [] isize);
writes!(check_enc_bool [] bool);
writes!(check_enc_char [] char);
writes!(check_enc_unit [] ());
writes!(check_enc_phantom_data [T] PhantomData<T>);
writes!(check_enc_phantom_pinned [] PhantomPinned);
writes!(check_enc_range_full [] RangeFull);
writes!(check_enc_range [T: Encode] Range<T>);
writes!(check_enc_range_from [T: Encode] RangeFrom<T>);
writes!(check_enc_range_inclusive [T: Encode] RangeInclusive<T>);
writes!(check_enc_range_to [T: Encode] RangeTo<T>);
writes!(check_enc_range_to_inclusive [T: Encode] RangeToInclusive<T>);
writes!(check_enc_bound [T: Encode] Bound<T>);
writes!(check_enc_option [T: Encode] Option<T>);
writes!(check_enc_result [T: Encode<Error = E1>, E: Encode<Error = E1>, E1] Result<T, E>);
writes!(check_enc_wrapping [T: Encode] Wrapping<T>);
writes!(check_enc_saturating [T: Encode] Saturating<T>);
writes!(check_enc_cell [T: Copy + Encode] Cell<T>);
writes!(check_enc_box [T: Encode] Box<T>);
writes!(check_enc_rc [T: Encode] Rc<T>);
writes!(check_enc_arc [T: Encode] Arc<T>);
writes!(check_enc_ref [T: Encode] &'static T);
writes!(check_enc_mut [T: Encode] &'static mut T);
writes!(check_enc_lazy_cell [T: Encode] LazyCell<T>);
writes!(check_enc_lazy_lock [T: Encode] LazyLock<T>);
writes!(check_enc_box_slice [T: Encode] Box<[T]>);
writes!(check_enc_box_str [] Box<str>);
writes!(check_enc_ref_slice [T: Encode + 'static] &'static [T]);
writes!(check_enc_ref_str [] &'static str);
writes!(check_enc_duration [] Duration);
writes!(check_enc_ipv4 [] Ipv4Addr);
writes!(check_enc_ipv6 [] Ipv6Addr);
writes!(check_enc_ip [] IpAddr);
writes!(check_enc_socket_v4 [] SocketAddrV4);
writes!(check_enc_socket_v6 [] SocketAddrV6);
writes!(check_enc_socket [] SocketAddr);
writes!(check_enc_nz_usize [] NonZero<usize>);
writes!(check_enc_nz_isize [] NonZero<isize>);
writes!(check_enc_at_usize [] AtomicUsize);
writes!(check_enc_at_isize [] AtomicIsize);
writes!(check_enc_at_bool [] AtomicBool);
writes!(check_enc_array [T: Encode, const N: usize] [T; N]);
writes!(check_enc_slice [T: Encode] [T]);
writes!(check_enc_vec [T: Encode] Vec<T>);
writes!(check_enc_cow_slice [T: Encode + Clone + 'static] Cow<'static, [T]>);
writes!(check_enc_linked_list [T: Encode] LinkedList<T>);
writes!(check_enc_str [] str);
writes!(check_enc_string [] String);
writes!(check_enc_cow_str [] Cow<'static, str>);
writes!(check_enc_c_str [] CStr);
writes!(check_enc_c_string [] CString);
writes!(check_enc_sized_slice [T: Encode, const N: usize] SizedSlice<T, N>);
writes!(check_enc_sized_str [const N: usize] SizedStr<N>);
writes!(check_enc_hash_map [K: Encode<Error = E1> + Eq + std::hash::Hash, V: Encode<Error = E1>, S: std::hash::BuildHasher, E1] HashMap<K, V, S>);
writes!(check_enc_hash_set [K: Encode + Eq + std::hash::Hash, S: std::hash::BuildHasher] HashSet<K, S>);
writes!(check_enc_tuple1 [A: Encode] (A,));
writes!(check_enc_u8 [] u8);
writes!(check_enc_u16 [] u16);
writes!(check_enc_u32 [] u32);
writes!(check_enc_u64 [] u64);
writes!(check_enc_u128 [] u128);
writes!(check_enc_i8 [] i8);
writes!(check_enc_i16 [] i16);
writes!(check_enc_i32 [] i32);
writes!(check_enc_i64 [] i64);
writes!(check_enc_i128 [] i128);
writes!(check_enc_f32 [] f32);
writes!(check_enc_f64 [] f64);
writes!(check_enc_nz_u8 [] NonZero<u8>);
writes!(check_enc_nz_u16 [] NonZero<u16>);
writes!(check_enc_nz_u32 [] NonZero<u32>);
writes!(check_enc_nz_u64 [] NonZero<u64>);
writes!(check_enc_nz_u128 [] NonZero<u128>);
writes!(check_enc_nz_i8 [] NonZero<i8>);
writes!(check_enc_nz_i16 [] NonZero<i16>);
writes!(check_enc_nz_i32 [] NonZero<i32>);
writes!(check_enc_nz_i64 [] NonZero<i64>);
writes!(check_enc_nz_i128 [] NonZero<i128>);
writes!(check_enc_at_u8 [] AtomicU8);
writes!(check_enc_at_u16 [] AtomicU16);
writes!(check_enc_at_u32 [] AtomicU32);
writes!(check_enc_at_u64 [] AtomicU64);
writes!(check_enc_at_i8 [] AtomicI8);
writes!(check_enc_at_i16 [] AtomicI16);
writes!(check_enc_at_i32 [] AtomicI32);
writes!(check_enc_at_i64 [] AtomicI64);
writes!(check_enc_tuple2 [A: Encode<Error = E1>, B: Encode<Error = E1>, E1] (A, B,));
writes!(check_enc_tuple3 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, E1] (A, B, C,));
writes!(check_enc_tuple4 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E1] (A, B, C, D,));
writes!(check_enc_tuple5 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, E1] (A, B, C, D, E,));
writes!(check_enc_tuple6 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, E1] (A, B, C, D, E, F,));
writes!(check_enc_tuple7 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, E1] (A, B, C, D, E, F, G,));
writes!(check_enc_tuple8 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H,));
writes!(check_enc_tuple9 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I,));
writes!(check_enc_tuple10 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, J: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J,));
writes!(check_enc_tuple11 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, J: Encode<Error = E1>, K: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J, K,));
writes!(check_enc_tuple12 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, J: Encode<Error = E1>, K: Encode<Error = E1>, L: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J, K, L,));
writes!(check_enc_ref_cell [T: Encode] RefCell<T>);
writes!(check_enc_mutex [T: Encode] Mutex<T>);
writes!(check_enc_rw_lock [T: Encode] RwLock<T>);
writes!(check_enc_ref_cell_nested [T: Encode] RefCell<RefCell<T>>);
writes!(check_enc_mutex_slice [T: Encode] Mutex<Box<[T]>>);
writes!(check_enc_lock_of_result [T: Encode<Error = E1>, E: Encode<Error = E1>, E1] RwLock<Result<T, E>>);
writes!(check_enc_locks [T: Encode] [Mutex<T>; 2]);
writes!(check_enc_slice_of_cells [T: Encode] [RefCell<T>]);
writes!(check_enc_vec_of_locks [T: Encode] Vec<RwLock<T>>);
writes!(check_enc_system_time [] SystemTime);
writes!(check_enc_derived_struct [T: Encode<Error: Into<oct::error::GenericEncodeError>>] Derived<T>);
writes!(check_enc_derived_enum [T: Encode<Error: Into<oct::error::GenericEncodeError>>] Choice<T>);
writes!(check_enc_pair [] Pair);
writes!(check_enc_kind [] Kind);

fn len_(k: &mut Input) -> usize { let mut b = [0u8; 2]; k.read_into(&mut b).unwrap(); u16::from_le_bytes(b) as usize }
macro_rules! reads {
	($name:ident [$($g:tt)*] $t:ty) => { reads!($name [$($g)*] $t, k => 0); };
	($name:ident [$($g:tt)*] $t:ty, $k:ident => $e:expr) => {
		pub fn $name<$($g)*>() {
			let mut i = vrt::any_input();
			let mut j = vrt::same_input(&i);
			vrt::must_suffice();
			let n: usize = { let $k = &mut j; $e };
			vrt::allocate_at_most(n, "decoding allocates no more than the decoded value owns");
			let x = <$t as Decode>::decode(&mut i);
			core::mem::forget(x);
		}
	};
}
reads!(check_dec_usize [] usize);
reads!(check_dec_isize [] isize);
reads!(check_dec_bool [] bool);
reads!(check_dec_char [] char);
reads!(check_dec_unit [] ());
reads!(check_dec_phantom_data [T] PhantomData<T>);
reads!(check_dec_phantom_pinned [] PhantomPinned);
reads!(check_dec_range_full [] RangeFull);
reads!(check_dec_range [T: Decode] Range<T>);
reads!(check_dec_range_from [T: Decode] RangeFrom<T>);
reads!(check_dec_range_inclusive [T: Decode] RangeInclusive<T>);
reads!(check_dec_range_to [T: Decode] RangeTo<T>);
reads!(check_dec_range_to_inclusive [T: Decode] RangeToInclusive<T>);
reads!(check_dec_bound [T: Decode] Bound<T>);
reads!(check_dec_option [T: Decode] Option<T>);
reads!(check_dec_result [T: Decode<Error = X>, F: Decode<Error = X>, X] Result<T, F>);
reads!(check_dec_wrapping [T: Decode] Wrapping<T>);
reads!(check_dec_saturating [T: Decode] Saturating<T>);
reads!(check_dec_cell [T: Copy + Decode] Cell<T>);
reads!(check_dec_ref_cell [T: Decode] RefCell<T>);
reads!(check_dec_mutex [T: Decode] Mutex<T>);
reads!(check_dec_rw_lock [T: Decode] RwLock<T>);
reads!(check_dec_box [T: Decode] Box<T>, k => 1);
reads!(check_dec_rc [T: Decode] Rc<T>, k => 1);
reads!(check_dec_arc [T: Decode] Arc<T>, k => 1);
reads!(check_dec_ipv4 [] Ipv4Addr);
reads!(check_dec_ipv6 [] Ipv6Addr);
reads!(check_dec_ip [] IpAddr);
reads!(check_dec_socket_v4 [] SocketAddrV4);
reads!(check_dec_socket_v6 [] SocketAddrV6);
reads!(check_dec_socket [] SocketAddr);
reads!(check_dec_vec [T: Decode] Vec<T>, k => len_(k));
reads!(check_dec_linked_list [T: Decode] LinkedList<T>, k => 1);
reads!(check_dec_hash_map [K: Decode<Error = X> + Eq + Hash, V: Decode<Error = X>, S: BuildHasher + Default, X] HashMap<K, V, S>, k => len_(k));
reads!(check_dec_hash_set [K: Decode + Eq + Hash, S: BuildHasher + Default] HashSet<K, S>, k => len_(k));
reads!(check_dec_cow_str [] Cow<'static, str>, k => len_(k));
reads!(check_dec_string [] String, k => len_(k));
reads!(check_dec_c_string [] CString, k => len_(k) + 1);
reads!(check_dec_sized_str [const N: usize] SizedStr<N>);
reads!(check_dec_tuple1 [A: Decode] (A,));
reads!(check_dec_system_time [] SystemTime);
reads!(check_dec_u8 [] u8);
reads!(check_dec_u16 [] u16);
reads!(check_dec_u32 [] u32);
reads!(check_dec_u64 [] u64);
reads!(check_dec_u128 [] u128);
reads!(check_dec_i8 [] i8);
reads!(check_dec_i16 [] i16);
reads!(check_dec_i32 [] i32);
reads!(check_dec_i64 [] i64);
reads!(check_dec_i128 [] i128);
reads!(check_dec_f32 [] f32);
reads!(check_dec_f64 [] f64);
reads!(check_dec_nz_u8 [] NonZero<u8>);
reads!(check_dec_nz_u16 [] NonZero<u16>);
reads!(check_dec_nz_u32 [] NonZero<u32>);
reads!(check_dec_nz_u64 [] NonZero<u64>);
reads!(check_dec_nz_u128 [] NonZero<u128>);
reads!(check_dec_nz_usize [] NonZero<usize>);
reads!(check_dec_nz_i8 [] NonZero<i8>);
reads!(check_dec_nz_i16 [] NonZero<i16>);
reads!(check_dec_nz_i32 [] NonZero<i32>);
reads!(check_dec_nz_i64 [] NonZero<i64>);
reads!(check_dec_nz_i128 [] NonZero<i128>);
reads!(check_dec_nz_isize [] NonZero<isize>);
reads!(check_dec_at_bool [] AtomicBool);
reads!(check_dec_at_u8 [] AtomicU8);
reads!(check_dec_at_u16 [] AtomicU16);
reads!(check_dec_at_u32 [] AtomicU32);
reads!(check_dec_at_u64 [] AtomicU64);
reads!(check_dec_at_usize [] AtomicUsize);
reads!(check_dec_at_i8 [] AtomicI8);
reads!(check_dec_at_i16 [] AtomicI16);
reads!(check_dec_at_i32 [] AtomicI32);
reads!(check_dec_at_i64 [] AtomicI64);
reads!(check_dec_at_isize [] AtomicIsize);
reads!(check_dec_tuple2 [A: Decode<Error = X>, B: Decode<Error = X>, X] (A, B,));
reads!(check_dec_tuple3 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, X] (A, B, C,));
reads!(check_dec_tuple4 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, X] (A, B, C, D,));
reads!(check_dec_tuple5 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, X] (A, B, C, D, F,));
reads!(check_dec_tuple6 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, X] (A, B, C, D, F, G,));
reads!(check_dec_tuple7 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, H: Decode<Error = X>, X] (A, B, C, D, F, G, H,));
reads!(check_dec_tuple8 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, H: Decode<Error = X>, I: Decode<Error = X>, X] (A, B, C, D, F, G, H, I,));
reads!(check_dec_tuple9 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, H: Decode<Error = X>, I: Decode<Error = X>, J: Decode<Error = X>, X] (A, B, C, D, F, G, H, I, J,));
reads!(check_dec_tuple10 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, H: Decode<Error = X>, I: Decode<Error = X>, J: Decode<Error = X>, K: Decode<Error = X>, X] (A, B, C, D, F, G, H, I, J, K,));
reads!(check_dec_tuple11 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, H: Decode<Error = X>, I: Decode<Error = X>, J: Decode<Error = X>, K: Decode<Error = X>, L: Decode<Error = X>, X] (A, B, C, D, F, G, H, I, J, K, L,));
reads!(check_dec_tuple12 [A: Decode<Error = X>, B: Decode<Error = X>, C: Decode<Error = X>, D: Decode<Error = X>, F: Decode<Error = X>, G: Decode<Error = X>, H: Decode<Error = X>, I: Decode<Error = X>, J: Decode<Error = X>, K: Decode<Error = X>, L: Decode<Error = X>, M: Decode<Error = X>, X] (A, B, C, D, F, G, H, I, J, K, L, M,));
reads!(check_dec_duration [] Duration);
reads!(check_dec_array [T: Decode, const N: usize] [T; N]);
reads!(check_dec_sized_slice [T: Decode, const N: usize] SizedSlice<T, N>);
reads!(check_dec_cow_slice [T: Decode + Clone + 'static] Cow<'static, [T]>, k => len_(k));
reads!(check_dec_pair [] Pair);
reads!(check_dec_kind [] Kind);
reads!(check_dec_nested_vec [T: Decode] Option<Vec<T>>, k => { let mut b = [0u8; 1]; k.read_into(&mut b).unwrap(); if b[0] == 0 { 0 } else { len_(k) } });

/// what holds its contents in place
macro_rules! place {
	($name:ident [$($g:tt)*] ($($a:ident: $t:ty),*) $e:expr) => {
		pub fn $name<$($g)*>($($a: $t),*) {
			vrt::allocate_at_most(0, "what holds its contents in place allocates nothing");
			vrt::may_panic();
			core::mem::forget($e);
		}
	};
}
place!(check_slice_new [T: Clone, const N: usize] (d: &[T]) SizedSlice::<T, N>::new(d));
place!(check_slice_try_from [T: Clone, const N: usize] (d: &[T]) SizedSlice::<T, N>::try_from(d));
place!(check_slice_copy [T: Copy, const N: usize] (s: &mut SizedSlice<T, N>, d: &[T]) s.copy_from_slice(d));
place!(check_slice_clone [T: Clone, const N: usize] (s: &SizedSlice<T, N>) s.clone());
place!(check_slice_default [T, const N: usize] () SizedSlice::<T, N>::default());
place!(check_slice_each_ref [T, const N: usize] (s: &SizedSlice<T, N>) s.each_ref());
place!(check_slice_each_mut [T, const N: usize] (s: &mut SizedSlice<T, N>) s.each_mut());
place!(check_slice_collect [T, const N: usize, I: Iterator<Item = T>] (i: I) i.collect::<SizedSlice<T, N>>());
place!(check_slice_into_iter [T, const N: usize] (s: SizedSlice<T, N>) s.into_iter());
place!(check_slice_from_array [T, const N: usize] (a: [T; N]) SizedSlice::<T, N>::from(a));
place!(check_slice_views [T, const N: usize] (s: &mut SizedSlice<T, N>) { (s.as_slice().len(), s.as_mut_slice().len(), s.iter().len(), s.iter_mut().len()) });
place!(check_slice_eq [T: PartialEq, const N: usize, const M: usize] (a: &SizedSlice<T, N>, b: &SizedSlice<T, M>) a == b);
place!(check_slice_cmp [T: PartialOrd, const N: usize, const M: usize] (a: &SizedSlice<T, N>, b: &SizedSlice<T, M>) a.partial_cmp(b));
place!(check_slice_eq_vec [T: PartialEq, const N: usize] (a: &SizedSlice<T, N>, b: &Vec<T>) a == b);
place!(check_slice_cmp_vec [T: PartialOrd, const N: usize] (a: &SizedSlice<T, N>, b: &Vec<T>) a.partial_cmp(b));
place!(check_slice_hash [T: Hash, const N: usize, H: Hasher] (a: &SizedSlice<T, N>, h: &mut H) a.hash(h));
place!(check_iter_next [T, const N: usize] (i: &mut SizedIter<T, N>) { core::mem::forget(i.next()); core::mem::forget(i.next_back()) });
place!(check_iter_clone [T: Clone, const N: usize] (i: &SizedIter<T, N>) i.clone());
place!(check_str_new [const N: usize] (d: &str) SizedStr::<N>::new(d));
place!(check_str_from_utf8 [const N: usize] (d: &[u8]) SizedStr::<N>::from_utf8(d));
place!(check_str_from_str [const N: usize] (d: &str) d.parse::<SizedStr<N>>());
place!(check_str_try_from [const N: usize] (d: &str) SizedStr::<N>::try_from(d));
place!(check_str_try_from_char [const N: usize] (c: char) SizedStr::<N>::try_from(c));
place!(check_str_try_from_string [const N: usize] (d: String) SizedStr::<N>::try_from(d));
place!(check_str_default [const N: usize] () SizedStr::<N>::default());
place!(check_str_clone [const N: usize] (s: &SizedStr<N>) s.clone());
place!(check_str_collect [const N: usize, I: Iterator<Item = char>] (i: I) i.collect::<SizedStr<N>>());
place!(check_str_into_bytes [const N: usize] (s: SizedStr<N>) s.into_bytes());
place!(check_str_views [const N: usize] (s: &mut SizedStr<N>) { (s.as_bytes().len(), s.as_str().len(), s.as_mut_str().len(), s.chars().as_str().len()) });
place!(check_str_eq [const N: usize, const M: usize] (a: &SizedStr<N>, b: &SizedStr<M>) a == b);
place!(check_str_cmp [const N: usize, const M: usize] (a: &SizedStr<N>, b: &SizedStr<M>) a.partial_cmp(b));
place!(check_str_eq_string [const N: usize] (a: &SizedStr<N>, b: &String) a == b);
place!(check_str_cmp_string [const N: usize] (a: &SizedStr<N>, b: &String) a.partial_cmp(b));
place!(check_str_hash [const N: usize, H: Hasher] (a: &SizedStr<N>, h: &mut H) a.hash(h));
place!(check_output_write [] (o: &mut Output<'static>, d: &[u8]) o.write(d));
place!(check_input_read [] (i: &mut Input<'static>, n: usize) i.read(n));
place!(check_input_read_into [] (i: &mut Input<'static>, d: &mut [u8]) i.read_into(d));
place!(check_slot_copy [T] (s: &mut Slot<T>, d: &[u8]) s.copy_from_slice(d));
place!(check_slot_views [T] (s: &mut Slot<T>) { (s.as_slice().len(), s.as_mut_slice().len()) });
/// a slot is written and read in the memory it has
pub fn check_slot_write<T: Encode>(s: &mut Slot<T>, v: &T) {
	vrt::allocate_at_most(0, "a slot is written in the memory it has");
	core::mem::forget(s.write(v));
}
pub fn check_slot_read<T: Decode>(s: &Slot<T>) {
	vrt::allocate_at_most(0, "a slot is read in the memory it has");
	core::mem::forget(s.read());
}

/// what moves to the heap takes as much memory as it has contents
macro_rules! heap {
	($name:ident [$($g:tt)*] $s:ident: $t:ty, $n:expr, $e:expr) => {
		pub fn $name<$($g)*>($s: $t) {
			vrt::allocate_at_most($n, "no more memory is taken than there are contents");
			core::mem::forget($e);
		}
	};
}
heap!(check_into_boxed_slice [T, const N: usize] s: SizedSlice<T, N>, s.len(), s.into_boxed_slice());
heap!(check_into_vec [T, const N: usize] s: SizedSlice<T, N>, s.len(), s.into_vec());
heap!(check_boxed_slice_from [T, const N: usize] s: SizedSlice<T, N>, s.len(), Box::<[T]>::from(s));
heap!(check_vec_from [T, const N: usize] s: SizedSlice<T, N>, s.len(), Vec::<T>::from(s));
heap!(check_into_boxed_str [const N: usize] s: SizedStr<N>, s.len(), s.into_boxed_str());
heap!(check_into_string [const N: usize] s: SizedStr<N>, s.len(), s.into_string());
heap!(check_boxed_str_from [const N: usize] s: SizedStr<N>, s.len(), Box::<str>::from(s));
heap!(check_string_from [const N: usize] s: SizedStr<N>, s.len(), String::from(s));
heap!(check_slot_new [T: SizedEncode] s: &T, T::MAX_ENCODED_SIZE, Slot::<T>::new());
heap!(check_slot_default [T: SizedEncode] s: &T, T::MAX_ENCODED_SIZE, Slot::<T>::default());
heap!(check_slot_with_capacity [T] s: (usize, PhantomData<T>), s.0, Slot::<T>::with_capacity(s.0));
