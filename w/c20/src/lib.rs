#![allow(unused)]
//! Encoding observes: it takes shared access only, gives back what it borrowed and locked, changes nothing, and does the same again.
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::collections::*;
use std::net::*;
use std::ops::*;
use std::num::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;
use std::borrow::Cow;
use std::ffi::{CStr, CString};
use std::marker::*;

macro_rules! quiet {
	($name:ident [$($g:tt)*] $t:ty) => {
		pub fn $name<$($g)*>(v: &$t) {
			let mut a = vrt::recorder();
			let mut b = vrt::recorder();
			vrt::shared_only();
			let x = <$t as Encode>::encode(v, &mut a);
			vrt::nothing_held("encoding gives back what it borrowed and locked");
			let y = <$t as Encode>::encode(v, &mut b);
			vrt::nothing_held("encoding gives back what it borrowed and locked");
			match (&x, &y) {
				(Ok(_), Ok(_)) => vrt::same_written(&a, &b, "encoding again yields the same"),
				(Err(x), Err(y)) => vrt::same(x, y, "encoding again fails in the same way"),
				(Ok(_), Err(_)) => vrt::unreachable("encoding again succeeds"),
				(Err(_), Ok(_)) => vrt::unreachable("encoding again fails"),
			}
			core::mem::forget(x); core::mem::forget(y);
		}
	};
}
quiet!(check_usize [] usize);
quiet!(check_isize [] isize);
quiet!(check_bool [] bool);
quiet!(check_char [] char);
quiet!(check_unit [] ());
quiet!(check_phantom_data [T] PhantomData<T>);
quiet!(check_phantom_pinned [] PhantomPinned);
quiet!(check_range_full [] RangeFull);
quiet!(check_range [T: Encode] Range<T>);
quiet!(check_range_from [T: Encode] RangeFrom<T>);
quiet!(check_range_inclusive [T: Encode] RangeInclusive<T>);
quiet!(check_range_to [T: Encode] RangeTo<T>);
quiet!(check_range_to_inclusive [T: Encode] RangeToInclusive<T>);
quiet!(check_bound [T: Encode] Bound<T>);
quiet!(check_option [T: Encode] Option<T>);
quiet!(check_result [T: Encode<Error = E1>, E: Encode<Error = E1>, E1] Result<T, E>);
quiet!(check_wrapping [T: Encode] Wrapping<T>);
quiet!(check_saturating [T: Encode] Saturating<T>);
quiet!(check_cell [T: Copy + Encode] Cell<T>);
quiet!(check_box [T: Encode] Box<T>);
quiet!(check_rc [T: Encode] Rc<T>);
quiet!(check_arc [T: Encode] Arc<T>);
quiet!(check_ref [T: Encode] &'static T);
quiet!(check_mut [T: Encode] &'static mut T);
quiet!(check_lazy_cell [T: Encode] LazyCell<T>);
quiet!(check_lazy_lock [T: Encode] LazyLock<T>);
quiet!(check_box_slice [T: Encode] Box<[T]>);
quiet!(check_box_str [] Box<str>);
quiet!(check_ref_slice [T: Encode + 'static] &'static [T]);
quiet!(check_ref_str [] &'static str);
quiet!(check_duration [] Duration);
quiet!(check_ipv4 [] Ipv4Addr);
quiet!(check_ipv6 [] Ipv6Addr);
quiet!(check_ip [] IpAddr);
quiet!(check_socket_v4 [] SocketAddrV4);
quiet!(check_socket_v6 [] SocketAddrV6);
quiet!(check_socket [] SocketAddr);
quiet!(check_nz_usize [] NonZero<usize>);
quiet!(check_nz_isize [] NonZero<isize>);
quiet!(check_at_usize [] AtomicUsize);
quiet!(check_at_isize [] AtomicIsize);
quiet!(check_at_bool [] AtomicBool);
quiet!(check_array [T: Encode, const N: usize] [T; N]);
quiet!(check_slice [T: Encode] [T]);
quiet!(check_vec [T: Encode] Vec<T>);
quiet!(check_cow_slice [T: Encode + Clone + 'static] Cow<'static, [T]>);
quiet!(check_linked_list [T: Encode] LinkedList<T>);
quiet!(check_str [] str);
quiet!(check_string [] String);
quiet!(check_cow_str [] Cow<'static, str>);
quiet!(check_c_str [] CStr);
quiet!(check_c_string [] CString);
quiet!(check_sized_slice [T: Encode, const N: usize] SizedSlice<T, N>);
quiet!(check_sized_str [const N: usize] SizedStr<N>);
quiet!(check_hash_map [K: Encode<Error = E1> + Eq + std::hash::Hash, V: Encode<Error = E1>, S: std::hash::BuildHasher, E1] HashMap<K, V, S>);
quiet!(check_hash_set [K: Encode + Eq + std::hash::Hash, S: std::hash::BuildHasher] HashSet<K, S>);
quiet!(check_tuple1 [A: Encode] (A,));
quiet!(check_u8 [] u8);
quiet!(check_u16 [] u16);
quiet!(check_u32 [] u32);
quiet!(check_u64 [] u64);
quiet!(check_u128 [] u128);
quiet!(check_i8 [] i8);
quiet!(check_i16 [] i16);
quiet!(check_i32 [] i32);
quiet!(check_i64 [] i64);
quiet!(check_i128 [] i128);
quiet!(check_f32 [] f32);
quiet!(check_f64 [] f64);
quiet!(check_nz_u8 [] NonZero<u8>);
quiet!(check_nz_u16 [] NonZero<u16>);
quiet!(check_nz_u32 [] NonZero<u32>);
quiet!(check_nz_u64 [] NonZero<u64>);
quiet!(check_nz_u128 [] NonZero<u128>);
quiet!(check_nz_i8 [] NonZero<i8>);
quiet!(check_nz_i16 [] NonZero<i16>);
quiet!(check_nz_i32 [] NonZero<i32>);
quiet!(check_nz_i64 [] NonZero<i64>);
quiet!(check_nz_i128 [] NonZero<i128>);
quiet!(check_at_u8 [] AtomicU8);
quiet!(check_at_u16 [] AtomicU16);
quiet!(check_at_u32 [] AtomicU32);
quiet!(check_at_u64 [] AtomicU64);
quiet!(check_at_i8 [] AtomicI8);
quiet!(check_at_i16 [] AtomicI16);
quiet!(check_at_i32 [] AtomicI32);
quiet!(check_at_i64 [] AtomicI64);
quiet!(check_tuple2 [A: Encode<Error = E1>, B: Encode<Error = E1>, E1] (A, B,));
quiet!(check_tuple3 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, E1] (A, B, C,));
quiet!(check_tuple4 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E1] (A, B, C, D,));
quiet!(check_tuple5 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, E1] (A, B, C, D, E,));
quiet!(check_tuple6 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, E1] (A, B, C, D, E, F,));
quiet!(check_tuple7 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, E1] (A, B, C, D, E, F, G,));
quiet!(check_tuple8 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H,));
quiet!(check_tuple9 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I,));
quiet!(check_tuple10 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, J: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J,));
quiet!(check_tuple11 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, J: Encode<Error = E1>, K: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J, K,));
quiet!(check_tuple12 [A: Encode<Error = E1>, B: Encode<Error = E1>, C: Encode<Error = E1>, D: Encode<Error = E1>, E: Encode<Error = E1>, F: Encode<Error = E1>, G: Encode<Error = E1>, H: Encode<Error = E1>, I: Encode<Error = E1>, J: Encode<Error = E1>, K: Encode<Error = E1>, L: Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J, K, L,));
quiet!(check_ref_cell [T: Encode] RefCell<T>);
quiet!(check_mutex [T: Encode] Mutex<T>);
quiet!(check_rw_lock [T: Encode] RwLock<T>);
quiet!(check_ref_cell_nested [T: Encode] RefCell<RefCell<T>>);
quiet!(check_mutex_slice [T: Encode] Mutex<Box<[T]>>);
quiet!(check_lock_of_result [T: Encode<Error = E1>, E: Encode<Error = E1>, E1] RwLock<Result<T, E>>);
quiet!(check_locks [T: Encode] [Mutex<T>; 2]);
quiet!(check_slice_of_cells [T: Encode] [RefCell<T>]);
quiet!(check_vec_of_locks [T: Encode] Vec<RwLock<T>>);
quiet!(check_system_time [] SystemTime);
#[derive(Encode)] pub struct Derived<T: Encode<Error: Into<oct::error::GenericEncodeError>>> { pub a: RefCell<T>, pub b: Mutex<u8>, pub c: Cell<u16>, pub d: AtomicU32 }
quiet!(check_derived_struct [T: Encode<Error: Into<oct::error::GenericEncodeError>>] Derived<T>);
#[derive(Encode)] pub enum Choice<T: Encode<Error: Into<oct::error::GenericEncodeError>>> { A, B(RwLock<T>), C { x: AtomicBool, y: Rc<T> } }
quiet!(check_derived_enum [T: Encode<Error: Into<oct::error::GenericEncodeError>>] Choice<T>);

/// readers elsewhere do not hinder encoding
pub fn check_read_cell<T: Encode>(v: &RefCell<T>) {
	if let Ok(g) = v.try_borrow() {
		let mut a = vrt::recorder();
		let mut b = vrt::recorder();
		let x = T::encode(&g, &mut a);
		vrt::shared_only();
		let y = v.encode(&mut b);
		match (&x, &y) {
			(Ok(_), Ok(_)) => vrt::same_written(&a, &b, "a borrowed cell encodes its value"),
			(Err(_), Err(_)) => (),
			_ => vrt::unreachable("a shared borrow elsewhere does not hinder encoding"),
		}
		core::mem::forget(x); core::mem::forget(y);
	}
}

pub fn check_mutex_poison<T: Encode>(v: &Mutex<T>) { let p = v.is_poisoned(); let mut o = vrt::recorder(); let _ = v.encode(&mut o); vrt::require(v.is_poisoned() == p, "encoding leaves the poison of a lock as it is"); }
pub fn check_rw_lock_poison<T: Encode>(v: &RwLock<T>) { let p = v.is_poisoned(); let mut o = vrt::recorder(); let _ = v.encode(&mut o); vrt::require(v.is_poisoned() == p, "encoding leaves the poison of a lock as it is"); }
