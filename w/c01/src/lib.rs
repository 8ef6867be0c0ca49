#![allow(unused)]
use oct::decode::{Decode, DecodeBorrowed, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::{SizedSlice, SizedStr};
use std::collections::*;
use std::net::*;
use std::ops::*;
use std::num::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;
use std::borrow::Cow;
use std::ffi::{CStr, CString};
use std::marker::*;

macro_rules! roundtrip {
	($name:ident [$($g:tt)*] $t:ty) => {
		pub fn $name<$($g)*>(v: &$t) {
			let mut o = vrt::recorder();
			if let Ok(()) = <$t as Encode>::encode(v, &mut o) {
				let mut i = vrt::replay(&o);
				match <$t as Decode>::decode(&mut i) {
					Ok(w) => {
						vrt::same(&w, v, "the decoded value is the encoded value");
						vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
						core::mem::forget(w);
					}
					Err(_) => vrt::unreachable("decoding what encoding wrote must succeed"),
				}
			}
		}
	};
}

roundtrip!(check_u8 [] u8);
roundtrip!(check_u16 [] u16);
roundtrip!(check_u32 [] u32);
roundtrip!(check_u64 [] u64);
roundtrip!(check_u128 [] u128);
roundtrip!(check_usize [] usize);
roundtrip!(check_i8 [] i8);
roundtrip!(check_i16 [] i16);
roundtrip!(check_i32 [] i32);
roundtrip!(check_i64 [] i64);
roundtrip!(check_i128 [] i128);
roundtrip!(check_isize [] isize);
roundtrip!(check_f32 [] f32);
roundtrip!(check_f64 [] f64);
roundtrip!(check_bool [] bool);
roundtrip!(check_char [] char);
roundtrip!(check_unit [] ());
roundtrip!(check_phantom_data [T] PhantomData<T>);
roundtrip!(check_phantom_pinned [] PhantomPinned);
roundtrip!(check_range_full [] RangeFull);
roundtrip!(check_range [T: Encode + Decode] Range<T>);
roundtrip!(check_range_from [T: Encode + Decode] RangeFrom<T>);
/// whether an inclusive range has been iterated to its end is not part of its encoding
pub fn check_range_inclusive<T: Encode + Decode>(v: &RangeInclusive<T>) {
	let mut o = vrt::recorder();
	if let Ok(()) = v.encode(&mut o) {
		let mut i = vrt::replay(&o);
		match <RangeInclusive<T> as Decode>::decode(&mut i) {
			Ok(w) => {
				vrt::same(w.start(), v.start(), "the decoded value is the encoded value");
				vrt::same(w.end(), v.end(), "the decoded value is the encoded value");
				vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
				core::mem::forget(w);
			}
			Err(_) => vrt::unreachable("decoding what encoding wrote must succeed"),
		}
	}
}
roundtrip!(check_range_to [T: Encode + Decode] RangeTo<T>);
roundtrip!(check_range_to_inclusive [T: Encode + Decode] RangeToInclusive<T>);
roundtrip!(check_bound [T: Encode + Decode] Bound<T>);
roundtrip!(check_option [T: Encode + Decode] Option<T>);
roundtrip!(check_result [T: Encode<Error = E1> + Decode<Error = E2>, E: Encode<Error = E1> + Decode<Error = E2>, E1, E2] Result<T, E>);
roundtrip!(check_wrapping [T: Encode + Decode] Wrapping<T>);
roundtrip!(check_saturating [T: Encode + Decode] Saturating<T>);
roundtrip!(check_cell [T: Copy + Encode + Decode] Cell<T>);
roundtrip!(check_ref_cell [T: Encode + Decode] RefCell<T>);
roundtrip!(check_mutex [T: Encode + Decode] Mutex<T>);
roundtrip!(check_rw_lock [T: Encode + Decode] RwLock<T>);
roundtrip!(check_box [T: Encode + Decode] Box<T>);
roundtrip!(check_rc [T: Encode + Decode] Rc<T>);
roundtrip!(check_arc [T: Encode + Decode] Arc<T>);
roundtrip!(check_duration [] Duration);
roundtrip!(check_ipv4 [] Ipv4Addr);
roundtrip!(check_ipv6 [] Ipv6Addr);
roundtrip!(check_ip [] IpAddr);
roundtrip!(check_socket_v4 [] SocketAddrV4);
roundtrip!(check_socket_v6 [] SocketAddrV6);
roundtrip!(check_socket [] SocketAddr);
roundtrip!(check_nz_u8 [] NonZero<u8>);
roundtrip!(check_nz_u16 [] NonZero<u16>);
roundtrip!(check_nz_u32 [] NonZero<u32>);
roundtrip!(check_nz_u64 [] NonZero<u64>);
roundtrip!(check_nz_u128 [] NonZero<u128>);
roundtrip!(check_nz_usize [] NonZero<usize>);
roundtrip!(check_nz_i8 [] NonZero<i8>);
roundtrip!(check_nz_i16 [] NonZero<i16>);
roundtrip!(check_nz_i32 [] NonZero<i32>);
roundtrip!(check_nz_i64 [] NonZero<i64>);
roundtrip!(check_nz_i128 [] NonZero<i128>);
roundtrip!(check_nz_isize [] NonZero<isize>);
roundtrip!(check_at_bool [] AtomicBool);
roundtrip!(check_at_u8 [] AtomicU8);
roundtrip!(check_at_u16 [] AtomicU16);
roundtrip!(check_at_u32 [] AtomicU32);
roundtrip!(check_at_u64 [] AtomicU64);
roundtrip!(check_at_usize [] AtomicUsize);
roundtrip!(check_at_i8 [] AtomicI8);
roundtrip!(check_at_i16 [] AtomicI16);
roundtrip!(check_at_i32 [] AtomicI32);
roundtrip!(check_at_i64 [] AtomicI64);
roundtrip!(check_at_isize [] AtomicIsize);
roundtrip!(check_array [T: Encode + Decode, const N: usize] [T; N]);
roundtrip!(check_vec [T: Encode + Decode] Vec<T>);
roundtrip!(check_linked_list [T: Encode + Decode] LinkedList<T>);
roundtrip!(check_string [] String);
roundtrip!(check_c_string [] CString);
roundtrip!(check_hash_map [K: Encode<Error = E1> + Decode<Error = E2> + Eq + std::hash::Hash, V: Encode<Error = E1> + Decode<Error = E2>, S: std::hash::BuildHasher + Default, E1, E2] HashMap<K, V, S>);
roundtrip!(check_hash_set [K: Encode + Decode + Eq + std::hash::Hash, S: std::hash::BuildHasher + Default] HashSet<K, S>);
roundtrip!(check_sized_slice [T: Encode + Decode, const N: usize] SizedSlice<T, N>);
roundtrip!(check_sized_str [const N: usize] SizedStr<N>);
roundtrip!(check_cow_str [] Cow<'static, str>);
roundtrip!(check_cow_slice [T: Encode + Decode + Clone + 'static] Cow<'static, [T]>);

macro_rules! tuples {
	($($name:ident [$($t:ident),*])*) => { $( roundtrip!($name [$($t: Encode<Error = E1> + Decode<Error = E2>,)* E1, E2] ($($t,)*)); )* };
}
roundtrip!(check_tuple1 [A: Encode + Decode] (A,));
tuples! {
	check_tuple2 [A, B]
	check_tuple3 [A, B, C]
	check_tuple4 [A, B, C, D]
	check_tuple5 [A, B, C, D, E]
	check_tuple6 [A, B, C, D, E, F]
	check_tuple7 [A, B, C, D, E, F, G]
	check_tuple8 [A, B, C, D, E, F, G, H]
	check_tuple9 [A, B, C, D, E, F, G, H, I]
	check_tuple10 [A, B, C, D, E, F, G, H, I, J]
	check_tuple11 [A, B, C, D, E, F, G, H, I, J, K]
	check_tuple12 [A, B, C, D, E, F, G, H, I, J, K, L]
}

macro_rules! roundtrip_via {
	($name:ident [$($g:tt)*] $from:ty => $to:ty) => {
		/// what a borrowing or pointing type writes is read back by its owned counterpart
		pub fn $name<$($g)*>(v: &$from) {
			let mut o = vrt::recorder();
			if let Ok(()) = <$from as Encode>::encode(v, &mut o) {
				let mut i = vrt::replay(&o);
				match <$to as Decode>::decode(&mut i) {
					Ok(w) => {
						vrt::same::<$to, $from>(&w, v, "the decoded value is the encoded value");
						vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
						core::mem::forget(w);
					}
					Err(_) => vrt::unreachable("decoding what encoding wrote must succeed"),
				}
			}
		}
	};
}
roundtrip_via!(check_ref [T: Encode + Decode] &'static T => T);
roundtrip_via!(check_mut [T: Encode + Decode] &'static mut T => T);
roundtrip_via!(check_slice [T: Encode + Decode] [T] => Vec<T>);
roundtrip_via!(check_str [] str => String);
roundtrip_via!(check_c_str [] CStr => CString);
roundtrip_via!(check_slice_ss [T: Encode + Decode, const N: usize] SizedSlice<T, N> => Vec<T>);
roundtrip_via!(check_sized_str_string [const N: usize] SizedStr<N> => String);
roundtrip_via!(check_lazy_cell [T: Encode + Decode] LazyCell<T> => T);
roundtrip_via!(check_lazy_lock [T: Encode + Decode] LazyLock<T> => T);
/// points in time are read back to whole seconds, counted from the epoch
pub fn check_system_time_after(s: u64, n: u32) {
	vrt::assume(s <= i64::MAX as u64 && n < 1_000_000_000);
	let t = UNIX_EPOCH + Duration::new(s, n);
	let mut o = vrt::recorder();
	if let Ok(()) = t.encode(&mut o) {
		let mut i = vrt::replay(&o);
		match SystemTime::decode(&mut i) {
			Ok(w) => {
				vrt::same(&w, &(UNIX_EPOCH + Duration::from_secs(s)), "the decoded time is the encoded time, in whole seconds");
				vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
			}
			Err(_) => vrt::unreachable("decoding what encoding wrote must succeed"),
		}
	}
}
pub fn check_system_time_before(s: u64) {
	vrt::assume(s <= i64::MAX as u64);
	let t = UNIX_EPOCH - Duration::from_secs(s);
	let mut o = vrt::recorder();
	if let Ok(()) = t.encode(&mut o) {
		let mut i = vrt::replay(&o);
		match SystemTime::decode(&mut i) {
			Ok(w) => {
				vrt::same(&w, &t, "the decoded time is the encoded time, in whole seconds");
				vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
			}
			Err(_) => vrt::unreachable("decoding what encoding wrote must succeed"),
		}
	}
}
