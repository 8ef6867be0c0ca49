#![allow(unused)]
//! Which values encoding refuses, and with which error, against reference encoders written from the documentation.
use oct::encode::{Encode, Output};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use core::convert::Infallible;
use std::collections::*;
use std::net::*;
use std::ops::*;
use std::num::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;
use std::borrow::Cow;
use std::ffi::{CStr, CString};
use std::marker::*;
use std::hash::{BuildHasher, Hash};

type X<T> = <T as Encode>::Error;
fn w(o: &mut Output<'_>, b: &[u8]) { let _ = o.write(b); }
fn len_<I>(o: &mut Output<'_>, n: usize) -> Result<(), CollectionEncodeError<UsizeEncodeError, I>> {
	if n > 0xFFFF { return Err(CollectionEncodeError::BadLength(UsizeEncodeError(n))); }
	w(o, &(n as u16).to_le_bytes()); Ok(())
}
fn item<L, I>(index: usize, error: I) -> CollectionEncodeError<L, ItemEncodeError<usize, I>> { CollectionEncodeError::BadItem(ItemEncodeError { index, error }) }
fn bytes<I>(o: &mut Output<'_>, s: &[u8]) -> Result<(), CollectionEncodeError<UsizeEncodeError, I>> { len_(o, s.len())?; w(o, s); Ok(()) }
fn items<T: Encode, L>(o: &mut Output<'_>, s: &[T]) -> Result<(), CollectionEncodeError<L, ItemEncodeError<usize, T::Error>>> {
	let mut i = 0;
	while i < s.len() { match s[i].encode(o) { Ok(()) => (), Err(e) => return Err(item(i, e)) } i += 1; }
	Ok(())
}

macro_rules! enc {
	($name:ident [$($g:tt)*] $t:ty, |$v:ident, $o:ident| $e:expr) => {
		pub fn $name<$($g)*>(v: &$t) {
			fn reference<$($g)*>($v: &$t, $o: &mut Output<'_>) -> Result<(), X<$t>> { $e }
			let mut a = vrt::recorder();
			let mut b = vrt::recorder();
			let got = <$t as Encode>::encode(v, &mut a);
			let want = reference(v, &mut b);
			match (&got, &want) {
				(Ok(_), Ok(_)) => vrt::same_written(&a, &b, "an accepted value is encoded completely"),
				(Err(x), Err(y)) => vrt::same(x, y, "the error tells what is wrong, and where"),
				(Ok(_), Err(_)) => vrt::unreachable("a value that cannot be encoded is refused"),
				(Err(_), Ok(_)) => vrt::unreachable("a value that can be encoded is not refused"),
			}
			core::mem::forget(got); core::mem::forget(want);
		}
	};
}
enc!(check_usize [] usize, |v, o| { if *v > 65535 { return Err(UsizeEncodeError(*v)); } w(o, &(*v as u16).to_le_bytes()); Ok(()) });
enc!(check_isize [] isize, |v, o| { if *v > 32767 || *v < -32768 { return Err(IsizeEncodeError(*v)); } w(o, &(*v as i16).to_le_bytes()); Ok(()) });
enc!(check_nz_usize [] NonZero<usize>, |v, o| { let v = v.get(); if v > 65535 { return Err(UsizeEncodeError(v)); } w(o, &(v as u16).to_le_bytes()); Ok(()) });
enc!(check_nz_isize [] NonZero<isize>, |v, o| { let v = v.get(); if v > 32767 || v < -32768 { return Err(IsizeEncodeError(v)); } w(o, &(v as i16).to_le_bytes()); Ok(()) });
enc!(check_at_usize [] AtomicUsize, |v, o| { let v = v.load(Ordering::Relaxed); if v > 65535 { return Err(UsizeEncodeError(v)); } w(o, &(v as u16).to_le_bytes()); Ok(()) });
enc!(check_at_isize [] AtomicIsize, |v, o| { let v = v.load(Ordering::Relaxed); if v > 32767 || v < -32768 { return Err(IsizeEncodeError(v)); } w(o, &(v as i16).to_le_bytes()); Ok(()) });
macro_rules! never { ($($n:ident $t:ty)*) => { $( pub fn $n(v: &$t) { let mut a = vrt::recorder(); if let Err(_) = <$t as Encode>::encode(v, &mut a) { vrt::unreachable("a value that can be encoded is not refused") } } )* }; }
never! { check_u8 u8 check_u16 u16 check_u32 u32 check_u64 u64 check_u128 u128 check_i8 i8 check_i16 i16 check_i32 i32 check_i64 i64 check_i128 i128 check_f32 f32 check_f64 f64 check_bool bool check_char char
	check_unit () check_phantom PhantomData<u8> check_pinned PhantomPinned check_range_full RangeFull check_duration Duration check_ipv4 Ipv4Addr check_ipv6 Ipv6Addr check_ip IpAddr
	check_socket SocketAddr check_socket_v4 SocketAddrV4 check_socket_v6 SocketAddrV6 check_system_time SystemTime
	check_nz_u8 NonZero<u8> check_nz_u16 NonZero<u16> check_nz_u32 NonZero<u32> check_nz_u64 NonZero<u64> check_nz_u128 NonZero<u128> check_nz_i8 NonZero<i8> check_nz_i16 NonZero<i16> check_nz_i32 NonZero<i32> check_nz_i64 NonZero<i64> check_nz_i128 NonZero<i128>
	check_at_bool AtomicBool check_at_u8 AtomicU8 check_at_u16 AtomicU16 check_at_u32 AtomicU32 check_at_u64 AtomicU64 check_at_i8 AtomicI8 check_at_i16 AtomicI16 check_at_i32 AtomicI32 check_at_i64 AtomicI64
}
enc!(check_range [T: Encode] Range<T>, |v, o| { v.start.encode(o)?; v.end.encode(o) });
enc!(check_range_from [T: Encode] RangeFrom<T>, |v, o| v.start.encode(o));
enc!(check_range_inclusive [T: Encode] RangeInclusive<T>, |v, o| { v.start().encode(o)?; v.end().encode(o) });
enc!(check_range_to [T: Encode] RangeTo<T>, |v, o| v.end.encode(o));
enc!(check_range_to_inclusive [T: Encode] RangeToInclusive<T>, |v, o| v.end.encode(o));
enc!(check_bound [T: Encode] Bound<T>, |v, o| match v {
	Bound::Included(x) => { w(o, &[0]); match x.encode(o) { Ok(()) => Ok(()), Err(e) => Err(EnumEncodeError::BadField(e)) } }
	Bound::Excluded(x) => { w(o, &[1]); match x.encode(o) { Ok(()) => Ok(()), Err(e) => Err(EnumEncodeError::BadField(e)) } }
	Bound::Unbounded => { w(o, &[2]); Ok(()) }
});
enc!(check_option [T: Encode] Option<T>, |v, o| match v { None => { w(o, &[0]); Ok(()) } Some(x) => { w(o, &[1]); x.encode(o) } });
enc!(check_result [T: Encode<Error = Z>, E: Encode<Error = Z>, Z] Result<T, E>, |v, o| match v { Ok(x) => { w(o, &[0]); x.encode(o) } Err(x) => { w(o, &[1]); x.encode(o) } });
enc!(check_wrapping [T: Encode] Wrapping<T>, |v, o| v.0.encode(o));
enc!(check_saturating [T: Encode] Saturating<T>, |v, o| v.0.encode(o));
enc!(check_cell [T: Copy + Encode] Cell<T>, |v, o| v.get().encode(o));
enc!(check_box [T: Encode] Box<T>, |v, o| (**v).encode(o));
enc!(check_rc [T: Encode] Rc<T>, |v, o| (**v).encode(o));
enc!(check_arc [T: Encode] Arc<T>, |v, o| (**v).encode(o));
enc!(check_ref [T: Encode] &'static T, |v, o| (**v).encode(o));
enc!(check_mut [T: Encode] &'static mut T, |v, o| (**v).encode(o));
enc!(check_array [T: Encode, const N: usize] [T; N], |v, o| items::<T, Infallible>(o, v));
enc!(check_slice [T: Encode] [T], |v, o| { len_(o, v.len())?; items::<T, UsizeEncodeError>(o, v) });
enc!(check_vec [T: Encode] Vec<T>, |v, o| { len_(o, v.len())?; items::<T, UsizeEncodeError>(o, v) });
enc!(check_sized_slice [T: Encode, const N: usize] SizedSlice<T, N>, |v, o| { len_(o, v.len())?; items::<T, UsizeEncodeError>(o, v.as_slice()) });
enc!(check_linked_list [T: Encode<Error = Z>, Z] LinkedList<T>, |v, o| {
	len_(o, v.len())?;
	let mut i = 0;
	for x in v.iter() { match x.encode(o) { Ok(()) => (), Err(e) => return Err(item(i, e)) } i += 1; }
	Ok(())
});
enc!(check_hash_set [K: Encode + Eq + Hash, S: BuildHasher] HashSet<K, S>, |v, o| {
	len_(o, v.len())?;
	let mut i = 0;
	for x in v.iter() { match x.encode(o) { Ok(()) => (), Err(e) => return Err(item(i, e)) } i += 1; }
	Ok(())
});
enc!(check_hash_map [K: Encode<Error = Z> + Eq + Hash, V: Encode<Error = Z>, S: BuildHasher, Z] HashMap<K, V, S>, |v, o| {
	len_(o, v.len())?;
	let mut i = 0;
	for (x, y) in v.iter() {
		match x.encode(o) { Ok(()) => (), Err(e) => return Err(item(i, e)) }
		match y.encode(o) { Ok(()) => (), Err(e) => return Err(item(i, e)) }
		i += 1;
	}
	Ok(())
});
enc!(check_str [] str, |v, o| bytes(o, v.as_bytes()));
enc!(check_string [] String, |v, o| bytes(o, v.as_bytes()));
enc!(check_sized_str [const N: usize] SizedStr<N>, |v, o| bytes(o, v.as_bytes()));
enc!(check_c_str [] CStr, |v, o| bytes(o, v.to_bytes()));
enc!(check_c_string [] CString, |v, o| bytes(o, v.as_c_str().to_bytes()));
enc!(check_cow_str [] Cow<'static, str>, |v, o| { let s: &str = v; bytes(o, s.as_bytes()) });
enc!(check_cow_slice [T: Encode + Clone] Cow<'static, [T]>, |v, o| { let s: &[T] = v; len_(o, s.len())?; items::<T, UsizeEncodeError>(o, s) });
enc!(check_ref_cell [T: Encode] RefCell<T>, |v, o| match v.try_borrow() {
	Err(e) => Err(RefCellEncodeError::BadBorrow(e)),
	Ok(r) => { let x: &T = &r; match x.encode(o) { Ok(()) => Ok(()), Err(e) => Err(RefCellEncodeError::BadValue(e)) } }
});
enc!(check_mutex [T: Encode] Mutex<T>, |v, o| { let g = match v.lock() { Ok(g) => g, Err(e) => e.into_inner() }; let x: &T = &g; x.encode(o) });
enc!(check_rw_lock [T: Encode] RwLock<T>, |v, o| { let g = match v.read() { Ok(g) => g, Err(e) => e.into_inner() }; let x: &T = &g; x.encode(o) });
enc!(check_lazy_cell [T: Encode] LazyCell<T>, |v, o| { let x: &T = v; x.encode(o) });
enc!(check_lazy_lock [T: Encode] LazyLock<T>, |v, o| { let x: &T = v; x.encode(o) });
enc!(check_tuple1 [A: Encode] (A,), |v, o| v.0.encode(o));
macro_rules! tuples { ($($n:ident [$($t:ident $i:tt)*])*) => { $( enc!($n [$($t: Encode<Error = Z>,)* Z] ($($t,)*), |v, o| { $( v.$i.encode(o)?; )* Ok(()) }); )* }; }
tuples! {
	check_tuple2 [A 0 B 1]
	check_tuple3 [A 0 B 1 C 2]
	check_tuple4 [A 0 B 1 C 2 D 3]
	check_tuple5 [A 0 B 1 C 2 D 3 F 4]
	check_tuple6 [A 0 B 1 C 2 D 3 F 4 G 5]
	check_tuple7 [A 0 B 1 C 2 D 3 F 4 G 5 H 6]
	check_tuple8 [A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7]
	check_tuple9 [A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7 J 8]
	check_tuple10 [A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7 J 8 K 9]
	check_tuple11 [A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7 J 8 K 9 L 10]
	check_tuple12 [A 0 B 1 C 2 D 3 F 4 G 5 H 6 I 7 J 8 K 9 L 10 M 11]
}
