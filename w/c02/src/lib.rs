//! The documented byte layout of every built-in type, written out as a reference encoder.
#![allow(unused)]
use oct::encode::{Encode, Output};
use oct::{SizedSlice, SizedStr};
use std::collections::*;
use std::net::*;
use std::ops::*;
use std::num::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;
use std::borrow::Cow;
use std::ffi::{CStr, CString};
use std::marker::*;

fn w(o: &mut Output<'_>, b: &[u8]) { let _ = o.write(b); }
fn len(o: &mut Output<'_>, n: usize) { w(o, &(n as u16).to_le_bytes()); }
fn items<T: Encode>(o: &mut Output<'_>, s: &[T]) { let mut i = 0; while i < s.len() { let _ = s[i].encode(o); i += 1; } }

macro_rules! layout {
	($name:ident [$($g:tt)*] $t:ty, |$v:ident, $o:ident| $e:expr) => {
		pub fn $name<$($g)*>($v: &$t) {
			let mut a = vrt::recorder();
			if let Ok(()) = <$t as Encode>::encode($v, &mut a) {
				let mut b = vrt::recorder();
				{ let $o = &mut b; $e; }
				vrt::same_written(&a, &b, "the encoding has the documented layout");
			}
		}
	};
}
macro_rules! number { ($($name:ident $t:ty),*) => { $( layout!($name [] $t, |v, o| w(o, &v.to_le_bytes())); )* } }
number!(check_u8 u8, check_u16 u16, check_u32 u32, check_u64 u64, check_u128 u128, check_i8 i8, check_i16 i16, check_i32 i32, check_i64 i64, check_i128 i128, check_f32 f32, check_f64 f64);
layout!(check_usize [] usize, |v, o| w(o, &(*v as u16).to_le_bytes()));
layout!(check_isize [] isize, |v, o| w(o, &(*v as i16).to_le_bytes()));
layout!(check_bool [] bool, |v, o| w(o, &[if *v { 1 } else { 0 }]));
layout!(check_char [] char, |v, o| w(o, &(*v as u32).to_le_bytes()));
layout!(check_unit [] (), |v, o| ());
layout!(check_phantom_data [T] PhantomData<T>, |v, o| ());
layout!(check_phantom_pinned [] PhantomPinned, |v, o| ());
layout!(check_range_full [] RangeFull, |v, o| ());
layout!(check_range [T: Encode] Range<T>, |v, o| { let _ = v.start.encode(o); let _ = v.end.encode(o); });
layout!(check_range_from [T: Encode] RangeFrom<T>, |v, o| { let _ = v.start.encode(o); });
layout!(check_range_inclusive [T: Encode] RangeInclusive<T>, |v, o| { let _ = v.start().encode(o); let _ = v.end().encode(o); });
layout!(check_range_to [T: Encode] RangeTo<T>, |v, o| { let _ = v.end.encode(o); });
layout!(check_range_to_inclusive [T: Encode] RangeToInclusive<T>, |v, o| { let _ = v.end.encode(o); });
layout!(check_bound [T: Encode] Bound<T>, |v, o| match v {
	Bound::Included(x) => { w(o, &[0]); let _ = x.encode(o); }
	Bound::Excluded(x) => { w(o, &[1]); let _ = x.encode(o); }
	Bound::Unbounded => w(o, &[2]),
});
layout!(check_option [T: Encode] Option<T>, |v, o| match v {
	None => w(o, &[0]),
	Some(x) => { w(o, &[1]); let _ = x.encode(o); }
});
layout!(check_result [T: Encode<Error = E1>, E: Encode<Error = E1>, E1] Result<T, E>, |v, o| match v {
	Ok(x) => { w(o, &[0]); let _ = x.encode(o); }
	Err(x) => { w(o, &[1]); let _ = x.encode(o); }
});
layout!(check_wrapping [T: Encode] Wrapping<T>, |v, o| { let _ = v.0.encode(o); });
layout!(check_saturating [T: Encode] Saturating<T>, |v, o| { let _ = v.0.encode(o); });
layout!(check_cell [T: Copy + Encode] Cell<T>, |v, o| { let _ = v.get().encode(o); });
layout!(check_box [T: Encode] Box<T>, |v, o| { let _ = (**v).encode(o); });
layout!(check_rc [T: Encode] Rc<T>, |v, o| { let _ = (**v).encode(o); });
layout!(check_arc [T: Encode] Arc<T>, |v, o| { let _ = (**v).encode(o); });
layout!(check_ref [T: Encode] &'static T, |v, o| { let _ = (**v).encode(o); });
layout!(check_mut [T: Encode] &'static mut T, |v, o| { let _ = (**v).encode(o); });
layout!(check_lazy_cell [T: Encode] LazyCell<T>, |v, o| { let _ = (**v).encode(o); });
layout!(check_lazy_lock [T: Encode] LazyLock<T>, |v, o| { let _ = (**v).encode(o); });
layout!(check_box_slice [T: Encode] Box<[T]>, |v, o| { len(o, v.len()); items(o, v) });
layout!(check_box_str [] Box<str>, |v, o| { len(o, v.len()); w(o, v.as_bytes()) });
layout!(check_ref_slice [T: Encode + 'static] &'static [T], |v, o| { len(o, v.len()); items(o, v) });
layout!(check_ref_str [] &'static str, |v, o| { len(o, v.len()); w(o, v.as_bytes()) });
layout!(check_duration [] Duration, |v, o| { w(o, &v.as_secs().to_le_bytes()); w(o, &v.subsec_nanos().to_le_bytes()) });
layout!(check_ipv4 [] Ipv4Addr, |v, o| w(o, &v.to_bits().to_le_bytes()));
layout!(check_ipv6 [] Ipv6Addr, |v, o| w(o, &v.to_bits().to_le_bytes()));
layout!(check_ip [] IpAddr, |v, o| match v {
	IpAddr::V4(x) => { w(o, &[4]); w(o, &x.to_bits().to_le_bytes()) }
	IpAddr::V6(x) => { w(o, &[6]); w(o, &x.to_bits().to_le_bytes()) }
});
fn v4(o: &mut Output<'_>, x: &SocketAddrV4) { w(o, &x.ip().to_bits().to_le_bytes()); w(o, &x.port().to_le_bytes()) }
fn v6(o: &mut Output<'_>, x: &SocketAddrV6) { w(o, &x.ip().to_bits().to_le_bytes()); w(o, &x.port().to_le_bytes()); w(o, &x.flowinfo().to_le_bytes()); w(o, &x.scope_id().to_le_bytes()) }
layout!(check_socket_v4 [] SocketAddrV4, |v, o| v4(o, v));
layout!(check_socket_v6 [] SocketAddrV6, |v, o| v6(o, v));
layout!(check_socket [] SocketAddr, |v, o| match v {
	SocketAddr::V4(x) => { w(o, &[4]); v4(o, x) }
	SocketAddr::V6(x) => { w(o, &[6]); v6(o, x) }
});
macro_rules! nz { ($($name:ident $t:ty),*) => { $( layout!($name [] NonZero<$t>, |v, o| w(o, &v.get().to_le_bytes())); )* } }
nz!(check_nz_u8 u8, check_nz_u16 u16, check_nz_u32 u32, check_nz_u64 u64, check_nz_u128 u128, check_nz_i8 i8, check_nz_i16 i16, check_nz_i32 i32, check_nz_i64 i64, check_nz_i128 i128);
layout!(check_nz_usize [] NonZero<usize>, |v, o| w(o, &(v.get() as u16).to_le_bytes()));
layout!(check_nz_isize [] NonZero<isize>, |v, o| w(o, &(v.get() as i16).to_le_bytes()));
macro_rules! at { ($($name:ident $t:ty),*) => { $( layout!($name [] $t, |v, o| w(o, &v.load(Ordering::Relaxed).to_le_bytes())); )* } }
at!(check_at_u8 AtomicU8, check_at_u16 AtomicU16, check_at_u32 AtomicU32, check_at_u64 AtomicU64, check_at_i8 AtomicI8, check_at_i16 AtomicI16, check_at_i32 AtomicI32, check_at_i64 AtomicI64);
layout!(check_at_usize [] AtomicUsize, |v, o| w(o, &(v.load(Ordering::Relaxed) as u16).to_le_bytes()));
layout!(check_at_isize [] AtomicIsize, |v, o| w(o, &(v.load(Ordering::Relaxed) as i16).to_le_bytes()));
layout!(check_at_bool [] AtomicBool, |v, o| w(o, &[if v.load(Ordering::Relaxed) { 1 } else { 0 }]));
layout!(check_array [T: Encode, const N: usize] [T; N], |v, o| items(o, v));
layout!(check_slice [T: Encode] [T], |v, o| { len(o, v.len()); items(o, v) });
layout!(check_vec [T: Encode] Vec<T>, |v, o| { len(o, v.len()); items(o, v) });
layout!(check_cow_slice [T: Encode + Clone + 'static] Cow<'static, [T]>, |v, o| { let s: &[T] = v; len(o, s.len()); items(o, s) });
layout!(check_linked_list [T: Encode] LinkedList<T>, |v, o| { len(o, v.len()); for x in v.iter() { let _ = x.encode(o); } });
layout!(check_str [] str, |v, o| { len(o, v.len()); w(o, v.as_bytes()) });
layout!(check_string [] String, |v, o| { len(o, v.len()); w(o, v.as_bytes()) });
layout!(check_cow_str [] Cow<'static, str>, |v, o| { let s: &str = v; len(o, s.len()); w(o, s.as_bytes()) });
layout!(check_c_str [] CStr, |v, o| { len(o, v.count_bytes()); w(o, v.to_bytes()) });
layout!(check_c_string [] CString, |v, o| { len(o, v.as_bytes().len()); w(o, v.as_bytes()) });
layout!(check_sized_slice [T: Encode, const N: usize] SizedSlice<T, N>, |v, o| { len(o, v.len()); items(o, v.as_slice()) });
layout!(check_sized_str [const N: usize] SizedStr<N>, |v, o| { len(o, v.len()); w(o, v.as_bytes()) });
layout!(check_hash_map [K: Encode<Error = E1> + Eq + std::hash::Hash, V: Encode<Error = E1>, S: std::hash::BuildHasher, E1] HashMap<K, V, S>, |v, o| { len(o, v.len()); for (k, x) in v.iter() { let _ = k.encode(o); let _ = x.encode(o); } });
layout!(check_hash_set [K: Encode + Eq + std::hash::Hash, S: std::hash::BuildHasher] HashSet<K, S>, |v, o| { len(o, v.len()); for k in v.iter() { let _ = k.encode(o); } });
layout!(check_tuple1 [A: Encode] (A,), |v, o| { let _ = v.0.encode(o); });
macro_rules! tuples {
	($($name:ident [$($t:ident $i:tt),*])*) => { $( layout!($name [$($t: Encode<Error = E1>,)* E1] ($($t,)*), |v, o| { $( let _ = v.$i.encode(o); )* }); )* };
}
tuples! {
	check_tuple2 [A 0, B 1]
	check_tuple3 [A 0, B 1, C 2]
	check_tuple4 [A 0, B 1, C 2, D 3]
	check_tuple5 [A 0, B 1, C 2, D 3, E 4]
	check_tuple6 [A 0, B 1, C 2, D 3, E 4, F 5]
	check_tuple7 [A 0, B 1, C 2, D 3, E 4, F 5, G 6]
	check_tuple8 [A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7]
	check_tuple9 [A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8]
	check_tuple10 [A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9]
	check_tuple11 [A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10]
	check_tuple12 [A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11]
}
/// whole seconds on either side of the epoch are signed UNIX timestamps
pub fn check_system_time_after(s: u64) {
	vrt::assume(s <= i64::MAX as u64);
	let t = UNIX_EPOCH + Duration::from_secs(s);
	let mut a = vrt::recorder();
	if let Ok(()) = t.encode(&mut a) {
		let mut b = vrt::recorder();
		w(&mut b, &(s as i64).to_le_bytes());
		vrt::same_written(&a, &b, "the encoding has the documented layout");
	} else { vrt::unreachable("times in range are encodable"); }
}
pub fn check_system_time_before(s: u64) {
	vrt::assume(s <= i64::MAX as u64);
	let t = UNIX_EPOCH - Duration::from_secs(s);
	let mut a = vrt::recorder();
	if let Ok(()) = t.encode(&mut a) {
		let mut b = vrt::recorder();
		w(&mut b, &(-(s as i64)).to_le_bytes());
		vrt::same_written(&a, &b, "the encoding has the documented layout");
	} else { vrt::unreachable("times in range are encodable"); }
}
