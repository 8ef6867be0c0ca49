#![allow(unused)]
//! What decoding makes of arbitrary bytes, against reference decoders written from the documentation.
use oct::decode::{Decode, Input};
use oct::error::*;
use oct::{SizedSlice, SizedStr};
use core::convert::Infallible;
use std::collections::*;
use std::net::*;
use std::ops::*;
use std::num::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;
use std::borrow::Cow;
use std::ffi::CString;
use std::marker::*;
use std::hash::{BuildHasher, Hash};

type E<T> = <T as Decode>::Error;
fn raw<const N: usize>(k: &mut Input) -> [u8; N] {
	let mut b = [0u8; N];
	k.read_into(&mut b).unwrap();
	b
}
fn u8_(k: &mut Input) -> u8 { raw::<1>(k)[0] }
fn len_(k: &mut Input) -> usize { u16::from_le_bytes(raw(k)) as usize }
fn item<L, I>(index: usize, error: I) -> CollectionDecodeError<L, ItemDecodeError<usize, I>> { CollectionDecodeError::BadItem(ItemDecodeError { index, error }) }

macro_rules! dec {
	($name:ident [$($g:tt)*] $t:ty, $k:ident => $e:expr) => {
		pub fn $name<$($g)*>() {
			let mut i = vrt::any_input();
			let mut j = vrt::same_input(&i);
			let got = <$t as Decode>::decode(&mut i);
			fn reference<$($g)*>($k: &mut Input) -> Result<$t, E<$t>> { $e }
			vrt::must_suffice();
			let want: Result<$t, E<$t>> = reference(&mut j);
			match (&got, &want) {
				(Ok(a), Ok(b)) => {
					vrt::same(a, b, "a valid encoding is decoded to the value it stands for");
					vrt::same_position(&i, &j, "decoding consumes exactly the encoding");
				}
				(Err(a), Err(b)) => vrt::same(a, b, "the error tells what is wrong, and where"),
				(Ok(_), Err(_)) => vrt::unreachable("an invalid encoding is refused"),
				(Err(_), Ok(_)) => vrt::unreachable("a valid encoding is accepted"),
			}
			core::mem::forget(got); core::mem::forget(want);
		}
	};
}
macro_rules! ints { ($($n:ident $t:ty)*) => { $( dec!($n [] $t, k => Ok(<$t>::from_le_bytes(raw(k)))); )* }; }
ints! { check_u8 u8 check_u16 u16 check_u32 u32 check_u64 u64 check_u128 u128 check_i8 i8 check_i16 i16 check_i32 i32 check_i64 i64 check_i128 i128 check_f32 f32 check_f64 f64 }
dec!(check_usize [] usize, k => Ok(u16::from_le_bytes(raw(k)) as usize));
dec!(check_isize [] isize, k => Ok(i16::from_le_bytes(raw(k)) as isize));
dec!(check_bool [] bool, k => Ok(u8_(k) != 0));
dec!(check_char [] char, k => {
	let c = u32::from_le_bytes(raw(k));
	if c > 0x10FFFF || (c >= 0xD800 && c < 0xE000) { Err(CharDecodeError { code_point: c }) } else { Ok(unsafe { char::from_u32_unchecked(c) }) }
});
dec!(check_unit [] (), k => Ok(()));
dec!(check_phantom_data [T] PhantomData<T>, k => Ok(PhantomData));
dec!(check_phantom_pinned [] PhantomPinned, k => Ok(PhantomPinned));
dec!(check_range_full [] RangeFull, k => Ok(..));
dec!(check_range [T: Decode] Range<T>, k => { let a = T::decode(k)?; let b = T::decode(k)?; Ok(a..b) });
dec!(check_range_from [T: Decode] RangeFrom<T>, k => { let a = T::decode(k)?; Ok(a..) });
dec!(check_range_inclusive [T: Decode] RangeInclusive<T>, k => { let a = T::decode(k)?; let b = T::decode(k)?; Ok(RangeInclusive::new(a, b)) });
dec!(check_range_to [T: Decode] RangeTo<T>, k => { let a = T::decode(k)?; Ok(..a) });
dec!(check_range_to_inclusive [T: Decode] RangeToInclusive<T>, k => { let a = T::decode(k)?; Ok(..=a) });
dec!(check_bound [T: Decode] Bound<T>, k => {
	match u8_(k) {
		0 => match T::decode(k) { Ok(v) => Ok(Bound::Included(v)), Err(e) => Err(EnumDecodeError::BadField(e)) },
		1 => match T::decode(k) { Ok(v) => Ok(Bound::Excluded(v)), Err(e) => Err(EnumDecodeError::BadField(e)) },
		2 => Ok(Bound::Unbounded),
		value => Err(EnumDecodeError::UnassignedDiscriminant { value }),
	}
});
dec!(check_option [T: Decode] Option<T>, k => if u8_(k) == 0 { Ok(None) } else { match T::decode(k) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } });
dec!(check_result [T: Decode<Error = X>, F: Decode<Error = X>, X] Result<T, F>, k => {
	if u8_(k) == 0 { match T::decode(k) { Ok(v) => Ok(Ok(v)), Err(e) => Err(EnumDecodeError::BadField(e)) } }
	else { match F::decode(k) { Ok(v) => Ok(Err(v)), Err(e) => Err(EnumDecodeError::BadField(e)) } }
});
dec!(check_wrapping [T: Decode] Wrapping<T>, k => Ok(Wrapping(T::decode(k)?)));
dec!(check_saturating [T: Decode] Saturating<T>, k => Ok(Saturating(T::decode(k)?)));
dec!(check_cell [T: Copy + Decode] Cell<T>, k => Ok(Cell::new(T::decode(k)?)));
dec!(check_ref_cell [T: Decode] RefCell<T>, k => Ok(RefCell::new(T::decode(k)?)));
dec!(check_mutex [T: Decode] Mutex<T>, k => Ok(Mutex::new(T::decode(k)?)));
dec!(check_rw_lock [T: Decode] RwLock<T>, k => Ok(RwLock::new(T::decode(k)?)));
dec!(check_box [T: Decode] Box<T>, k => Ok(Box::new(T::decode(k)?)));
dec!(check_rc [T: Decode] Rc<T>, k => Ok(Rc::new(T::decode(k)?)));
dec!(check_arc [T: Decode] Arc<T>, k => Ok(Arc::new(T::decode(k)?)));
/// the nanoseconds carry over the seconds only if these are at their maximum
pub fn check_duration() {
	let mut i = vrt::any_input();
	let mut j = vrt::same_input(&i);
	vrt::must_suffice();
	let s = u64::from_le_bytes(raw(&mut j)); let n = u32::from_le_bytes(raw(&mut j));
	vrt::assume(s <= u64::MAX - (n / 1_000_000_000) as u64);
	match Duration::decode(&mut i) {
		Ok(a) => {
			vrt::same(&a, &Duration::new(s, n), "a valid encoding is decoded to the value it stands for");
			vrt::same_position(&i, &j, "decoding consumes exactly the encoding");
		}
		Err(_) => vrt::unreachable("a valid encoding is accepted"),
	}
}
pub fn check_duration_carry() {
	let mut i = vrt::any_input();
	let mut j = vrt::same_input(&i);
	vrt::must_suffice();
	let s = u64::from_le_bytes(raw(&mut j)); let n = u32::from_le_bytes(raw(&mut j));
	vrt::assume(s > u64::MAX - (n / 1_000_000_000) as u64);
	let _ = Duration::decode(&mut i);
}
dec!(check_ipv4 [] Ipv4Addr, k => Ok(Ipv4Addr::from_bits(u32::from_le_bytes(raw(k)))));
dec!(check_ipv6 [] Ipv6Addr, k => Ok(Ipv6Addr::from_bits(u128::from_le_bytes(raw(k)))));
dec!(check_ip [] IpAddr, k => match u8_(k) {
	4 => Ok(IpAddr::V4(Ipv4Addr::from_bits(u32::from_le_bytes(raw(k))))),
	6 => Ok(IpAddr::V6(Ipv6Addr::from_bits(u128::from_le_bytes(raw(k))))),
	value => Err(EnumDecodeError::UnassignedDiscriminant { value }),
});
fn v4(k: &mut Input) -> SocketAddrV4 { let ip = Ipv4Addr::from_bits(u32::from_le_bytes(raw(k))); SocketAddrV4::new(ip, u16::from_le_bytes(raw(k))) }
fn v6(k: &mut Input) -> SocketAddrV6 {
	let ip = Ipv6Addr::from_bits(u128::from_le_bytes(raw(k))); let port = u16::from_le_bytes(raw(k));
	let flow = u32::from_le_bytes(raw(k)); let scope = u32::from_le_bytes(raw(k));
	SocketAddrV6::new(ip, port, flow, scope)
}
dec!(check_socket_v4 [] SocketAddrV4, k => Ok(v4(k)));
dec!(check_socket_v6 [] SocketAddrV6, k => Ok(v6(k)));
dec!(check_socket [] SocketAddr, k => match u8_(k) {
	4 => Ok(SocketAddr::V4(v4(k))),
	6 => Ok(SocketAddr::V6(v6(k))),
	value => Err(EnumDecodeError::UnassignedDiscriminant { value }),
});
macro_rules! nz { ($($n:ident $t:ty, $r:ty;)*) => { $( dec!($n [] NonZero<$t>, k => {
	let x = <$r>::from_le_bytes(raw(k)) as $t;
	if x == 0 { Err(NonZeroDecodeError) } else { Ok(unsafe { NonZero::new_unchecked(x) }) }
}); )* }; }
nz! { check_nz_u8 u8, u8; check_nz_u16 u16, u16; check_nz_u32 u32, u32; check_nz_u64 u64, u64; check_nz_u128 u128, u128; check_nz_usize usize, u16;
	check_nz_i8 i8, i8; check_nz_i16 i16, i16; check_nz_i32 i32, i32; check_nz_i64 i64, i64; check_nz_i128 i128, i128; check_nz_isize isize, i16; }
macro_rules! at { ($($n:ident $t:ty, $r:ty;)*) => { $( dec!($n [] $t, k => Ok(<$t>::new(<$r>::decode(k)?))); )* }; }
at! { check_at_bool AtomicBool, bool; check_at_u8 AtomicU8, u8; check_at_u16 AtomicU16, u16; check_at_u32 AtomicU32, u32; check_at_u64 AtomicU64, u64; check_at_usize AtomicUsize, usize;
	check_at_i8 AtomicI8, i8; check_at_i16 AtomicI16, i16; check_at_i32 AtomicI32, i32; check_at_i64 AtomicI64, i64; check_at_isize AtomicIsize, isize; }
dec!(check_vec [T: Decode] Vec<T>, k => {
	let n = len_(k); let mut v = Vec::with_capacity(n);
	let mut i = 0;
	while i < n { match T::decode(k) { Ok(x) => v.push(x), Err(e) => { core::mem::forget(v); return Err(item(i, e)) } } i += 1; }
	Ok(v)
});
dec!(check_linked_list [T: Decode] LinkedList<T>, k => {
	let n = len_(k); let mut v = LinkedList::new();
	let mut i = 0;
	while i < n { match T::decode(k) { Ok(x) => v.push_back(x), Err(e) => { core::mem::forget(v); return Err(item(i, e)) } } i += 1; }
	Ok(v)
});
dec!(check_hash_map [K: Decode<Error = X> + Eq + Hash, V: Decode<Error = X>, S: BuildHasher + Default, X] HashMap<K, V, S>, k => {
	let n = len_(k); let mut v = HashMap::with_capacity_and_hasher(n, S::default());
	let mut i = 0;
	while i < n {
		let a = match K::decode(k) { Ok(x) => x, Err(e) => { core::mem::forget(v); return Err(item(i, e)) } };
		let b = match V::decode(k) { Ok(x) => x, Err(e) => { core::mem::forget(v); core::mem::forget(a); return Err(item(i, e)) } };
		v.insert(a, b); i += 1;
	}
	Ok(v)
});
dec!(check_hash_set [K: Decode + Eq + Hash, S: BuildHasher + Default] HashSet<K, S>, k => {
	let n = len_(k); let mut v = HashSet::with_capacity_and_hasher(n, S::default());
	let mut i = 0;
	while i < n { match K::decode(k) { Ok(x) => { v.insert(x); } Err(e) => { core::mem::forget(v); return Err(item(i, e)) } } i += 1; }
	Ok(v)
});
dec!(check_cow_str [] Cow<'static, str>, k => match string(k) { Ok(s) => Ok(Cow::Owned(s)), Err(e) => Err(e) });
dec!(check_string [] String, k => string(k));
fn string(k: &mut Input) -> Result<String, CollectionDecodeError<Infallible, Utf8Error>> {
	let n = len_(k); let d = k.read(n).unwrap();
	match core::str::from_utf8(d) {
		Err(e) => { let index = e.valid_up_to(); Err(CollectionDecodeError::BadItem(Utf8Error { value: d[index], index })) }
		Ok(_) => {
			let mut v = Vec::with_capacity(n);
			unsafe { core::ptr::copy_nonoverlapping(d.as_ptr(), v.as_mut_ptr(), n); v.set_len(n); Ok(String::from_utf8_unchecked(v)) }
		}
	}
}
dec!(check_c_string [] CString, k => {
	let n = len_(k); let d = k.read(n).unwrap();
	let mut i = 0;
	while i < n { if d[i] == 0 { return Err(CStringDecodeError { index: i }); } i += 1; }
	let mut v = Vec::with_capacity(n);
	unsafe { core::ptr::copy_nonoverlapping(d.as_ptr(), v.as_mut_ptr(), n); v.set_len(n); Ok(CString::from_vec_unchecked(v)) }
});
dec!(check_sized_str [const N: usize] SizedStr<N>, k => {
	let n = len_(k); let d = k.read(n).unwrap();
	if n > N { return Err(CollectionDecodeError::BadLength(LengthError { capacity: N, len: n })); }
	match core::str::from_utf8(d) {
		Err(e) => { let index = e.valid_up_to(); Err(CollectionDecodeError::BadItem(Utf8Error { value: d[index], index })) }
		Ok(s) => Ok(SizedStr::new(s).unwrap()),
	}
});
dec!(check_tuple1 [A: Decode] (A,), k => Ok((A::decode(k)?,)));
macro_rules! tuples { ($($n:ident [$($t:ident)*])*) => { $( dec!($n [$($t: Decode<Error = X>,)* X] ($($t,)*), k => Ok(($($t::decode(k)?,)*))); )* }; }
tuples! {
	check_tuple2 [A B]
	check_tuple3 [A B C]
	check_tuple4 [A B C D]
	check_tuple5 [A B C D F]
	check_tuple6 [A B C D F G]
	check_tuple7 [A B C D F G H]
	check_tuple8 [A B C D F G H I]
	check_tuple9 [A B C D F G H I J]
	check_tuple10 [A B C D F G H I J K]
	check_tuple11 [A B C D F G H I J K L]
	check_tuple12 [A B C D F G H I J K L M]
}
/// the representable points in time are those that the platform can represent
dec!(check_system_time [] SystemTime, k => {
	let t = i64::from_le_bytes(raw(k));
	let r = if t > 0 { UNIX_EPOCH.checked_add(Duration::from_secs(t as u64)) } else { UNIX_EPOCH.checked_sub(Duration::from_secs(t.unsigned_abs())) };
	match r { Some(r) => Ok(r), None => Err(SystemTimeDecodeError { timestamp: t }) }
});

// types that hold their items in place: compared with the items read one after another
pub fn check_array<T: Decode, const N: usize>() {
	let mut i = vrt::any_input();
	let mut k = vrt::same_input(&i);
	let got = <[T; N] as Decode>::decode(&mut i);
	vrt::must_suffice();
	let mut n = 0;
	while n < N {
		match T::decode(&mut k) {
			Ok(x) => {
				if let Ok(a) = &got { vrt::same(&a[n], &x, "a valid encoding is decoded to the value it stands for"); }
				core::mem::forget(x);
			}
			Err(e) => {
				match &got {
					Err(a) => vrt::same(a, &item::<Infallible, _>(n, e), "the error tells what is wrong, and where"),
					Ok(_) => vrt::unreachable("an invalid encoding is refused"),
				}
				core::mem::forget(got);
				return;
			}
		}
		n += 1;
	}
	if let Err(_) = &got { vrt::unreachable("a valid encoding is accepted"); }
	vrt::same_position(&i, &k, "decoding consumes exactly the encoding");
	core::mem::forget(got);
}
pub fn check_sized_slice<T: Decode, const N: usize>() {
	let mut i = vrt::any_input();
	let mut k = vrt::same_input(&i);
	let got = <SizedSlice<T, N> as Decode>::decode(&mut i);
	vrt::must_suffice();
	let len = len_(&mut k);
	if len > N {
		match &got {
			Err(a) => vrt::same(a, &CollectionDecodeError::<LengthError, ItemDecodeError<usize, T::Error>>::BadLength(LengthError { capacity: N, len }), "the error tells what is wrong, and where"),
			Ok(_) => vrt::unreachable("an invalid encoding is refused"),
		}
		core::mem::forget(got);
		return;
	}
	let mut n = 0;
	while n < len {
		match T::decode(&mut k) {
			Ok(x) => {
				if let Ok(a) = &got { vrt::same(&a.as_slice()[n], &x, "a valid encoding is decoded to the value it stands for"); }
				core::mem::forget(x);
			}
			Err(e) => {
				match &got {
					Err(a) => vrt::same(a, &item::<LengthError, _>(n, e), "the error tells what is wrong, and where"),
					Ok(_) => vrt::unreachable("an invalid encoding is refused"),
				}
				core::mem::forget(got);
				return;
			}
		}
		n += 1;
	}
	match &got {
		Ok(a) => vrt::require(a.len() == len, "a valid encoding is decoded to the value it stands for"),
		Err(_) => vrt::unreachable("a valid encoding is accepted"),
	}
	vrt::same_position(&i, &k, "decoding consumes exactly the encoding");
	core::mem::forget(got);
}
