//! MAX_ENCODED_SIZE bounds every encoding.
#![allow(unused)]
use oct::encode::{Encode, Output, SizedEncode};
use core::convert::Infallible;
use oct::{SizedSlice, SizedStr};
use std::collections::*;
use std::net::*;
use std::ops::*;
use std::num::*;
use std::cell::*;
use std::rc::Rc;
use std::sync::*;
use std::sync::atomic::*;
use std::time::*;
use std::borrow::Cow;
use std::ffi::{CStr, CString};
use std::marker::*;

macro_rules! bounded {
	($name:ident [$($g:tt)*] $t:ty) => {
		pub fn $name<$($g)*>(v: &$t) {
			let mut o = vrt::recorder();
			if let Ok(()) = <$t as Encode>::encode(v, &mut o) {
				vrt::size_at_most(&o, <$t as SizedEncode>::MAX_ENCODED_SIZE, "an encoding is never larger than the declared maximum");
			}
		}
	};
}
bounded!(check_u8 [] u8);
bounded!(check_u16 [] u16);
bounded!(check_u32 [] u32);
bounded!(check_u64 [] u64);
bounded!(check_u128 [] u128);
bounded!(check_usize [] usize);
bounded!(check_i8 [] i8);
bounded!(check_i16 [] i16);
bounded!(check_i32 [] i32);
bounded!(check_i64 [] i64);
bounded!(check_i128 [] i128);
bounded!(check_isize [] isize);
bounded!(check_f32 [] f32);
bounded!(check_f64 [] f64);
bounded!(check_bool [] bool);
bounded!(check_char [] char);
bounded!(check_duration [] Duration);
bounded!(check_range_full [] RangeFull);
bounded!(check_system_time [] SystemTime);
bounded!(check_ipv4_addr [] Ipv4Addr);
bounded!(check_ipv6_addr [] Ipv6Addr);
bounded!(check_ip_addr [] IpAddr);
bounded!(check_socket_addr_v4 [] SocketAddrV4);
bounded!(check_socket_addr_v6 [] SocketAddrV6);
bounded!(check_socket_addr [] SocketAddr);
bounded!(check_unit [] ());
bounded!(check_phantom_data [T] PhantomData<T>);
bounded!(check_nz_u8 [] NonZero<u8>);
bounded!(check_nz_u16 [] NonZero<u16>);
bounded!(check_nz_u32 [] NonZero<u32>);
bounded!(check_nz_u64 [] NonZero<u64>);
bounded!(check_nz_u128 [] NonZero<u128>);
bounded!(check_nz_usize [] NonZero<usize>);
bounded!(check_nz_i8 [] NonZero<i8>);
bounded!(check_nz_i16 [] NonZero<i16>);
bounded!(check_nz_i32 [] NonZero<i32>);
bounded!(check_nz_i64 [] NonZero<i64>);
bounded!(check_nz_i128 [] NonZero<i128>);
bounded!(check_nz_isize [] NonZero<isize>);
bounded!(check_at_u8 [] AtomicU8);
bounded!(check_at_u16 [] AtomicU16);
bounded!(check_at_u32 [] AtomicU32);
bounded!(check_at_u64 [] AtomicU64);
bounded!(check_at_usize [] AtomicUsize);
bounded!(check_at_i8 [] AtomicI8);
bounded!(check_at_i16 [] AtomicI16);
bounded!(check_at_i32 [] AtomicI32);
bounded!(check_at_i64 [] AtomicI64);
bounded!(check_at_isize [] AtomicIsize);
bounded!(check_at_bool [] AtomicBool);
bounded!(check_ref [T: SizedEncode] &'static T);
bounded!(check_mut [T: SizedEncode] &'static mut T);
bounded!(check_arc [T: SizedEncode] Arc<T>);
bounded!(check_bound [T: SizedEncode] Bound<T>);
bounded!(check_box [T: SizedEncode] Box<T>);
bounded!(check_lazy_cell [T: SizedEncode] LazyCell<T>);
bounded!(check_lazy_lock [T: SizedEncode] LazyLock<T>);
bounded!(check_mutex [T: SizedEncode] Mutex<T>);
bounded!(check_option [T: SizedEncode] Option<T>);
bounded!(check_range [T: SizedEncode] Range<T>);
bounded!(check_range_from [T: SizedEncode] RangeFrom<T>);
bounded!(check_range_inclusive [T: SizedEncode] RangeInclusive<T>);
bounded!(check_range_to [T: SizedEncode] RangeTo<T>);
bounded!(check_range_to_inclusive [T: SizedEncode] RangeToInclusive<T>);
bounded!(check_rc [T: SizedEncode] Rc<T>);
bounded!(check_ref_cell [T: SizedEncode] RefCell<T>);
bounded!(check_rw_lock [T: SizedEncode] RwLock<T>);
bounded!(check_saturating [T: SizedEncode] Saturating<T>);
bounded!(check_wrapping [T: SizedEncode] Wrapping<T>);
bounded!(check_tuple1 [T: SizedEncode] (T,));
bounded!(check_cell [T: Copy + SizedEncode] Cell<T>);
bounded!(check_cow [T: SizedEncode + Clone + 'static] Cow<'static, T>);
bounded!(check_result [T: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, E1] Result<T, E>);
bounded!(check_array [T: SizedEncode, const N: usize] [T; N]);
bounded!(check_sized_slice [T: SizedEncode, const N: usize] SizedSlice<T, N>);
bounded!(check_sized_str [const N: usize] SizedStr<N>);
bounded!(check_tuple2 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, E1] (A, B));
bounded!(check_tuple3 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, E1] (A, B, C));
bounded!(check_tuple4 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D));
bounded!(check_tuple5 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E));
bounded!(check_tuple6 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F));
bounded!(check_tuple7 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, G: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F, G));
bounded!(check_tuple8 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, G: SizedEncode + Encode<Error = E1>, H: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H));
bounded!(check_tuple9 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, G: SizedEncode + Encode<Error = E1>, H: SizedEncode + Encode<Error = E1>, I: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I));
bounded!(check_tuple10 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, G: SizedEncode + Encode<Error = E1>, H: SizedEncode + Encode<Error = E1>, I: SizedEncode + Encode<Error = E1>, J: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J));
bounded!(check_tuple11 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, G: SizedEncode + Encode<Error = E1>, H: SizedEncode + Encode<Error = E1>, I: SizedEncode + Encode<Error = E1>, J: SizedEncode + Encode<Error = E1>, K: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J, K));
bounded!(check_tuple12 [A: SizedEncode + Encode<Error = E1>, B: SizedEncode + Encode<Error = E1>, C: SizedEncode + Encode<Error = E1>, D: SizedEncode + Encode<Error = E1>, E: SizedEncode + Encode<Error = E1>, F: SizedEncode + Encode<Error = E1>, G: SizedEncode + Encode<Error = E1>, H: SizedEncode + Encode<Error = E1>, I: SizedEncode + Encode<Error = E1>, J: SizedEncode + Encode<Error = E1>, K: SizedEncode + Encode<Error = E1>, L: SizedEncode + Encode<Error = E1>, E1] (A, B, C, D, E, F, G, H, I, J, K, L));
