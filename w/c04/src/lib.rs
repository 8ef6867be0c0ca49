//! Derived codecs: fields and variants of every shape, over every representation, with arbitrary field types.
#![allow(unused)]
use oct::decode::{Decode, Input};
use oct::encode::{Encode, Output, SizedEncode};
use oct::error::{GenericEncodeError, GenericDecodeError, EnumDecodeError, EnumEncodeError};

fn w(o: &mut Output<'_>, b: &[u8]) { let _ = o.write(b); }

/// round trip, layout and size of one derived type
macro_rules! derived {
	($name:ident [$($g:tt)*] [$($wh:tt)*] $t:ty, |$v:ident, $o:ident| $e:expr) => {
		pub mod $name {
			use super::*;
			pub fn check_round_trip<$($g)*>(v: &$t) where $($wh)* {
				let mut o = vrt::recorder();
				if let Ok(()) = <$t as Encode>::encode(v, &mut o) {
					let mut i = vrt::replay(&o);
					match <$t as Decode>::decode(&mut i) {
						Ok(w) => {
							vrt::same(&w, v, "the decoded value is the encoded value");
							vrt::exhausted(&i, "decoding consumes exactly what encoding wrote");
							core::mem::forget(w);
						}
						Err(_) => vrt::unreachable("decoding what encoding wrote must succeed"),
					}
				}
			}
			pub fn check_layout<$($g)*>($v: &$t) where $($wh)* {
				let mut a = vrt::recorder();
				if let Ok(()) = <$t as Encode>::encode($v, &mut a) {
					let mut b = vrt::recorder();
					{ let $o = &mut b; $e; }
					vrt::same_written(&a, &b, "the parts are encoded in order of declaration, an enumeration's discriminant first");
				}
			}
			pub fn check_size<$($g)*>(v: &$t) where $($wh)* {
				let mut o = vrt::recorder();
				if let Ok(()) = <$t as Encode>::encode(v, &mut o) {
					vrt::size_at_most(&o, <$t as SizedEncode>::MAX_ENCODED_SIZE, "an encoding is never larger than the declared maximum");
				}
			}
		}
	};
}
#[derive(Encode, Decode, SizedEncode)]
pub struct Unit;
derived!(unit [] [] Unit, |v, o| ());
#[derive(Encode, Decode, SizedEncode)]
pub struct Empty {}
derived!(empty [] [] Empty, |v, o| ());
#[derive(Encode, Decode, SizedEncode)]
pub struct Tup1<A>(pub A) where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,;
derived!(tup1 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] Tup1<A>, |v, o| { let _ = v.0.encode(o); });
#[derive(Encode, Decode, SizedEncode)]
pub struct Tup2<A, B>(pub A, pub B) where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, B: Encode + Decode + SizedEncode, <B as Encode>::Error: Into<GenericEncodeError>, <B as Decode>::Error: Into<GenericDecodeError>,;
derived!(tup2 [A, B] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, B: Encode + Decode + SizedEncode, <B as Encode>::Error: Into<GenericEncodeError>, <B as Decode>::Error: Into<GenericDecodeError>,] Tup2<A, B>, |v, o| { let _ = v.0.encode(o); let _ = v.1.encode(o); });
#[derive(Encode, Decode, SizedEncode)]
pub struct Named<A, B, C> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, B: Encode + Decode + SizedEncode, <B as Encode>::Error: Into<GenericEncodeError>, <B as Decode>::Error: Into<GenericDecodeError>, C: Encode + Decode + SizedEncode, <C as Encode>::Error: Into<GenericEncodeError>, <C as Decode>::Error: Into<GenericDecodeError>, { pub zebra: A, pub apple: B, pub mango: C }
derived!(named [A, B, C] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, B: Encode + Decode + SizedEncode, <B as Encode>::Error: Into<GenericEncodeError>, <B as Decode>::Error: Into<GenericDecodeError>, C: Encode + Decode + SizedEncode, <C as Encode>::Error: Into<GenericEncodeError>, <C as Decode>::Error: Into<GenericDecodeError>,] Named<A, B, C>, |v, o| { let _ = v.zebra.encode(o); let _ = v.apple.encode(o); let _ = v.mango.encode(o); });
#[derive(Encode, Decode, SizedEncode)]
pub struct Same<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { pub b: A, pub a: A, pub c: A, pub r#type: A }
derived!(same_typed [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] Same<A>, |v, o| { let _ = v.b.encode(o); let _ = v.a.encode(o); let _ = v.c.encode(o); let _ = v.r#type.encode(o); });
#[derive(Encode, Decode, SizedEncode)]
pub struct Bounded<A: Encode + Decode + SizedEncode, const N: usize>(pub [A; N], pub u16) where <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>;
derived!(const_generic [A, const N: usize] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] Bounded<A, N>, |v, o| { let _ = v.0.encode(o); w(o, &v.1.to_le_bytes()); });
#[derive(Encode, Decode, SizedEncode)]
pub struct Scalars { pub a: u8, pub b: u16, pub c: u32, pub d: u64, pub e: i8, pub f: bool, pub g: char, pub h: () }
derived!(scalars [] [] Scalars, |v, o| { w(o, &[v.a]); w(o, &v.b.to_le_bytes()); w(o, &v.c.to_le_bytes()); w(o, &v.d.to_le_bytes()); w(o, &v.e.to_le_bytes()); w(o, &[if v.f { 1 } else { 0 }]); w(o, &(v.g as u32).to_le_bytes()); });
#[derive(Encode, Decode, SizedEncode)]
pub struct Nested<A>(pub Tup2<A, u8>, pub Option<A>) where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,;
derived!(nested [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] Nested<A>, |v, o| { let _ = v.0.0.encode(o); w(o, &[v.0.1]); match &v.1 { None => w(o, &[0]), Some(x) => { w(o, &[1]); let _ = x.encode(o); } } });
#[derive(Encode, Decode, SizedEncode)]
pub enum Plain { A, B, C }
derived!(plain_enum [] [] Plain, |v, o| match v { Plain::A => w(o, &[0, 0]), Plain::B => w(o, &[1, 0]), Plain::C => w(o, &[2, 0]) });
#[derive(Encode, Decode, SizedEncode)]
pub enum Jumbled { Two = 2, Three, Zero = 0, One, Big = 0x1234, Next, Top = 32_767 }
derived!(jumbled_enum [] [] Jumbled, |v, o| match v { Jumbled::Two => w(o, &[2, 0]), Jumbled::Three => w(o, &[3, 0]), Jumbled::Zero => w(o, &[0, 0]), Jumbled::One => w(o, &[1, 0]), Jumbled::Big => w(o, &[0x34, 0x12]), Jumbled::Next => w(o, &[0x35, 0x12]), Jumbled::Top => w(o, &[0xff, 0x7f]) });
#[derive(Encode, Decode, SizedEncode)]
pub enum Only { One }
derived!(single_variant [] [] Only, |v, o| w(o, &[0, 0]));
#[derive(Encode, Decode, SizedEncode)]
pub enum Shapes<A, B> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, B: Encode + Decode + SizedEncode, <B as Encode>::Error: Into<GenericEncodeError>, <B as Decode>::Error: Into<GenericDecodeError>, { Unit, Tuple(A, B), Named { b: B, a: A }, Braces {}, Parens(), Swapped(B, A) }
derived!(shapes_enum [A, B] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, B: Encode + Decode + SizedEncode, <B as Encode>::Error: Into<GenericEncodeError>, <B as Decode>::Error: Into<GenericDecodeError>,] Shapes<A, B>, |v, o| match v { Shapes::Unit => w(o, &[0, 0]), Shapes::Tuple(a, b) => { w(o, &[1, 0]); let _ = a.encode(o); let _ = b.encode(o); } Shapes::Named { b, a } => { w(o, &[2, 0]); let _ = b.encode(o); let _ = a.encode(o); } Shapes::Braces {} => w(o, &[3, 0]), Shapes::Parens() => w(o, &[4, 0]), Shapes::Swapped(b, a) => { w(o, &[5, 0]); let _ = b.encode(o); let _ = a.encode(o); } });
#[derive(Encode, Decode, SizedEncode)]
pub enum WideFirst<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { W(A, A, u64), S(u8), M(u16, u16) }
derived!(wide_first [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] WideFirst<A>, |v, o| match v { WideFirst::S(x) => { w(o, &[1, 0]); w(o, &[*x]) } WideFirst::M(x, y) => { w(o, &[2, 0]); w(o, &x.to_le_bytes()); w(o, &y.to_le_bytes()) } WideFirst::W(x, y, z) => { w(o, &[0, 0]); let _ = x.encode(o); let _ = y.encode(o); w(o, &z.to_le_bytes()) } });
#[derive(Encode, Decode, SizedEncode)]
pub enum WideMiddle<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { S(u8), W(A, A, u64), M(u16, u16) }
derived!(wide_middle [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] WideMiddle<A>, |v, o| match v { WideMiddle::S(x) => { w(o, &[0, 0]); w(o, &[*x]) } WideMiddle::M(x, y) => { w(o, &[2, 0]); w(o, &x.to_le_bytes()); w(o, &y.to_le_bytes()) } WideMiddle::W(x, y, z) => { w(o, &[1, 0]); let _ = x.encode(o); let _ = y.encode(o); w(o, &z.to_le_bytes()) } });
#[derive(Encode, Decode, SizedEncode)]
pub enum WideLast<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { S(u8), M(u16, u16), W(A, A, u64) }
derived!(wide_last [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] WideLast<A>, |v, o| match v { WideLast::S(x) => { w(o, &[0, 0]); w(o, &[*x]) } WideLast::M(x, y) => { w(o, &[1, 0]); w(o, &x.to_le_bytes()); w(o, &y.to_le_bytes()) } WideLast::W(x, y, z) => { w(o, &[2, 0]); let _ = x.encode(o); let _ = y.encode(o); w(o, &z.to_le_bytes()) } });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum RU8<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 255, One = 0b1 }
derived!(repr_u8 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RU8<A>, |v, o| match v { RU8::Zero => w(o, &(0 as u8).to_le_bytes()), RU8::Five(a) => { w(o, &(5 as u8).to_le_bytes()); let _ = a.encode(o); } RU8::Six { x, y } => { w(o, &(6 as u8).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RU8::Top(y, a) => { w(o, &(255 as u8).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RU8::One => w(o, &(1 as u8).to_le_bytes()) });
pub mod reject_u8 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <u8 as Decode>::decode(&mut j);
		let r = <RU8<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: u8 = match &v { RU8::Zero => 0, RU8::Five(_) => 5, RU8::Six { .. } => 6, RU8::Top(..) => 255, RU8::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 255, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 255, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(i8)]
pub enum RI8<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 127, One = 0b1 }
derived!(repr_i8 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RI8<A>, |v, o| match v { RI8::Zero => w(o, &(0 as i8).to_le_bytes()), RI8::Five(a) => { w(o, &(5 as i8).to_le_bytes()); let _ = a.encode(o); } RI8::Six { x, y } => { w(o, &(6 as i8).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RI8::Top(y, a) => { w(o, &(127 as i8).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RI8::One => w(o, &(1 as i8).to_le_bytes()) });
pub mod reject_i8 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <i8 as Decode>::decode(&mut j);
		let r = <RI8<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: i8 = match &v { RI8::Zero => 0, RI8::Five(_) => 5, RI8::Six { .. } => 6, RI8::Top(..) => 127, RI8::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 127, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 127, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum RU16<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 65535, One = 0b1 }
derived!(repr_u16 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RU16<A>, |v, o| match v { RU16::Zero => w(o, &(0 as u16).to_le_bytes()), RU16::Five(a) => { w(o, &(5 as u16).to_le_bytes()); let _ = a.encode(o); } RU16::Six { x, y } => { w(o, &(6 as u16).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RU16::Top(y, a) => { w(o, &(65535 as u16).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RU16::One => w(o, &(1 as u16).to_le_bytes()) });
pub mod reject_u16 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <u16 as Decode>::decode(&mut j);
		let r = <RU16<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: u16 = match &v { RU16::Zero => 0, RU16::Five(_) => 5, RU16::Six { .. } => 6, RU16::Top(..) => 65535, RU16::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 65535, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 65535, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum RI16<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 32767, One = 0b1 }
derived!(repr_i16 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RI16<A>, |v, o| match v { RI16::Zero => w(o, &(0 as i16).to_le_bytes()), RI16::Five(a) => { w(o, &(5 as i16).to_le_bytes()); let _ = a.encode(o); } RI16::Six { x, y } => { w(o, &(6 as i16).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RI16::Top(y, a) => { w(o, &(32767 as i16).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RI16::One => w(o, &(1 as i16).to_le_bytes()) });
pub mod reject_i16 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <i16 as Decode>::decode(&mut j);
		let r = <RI16<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: i16 = match &v { RI16::Zero => 0, RI16::Five(_) => 5, RI16::Six { .. } => 6, RI16::Top(..) => 32767, RI16::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 32767, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 32767, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u32)]
pub enum RU32<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 4294967295, One = 0b1 }
derived!(repr_u32 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RU32<A>, |v, o| match v { RU32::Zero => w(o, &(0 as u32).to_le_bytes()), RU32::Five(a) => { w(o, &(5 as u32).to_le_bytes()); let _ = a.encode(o); } RU32::Six { x, y } => { w(o, &(6 as u32).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RU32::Top(y, a) => { w(o, &(4294967295 as u32).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RU32::One => w(o, &(1 as u32).to_le_bytes()) });
pub mod reject_u32 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <u32 as Decode>::decode(&mut j);
		let r = <RU32<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: u32 = match &v { RU32::Zero => 0, RU32::Five(_) => 5, RU32::Six { .. } => 6, RU32::Top(..) => 4294967295, RU32::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 4294967295, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 4294967295, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(i32)]
pub enum RI32<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 2147483647, One = 0b1 }
derived!(repr_i32 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RI32<A>, |v, o| match v { RI32::Zero => w(o, &(0 as i32).to_le_bytes()), RI32::Five(a) => { w(o, &(5 as i32).to_le_bytes()); let _ = a.encode(o); } RI32::Six { x, y } => { w(o, &(6 as i32).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RI32::Top(y, a) => { w(o, &(2147483647 as i32).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RI32::One => w(o, &(1 as i32).to_le_bytes()) });
pub mod reject_i32 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <i32 as Decode>::decode(&mut j);
		let r = <RI32<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: i32 = match &v { RI32::Zero => 0, RI32::Five(_) => 5, RI32::Six { .. } => 6, RI32::Top(..) => 2147483647, RI32::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 2147483647, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 2147483647, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(u64)]
pub enum RU64<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 0xFFFF_FFFF_FFFF_FFFF, One = 0b1 }
derived!(repr_u64 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RU64<A>, |v, o| match v { RU64::Zero => w(o, &(0 as u64).to_le_bytes()), RU64::Five(a) => { w(o, &(5 as u64).to_le_bytes()); let _ = a.encode(o); } RU64::Six { x, y } => { w(o, &(6 as u64).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RU64::Top(y, a) => { w(o, &(0xFFFF_FFFF_FFFF_FFFF as u64).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RU64::One => w(o, &(1 as u64).to_le_bytes()) });
pub mod reject_u64 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <u64 as Decode>::decode(&mut j);
		let r = <RU64<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: u64 = match &v { RU64::Zero => 0, RU64::Five(_) => 5, RU64::Six { .. } => 6, RU64::Top(..) => 0xFFFF_FFFF_FFFF_FFFF, RU64::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 0xFFFF_FFFF_FFFF_FFFF, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 0xFFFF_FFFF_FFFF_FFFF, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum RI64<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 9223372036854775807, One = 0b1 }
derived!(repr_i64 [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RI64<A>, |v, o| match v { RI64::Zero => w(o, &(0 as i64).to_le_bytes()), RI64::Five(a) => { w(o, &(5 as i64).to_le_bytes()); let _ = a.encode(o); } RI64::Six { x, y } => { w(o, &(6 as i64).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RI64::Top(y, a) => { w(o, &(9223372036854775807 as i64).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RI64::One => w(o, &(1 as i64).to_le_bytes()) });
pub mod reject_i64 {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <i64 as Decode>::decode(&mut j);
		let r = <RI64<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: i64 = match &v { RI64::Zero => 0, RI64::Five(_) => 5, RI64::Six { .. } => 6, RI64::Top(..) => 9223372036854775807, RI64::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 9223372036854775807, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 9223372036854775807, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum RUsize<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 65535, One = 0b1 }
derived!(repr_usize [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RUsize<A>, |v, o| match v { RUsize::Zero => w(o, &(0 as u16).to_le_bytes()), RUsize::Five(a) => { w(o, &(5 as u16).to_le_bytes()); let _ = a.encode(o); } RUsize::Six { x, y } => { w(o, &(6 as u16).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RUsize::Top(y, a) => { w(o, &(65535 as u16).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RUsize::One => w(o, &(1 as u16).to_le_bytes()) });
pub mod reject_usize {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <usize as Decode>::decode(&mut j);
		let r = <RUsize<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: usize = match &v { RUsize::Zero => 0, RUsize::Five(_) => 5, RUsize::Six { .. } => 6, RUsize::Top(..) => 65535, RUsize::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 65535, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 65535, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}
#[derive(Encode, Decode, SizedEncode)]
#[repr(isize)]
pub enum RIsize<A> where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, { Zero, Five(A) = 5, Six { x: A, y: u8 }, Top(u8, A) = 32767, One = 0b1 }
derived!(repr_isize [A] [A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>,] RIsize<A>, |v, o| match v { RIsize::Zero => w(o, &(0 as i16).to_le_bytes()), RIsize::Five(a) => { w(o, &(5 as i16).to_le_bytes()); let _ = a.encode(o); } RIsize::Six { x, y } => { w(o, &(6 as i16).to_le_bytes()); let _ = x.encode(o); w(o, &[*y]); } RIsize::Top(y, a) => { w(o, &(32767 as i16).to_le_bytes()); w(o, &[*y]); let _ = a.encode(o); } RIsize::One => w(o, &(1 as i16).to_le_bytes()) });
pub mod reject_isize {
	use super::*;
	pub fn check_discriminants<A>() where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
		let mut i = vrt::any_input();
		let mut j = vrt::same_input(&i);
		vrt::may_panic();
		let d = <isize as Decode>::decode(&mut j);
		let r = <RIsize<A> as Decode>::decode(&mut i);
		match (d, r) {
			(Ok(d), Ok(v)) => {
				let n: isize = match &v { RIsize::Zero => 0, RIsize::Five(_) => 5, RIsize::Six { .. } => 6, RIsize::Top(..) => 32767, RIsize::One => 1 };
				vrt::require(n == d, "the variant is the one the discriminant names");
				core::mem::forget(v);
			}
			(Ok(d), Err(EnumDecodeError::UnassignedDiscriminant { value })) => {
				vrt::require(value == d, "the reported discriminant is the one that was read");
				vrt::require(d != 0 && d != 1 && d != 5 && d != 6 && d != 32767, "an assigned discriminant is accepted");
			}
			(Ok(d), Err(EnumDecodeError::InvalidDiscriminant(_))) => vrt::unreachable("a readable discriminant is not invalid"),
			(Ok(d), Err(EnumDecodeError::BadField(_))) => vrt::require(d == 5 || d == 6 || d == 32767, "only variants with fields have bad fields"),
			(Err(_), _) => {}
		}
	}
}

pub fn check_field_error<A>(v: &Tup2<u8, A>) where A: Encode + Decode + SizedEncode, <A as Encode>::Error: Into<GenericEncodeError>, <A as Decode>::Error: Into<GenericDecodeError>, {
	let mut o = vrt::recorder();
	let r = v.encode(&mut o);
	if let Err(e) = r {
		let mut p = vrt::recorder();
		match v.1.encode(&mut p) {
			Ok(()) => vrt::unreachable("a structure is encodable when its fields are"),
			Err(f) => { let g: GenericEncodeError = f.into(); vrt::same(&e, &g, "the error is that of the failing field"); core::mem::forget(g); }
		}
		core::mem::forget(e);
	}
}
/// shapes that need only compile
#[derive(Encode)]
pub struct Borrowing<'a>(pub &'a u8, pub &'a [u16]);
#[derive(Encode, SizedEncode)]
pub enum Lifetimes<'a, 'b> { A(&'a u16), B { x: &'b u8 } }
#[derive(Encode, Decode, SizedEncode)]
pub enum Void {}
pub fn check_void_decode() {
	let mut i = vrt::any_input();
	vrt::may_panic();
	if let Ok(_) = <Void as Decode>::decode(&mut i) { vrt::unreachable("an enumeration without variants has no values"); }
}
// an implicit discriminant is one above its predecessor, wherever that lies
#[derive(Encode, Decode, SizedEncode)]
pub enum Steps { V0 = 0x7e, V1, V2, V3 = 0xfd, V4, V5, V6, V7 = 0x7ffd, V8, V9, V10 = 0xffe, V11, V12 }
derived!(steps_default [] [] Steps, |v, o| match v { Steps::V0 => w(o, &[126, 0]), Steps::V1 => w(o, &[127, 0]), Steps::V2 => w(o, &[128, 0]), Steps::V3 => w(o, &[253, 0]), Steps::V4 => w(o, &[254, 0]), Steps::V5 => w(o, &[255, 0]), Steps::V6 => w(o, &[0, 1]), Steps::V7 => w(o, &[253, 127]), Steps::V8 => w(o, &[254, 127]), Steps::V9 => w(o, &[255, 127]), Steps::V10 => w(o, &[254, 15]), Steps::V11 => w(o, &[255, 15]), Steps::V12 => w(o, &[0, 16]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u8)]
pub enum StepsU8 { V0 = 0x6, V1, V2, V3, V4 = 0x7e, V5, V6, V7 = 0xfd, V8, V9, V10 = 0x3e, V11, V12 }
derived!(steps_u8 [] [] StepsU8, |v, o| match v { StepsU8::V0 => w(o, &[6]), StepsU8::V1 => w(o, &[7]), StepsU8::V2 => w(o, &[8]), StepsU8::V3 => w(o, &[9]), StepsU8::V4 => w(o, &[126]), StepsU8::V5 => w(o, &[127]), StepsU8::V6 => w(o, &[128]), StepsU8::V7 => w(o, &[253]), StepsU8::V8 => w(o, &[254]), StepsU8::V9 => w(o, &[255]), StepsU8::V10 => w(o, &[62]), StepsU8::V11 => w(o, &[63]), StepsU8::V12 => w(o, &[64]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i8)]
pub enum StepsI8 { V0 = 0xe, V1, V2, V3 = 0x3e, V4, V5, V6 = 0x7d, V7, V8 }
derived!(steps_i8 [] [] StepsI8, |v, o| match v { StepsI8::V0 => w(o, &[14]), StepsI8::V1 => w(o, &[15]), StepsI8::V2 => w(o, &[16]), StepsI8::V3 => w(o, &[62]), StepsI8::V4 => w(o, &[63]), StepsI8::V5 => w(o, &[64]), StepsI8::V6 => w(o, &[125]), StepsI8::V7 => w(o, &[126]), StepsI8::V8 => w(o, &[127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum StepsU16 { V0 = 0x7e, V1, V2, V3 = 0xfe, V4, V5, V6 = 0x7ffe, V7, V8, V9 = 0xfffd, V10, V11 }
derived!(steps_u16 [] [] StepsU16, |v, o| match v { StepsU16::V0 => w(o, &[126, 0]), StepsU16::V1 => w(o, &[127, 0]), StepsU16::V2 => w(o, &[128, 0]), StepsU16::V3 => w(o, &[254, 0]), StepsU16::V4 => w(o, &[255, 0]), StepsU16::V5 => w(o, &[0, 1]), StepsU16::V6 => w(o, &[254, 127]), StepsU16::V7 => w(o, &[255, 127]), StepsU16::V8 => w(o, &[0, 128]), StepsU16::V9 => w(o, &[253, 255]), StepsU16::V10 => w(o, &[254, 255]), StepsU16::V11 => w(o, &[255, 255]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum StepsI16 { V0 = 0x7e, V1, V2, V3 = 0xfe, V4, V5, V6 = 0x7ffd, V7, V8 }
derived!(steps_i16 [] [] StepsI16, |v, o| match v { StepsI16::V0 => w(o, &[126, 0]), StepsI16::V1 => w(o, &[127, 0]), StepsI16::V2 => w(o, &[128, 0]), StepsI16::V3 => w(o, &[254, 0]), StepsI16::V4 => w(o, &[255, 0]), StepsI16::V5 => w(o, &[0, 1]), StepsI16::V6 => w(o, &[253, 127]), StepsI16::V7 => w(o, &[254, 127]), StepsI16::V8 => w(o, &[255, 127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u32)]
pub enum StepsU32 { V0 = 0xfe, V1, V2, V3 = 0xfffe, V4, V5, V6 = 0x7ffffffe, V7, V8, V9 = 0xfffffffd, V10, V11 }
derived!(steps_u32 [] [] StepsU32, |v, o| match v { StepsU32::V0 => w(o, &[254, 0, 0, 0]), StepsU32::V1 => w(o, &[255, 0, 0, 0]), StepsU32::V2 => w(o, &[0, 1, 0, 0]), StepsU32::V3 => w(o, &[254, 255, 0, 0]), StepsU32::V4 => w(o, &[255, 255, 0, 0]), StepsU32::V5 => w(o, &[0, 0, 1, 0]), StepsU32::V6 => w(o, &[254, 255, 255, 127]), StepsU32::V7 => w(o, &[255, 255, 255, 127]), StepsU32::V8 => w(o, &[0, 0, 0, 128]), StepsU32::V9 => w(o, &[253, 255, 255, 255]), StepsU32::V10 => w(o, &[254, 255, 255, 255]), StepsU32::V11 => w(o, &[255, 255, 255, 255]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i32)]
pub enum StepsI32 { V0 = 0xfe, V1, V2, V3 = 0xfffe, V4, V5, V6 = 0x7ffffffd, V7, V8 }
derived!(steps_i32 [] [] StepsI32, |v, o| match v { StepsI32::V0 => w(o, &[254, 0, 0, 0]), StepsI32::V1 => w(o, &[255, 0, 0, 0]), StepsI32::V2 => w(o, &[0, 1, 0, 0]), StepsI32::V3 => w(o, &[254, 255, 0, 0]), StepsI32::V4 => w(o, &[255, 255, 0, 0]), StepsI32::V5 => w(o, &[0, 0, 1, 0]), StepsI32::V6 => w(o, &[253, 255, 255, 127]), StepsI32::V7 => w(o, &[254, 255, 255, 127]), StepsI32::V8 => w(o, &[255, 255, 255, 127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u64)]
pub enum StepsU64 { V0 = 0xfe, V1, V2, V3 = 0xfffe, V4, V5, V6 = 0xfffffffe, V7, V8, V9 = 0x7ffffffffffffffe, V10, V11, V12 = 0xfffffffffffffffd, V13, V14 }
derived!(steps_u64 [] [] StepsU64, |v, o| match v { StepsU64::V0 => w(o, &[254, 0, 0, 0, 0, 0, 0, 0]), StepsU64::V1 => w(o, &[255, 0, 0, 0, 0, 0, 0, 0]), StepsU64::V2 => w(o, &[0, 1, 0, 0, 0, 0, 0, 0]), StepsU64::V3 => w(o, &[254, 255, 0, 0, 0, 0, 0, 0]), StepsU64::V4 => w(o, &[255, 255, 0, 0, 0, 0, 0, 0]), StepsU64::V5 => w(o, &[0, 0, 1, 0, 0, 0, 0, 0]), StepsU64::V6 => w(o, &[254, 255, 255, 255, 0, 0, 0, 0]), StepsU64::V7 => w(o, &[255, 255, 255, 255, 0, 0, 0, 0]), StepsU64::V8 => w(o, &[0, 0, 0, 0, 1, 0, 0, 0]), StepsU64::V9 => w(o, &[254, 255, 255, 255, 255, 255, 255, 127]), StepsU64::V10 => w(o, &[255, 255, 255, 255, 255, 255, 255, 127]), StepsU64::V11 => w(o, &[0, 0, 0, 0, 0, 0, 0, 128]), StepsU64::V12 => w(o, &[253, 255, 255, 255, 255, 255, 255, 255]), StepsU64::V13 => w(o, &[254, 255, 255, 255, 255, 255, 255, 255]), StepsU64::V14 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum StepsI64 { V0 = 0xfe, V1, V2, V3 = 0xfffe, V4, V5, V6 = 0xfffffffe, V7, V8, V9 = 0x7ffffffffffffffd, V10, V11 }
derived!(steps_i64 [] [] StepsI64, |v, o| match v { StepsI64::V0 => w(o, &[254, 0, 0, 0, 0, 0, 0, 0]), StepsI64::V1 => w(o, &[255, 0, 0, 0, 0, 0, 0, 0]), StepsI64::V2 => w(o, &[0, 1, 0, 0, 0, 0, 0, 0]), StepsI64::V3 => w(o, &[254, 255, 0, 0, 0, 0, 0, 0]), StepsI64::V4 => w(o, &[255, 255, 0, 0, 0, 0, 0, 0]), StepsI64::V5 => w(o, &[0, 0, 1, 0, 0, 0, 0, 0]), StepsI64::V6 => w(o, &[254, 255, 255, 255, 0, 0, 0, 0]), StepsI64::V7 => w(o, &[255, 255, 255, 255, 0, 0, 0, 0]), StepsI64::V8 => w(o, &[0, 0, 0, 0, 1, 0, 0, 0]), StepsI64::V9 => w(o, &[253, 255, 255, 255, 255, 255, 255, 127]), StepsI64::V10 => w(o, &[254, 255, 255, 255, 255, 255, 255, 127]), StepsI64::V11 => w(o, &[255, 255, 255, 255, 255, 255, 255, 127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(usize)]
pub enum StepsUsize { V0 = 0xfe, V1, V2, V3 = 0x7ffe, V4, V5, V6 = 0xfffd, V7, V8 }
derived!(steps_usize [] [] StepsUsize, |v, o| match v { StepsUsize::V0 => w(o, &[254, 0]), StepsUsize::V1 => w(o, &[255, 0]), StepsUsize::V2 => w(o, &[0, 1]), StepsUsize::V3 => w(o, &[254, 127]), StepsUsize::V4 => w(o, &[255, 127]), StepsUsize::V5 => w(o, &[0, 128]), StepsUsize::V6 => w(o, &[253, 255]), StepsUsize::V7 => w(o, &[254, 255]), StepsUsize::V8 => w(o, &[255, 255]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(isize)]
pub enum StepsIsize { V0 = 0xfe, V1, V2, V3 = 0x7ffd, V4, V5 }
derived!(steps_isize [] [] StepsIsize, |v, o| match v { StepsIsize::V0 => w(o, &[254, 0]), StepsIsize::V1 => w(o, &[255, 0]), StepsIsize::V2 => w(o, &[0, 1]), StepsIsize::V3 => w(o, &[253, 127]), StepsIsize::V4 => w(o, &[254, 127]), StepsIsize::V5 => w(o, &[255, 127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u16)]
pub enum Many { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
derived!(many [] [] Many, |v, o| match v { Many::V0 => w(o, &[0, 0]), Many::V1 => w(o, &[1, 0]), Many::V2 => w(o, &[2, 0]), Many::V3 => w(o, &[3, 0]), Many::V4 => w(o, &[4, 0]), Many::V5 => w(o, &[5, 0]), Many::V6 => w(o, &[6, 0]), Many::V7 => w(o, &[7, 0]), Many::V8 => w(o, &[8, 0]), Many::V9 => w(o, &[9, 0]), Many::V10 => w(o, &[10, 0]), Many::V11 => w(o, &[11, 0]), Many::V12 => w(o, &[12, 0]), Many::V13 => w(o, &[13, 0]), Many::V14 => w(o, &[14, 0]), Many::V15 => w(o, &[15, 0]), Many::V16 => w(o, &[16, 0]), Many::V17 => w(o, &[17, 0]), Many::V18 => w(o, &[18, 0]), Many::V19 => w(o, &[19, 0]), Many::V20 => w(o, &[20, 0]), Many::V21 => w(o, &[21, 0]), Many::V22 => w(o, &[22, 0]), Many::V23 => w(o, &[23, 0]), Many::V24 => w(o, &[24, 0]), Many::V25 => w(o, &[25, 0]), Many::V26 => w(o, &[26, 0]), Many::V27 => w(o, &[27, 0]), Many::V28 => w(o, &[28, 0]), Many::V29 => w(o, &[29, 0]), Many::V30 => w(o, &[30, 0]), Many::V31 => w(o, &[31, 0]), Many::V32 => w(o, &[32, 0]), Many::V33 => w(o, &[33, 0]), Many::V34 => w(o, &[34, 0]), Many::V35 => w(o, &[35, 0]), Many::V36 => w(o, &[36, 0]), Many::V37 => w(o, &[37, 0]), Many::V38 => w(o, &[38, 0]), Many::V39 => w(o, &[39, 0]), Many::V40 => w(o, &[40, 0]), Many::V41 => w(o, &[41, 0]), Many::V42 => w(o, &[42, 0]), Many::V43 => w(o, &[43, 0]), Many::V44 => w(o, &[44, 0]), Many::V45 => w(o, &[45, 0]), Many::V46 => w(o, &[46, 0]), Many::V47 => w(o, &[47, 0]), Many::V48 => w(o, &[48, 0]), Many::V49 => w(o, &[49, 0]), Many::V50 => w(o, &[50, 0]), Many::V51 => w(o, &[51, 0]), Many::V52 => w(o, &[52, 0]), Many::V53 => w(o, &[53, 0]), Many::V54 => w(o, &[54, 0]), Many::V55 => w(o, &[55, 0]), Many::V56 => w(o, &[56, 0]), Many::V57 => w(o, &[57, 0]), Many::V58 => w(o, &[58, 0]), Many::V59 => w(o, &[59, 0]), Many::V60 => w(o, &[60, 0]), Many::V61 => w(o, &[61, 0]), Many::V62 => w(o, &[62, 0]), Many::V63 => w(o, &[63, 0]), Many::V64 => w(o, &[64, 0]), Many::V65 => w(o, &[65, 0]), Many::V66 => w(o, &[66, 0]), Many::V67 => w(o, &[67, 0]), Many::V68 => w(o, &[68, 0]), Many::V69 => w(o, &[69, 0]), Many::V70 => w(o, &[70, 0]), Many::V71 => w(o, &[71, 0]), Many::V72 => w(o, &[72, 0]), Many::V73 => w(o, &[73, 0]), Many::V74 => w(o, &[74, 0]), Many::V75 => w(o, &[75, 0]), Many::V76 => w(o, &[76, 0]), Many::V77 => w(o, &[77, 0]), Many::V78 => w(o, &[78, 0]), Many::V79 => w(o, &[79, 0]), Many::V80 => w(o, &[80, 0]), Many::V81 => w(o, &[81, 0]), Many::V82 => w(o, &[82, 0]), Many::V83 => w(o, &[83, 0]), Many::V84 => w(o, &[84, 0]), Many::V85 => w(o, &[85, 0]), Many::V86 => w(o, &[86, 0]), Many::V87 => w(o, &[87, 0]), Many::V88 => w(o, &[88, 0]), Many::V89 => w(o, &[89, 0]), Many::V90 => w(o, &[90, 0]), Many::V91 => w(o, &[91, 0]), Many::V92 => w(o, &[92, 0]), Many::V93 => w(o, &[93, 0]), Many::V94 => w(o, &[94, 0]), Many::V95 => w(o, &[95, 0]), Many::V96 => w(o, &[96, 0]), Many::V97 => w(o, &[97, 0]), Many::V98 => w(o, &[98, 0]), Many::V99 => w(o, &[99, 0]), Many::V100 => w(o, &[100, 0]), Many::V101 => w(o, &[101, 0]), Many::V102 => w(o, &[102, 0]), Many::V103 => w(o, &[103, 0]), Many::V104 => w(o, &[104, 0]), Many::V105 => w(o, &[105, 0]), Many::V106 => w(o, &[106, 0]), Many::V107 => w(o, &[107, 0]), Many::V108 => w(o, &[108, 0]), Many::V109 => w(o, &[109, 0]), Many::V110 => w(o, &[110, 0]), Many::V111 => w(o, &[111, 0]), Many::V112 => w(o, &[112, 0]), Many::V113 => w(o, &[113, 0]), Many::V114 => w(o, &[114, 0]), Many::V115 => w(o, &[115, 0]), Many::V116 => w(o, &[116, 0]), Many::V117 => w(o, &[117, 0]), Many::V118 => w(o, &[118, 0]), Many::V119 => w(o, &[119, 0]), Many::V120 => w(o, &[120, 0]), Many::V121 => w(o, &[121, 0]), Many::V122 => w(o, &[122, 0]), Many::V123 => w(o, &[123, 0]), Many::V124 => w(o, &[124, 0]), Many::V125 => w(o, &[125, 0]), Many::V126 => w(o, &[126, 0]), Many::V127 => w(o, &[127, 0]), Many::V128 => w(o, &[128, 0]), Many::V129 => w(o, &[129, 0]), Many::V130 => w(o, &[130, 0]), Many::V131 => w(o, &[131, 0]), Many::V132 => w(o, &[132, 0]), Many::V133 => w(o, &[133, 0]), Many::V134 => w(o, &[134, 0]), Many::V135 => w(o, &[135, 0]), Many::V136 => w(o, &[136, 0]), Many::V137 => w(o, &[137, 0]), Many::V138 => w(o, &[138, 0]), Many::V139 => w(o, &[139, 0]), Many::V140 => w(o, &[140, 0]), Many::V141 => w(o, &[141, 0]), Many::V142 => w(o, &[142, 0]), Many::V143 => w(o, &[143, 0]), Many::V144 => w(o, &[144, 0]), Many::V145 => w(o, &[145, 0]), Many::V146 => w(o, &[146, 0]), Many::V147 => w(o, &[147, 0]), Many::V148 => w(o, &[148, 0]), Many::V149 => w(o, &[149, 0]), Many::V150 => w(o, &[150, 0]), Many::V151 => w(o, &[151, 0]), Many::V152 => w(o, &[152, 0]), Many::V153 => w(o, &[153, 0]), Many::V154 => w(o, &[154, 0]), Many::V155 => w(o, &[155, 0]), Many::V156 => w(o, &[156, 0]), Many::V157 => w(o, &[157, 0]), Many::V158 => w(o, &[158, 0]), Many::V159 => w(o, &[159, 0]), Many::V160 => w(o, &[160, 0]), Many::V161 => w(o, &[161, 0]), Many::V162 => w(o, &[162, 0]), Many::V163 => w(o, &[163, 0]), Many::V164 => w(o, &[164, 0]), Many::V165 => w(o, &[165, 0]), Many::V166 => w(o, &[166, 0]), Many::V167 => w(o, &[167, 0]), Many::V168 => w(o, &[168, 0]), Many::V169 => w(o, &[169, 0]), Many::V170 => w(o, &[170, 0]), Many::V171 => w(o, &[171, 0]), Many::V172 => w(o, &[172, 0]), Many::V173 => w(o, &[173, 0]), Many::V174 => w(o, &[174, 0]), Many::V175 => w(o, &[175, 0]), Many::V176 => w(o, &[176, 0]), Many::V177 => w(o, &[177, 0]), Many::V178 => w(o, &[178, 0]), Many::V179 => w(o, &[179, 0]), Many::V180 => w(o, &[180, 0]), Many::V181 => w(o, &[181, 0]), Many::V182 => w(o, &[182, 0]), Many::V183 => w(o, &[183, 0]), Many::V184 => w(o, &[184, 0]), Many::V185 => w(o, &[185, 0]), Many::V186 => w(o, &[186, 0]), Many::V187 => w(o, &[187, 0]), Many::V188 => w(o, &[188, 0]), Many::V189 => w(o, &[189, 0]), Many::V190 => w(o, &[190, 0]), Many::V191 => w(o, &[191, 0]), Many::V192 => w(o, &[192, 0]), Many::V193 => w(o, &[193, 0]), Many::V194 => w(o, &[194, 0]), Many::V195 => w(o, &[195, 0]), Many::V196 => w(o, &[196, 0]), Many::V197 => w(o, &[197, 0]), Many::V198 => w(o, &[198, 0]), Many::V199 => w(o, &[199, 0]), Many::V200 => w(o, &[200, 0]), Many::V201 => w(o, &[201, 0]), Many::V202 => w(o, &[202, 0]), Many::V203 => w(o, &[203, 0]), Many::V204 => w(o, &[204, 0]), Many::V205 => w(o, &[205, 0]), Many::V206 => w(o, &[206, 0]), Many::V207 => w(o, &[207, 0]), Many::V208 => w(o, &[208, 0]), Many::V209 => w(o, &[209, 0]), Many::V210 => w(o, &[210, 0]), Many::V211 => w(o, &[211, 0]), Many::V212 => w(o, &[212, 0]), Many::V213 => w(o, &[213, 0]), Many::V214 => w(o, &[214, 0]), Many::V215 => w(o, &[215, 0]), Many::V216 => w(o, &[216, 0]), Many::V217 => w(o, &[217, 0]), Many::V218 => w(o, &[218, 0]), Many::V219 => w(o, &[219, 0]), Many::V220 => w(o, &[220, 0]), Many::V221 => w(o, &[221, 0]), Many::V222 => w(o, &[222, 0]), Many::V223 => w(o, &[223, 0]), Many::V224 => w(o, &[224, 0]), Many::V225 => w(o, &[225, 0]), Many::V226 => w(o, &[226, 0]), Many::V227 => w(o, &[227, 0]), Many::V228 => w(o, &[228, 0]), Many::V229 => w(o, &[229, 0]), Many::V230 => w(o, &[230, 0]), Many::V231 => w(o, &[231, 0]), Many::V232 => w(o, &[232, 0]), Many::V233 => w(o, &[233, 0]), Many::V234 => w(o, &[234, 0]), Many::V235 => w(o, &[235, 0]), Many::V236 => w(o, &[236, 0]), Many::V237 => w(o, &[237, 0]), Many::V238 => w(o, &[238, 0]), Many::V239 => w(o, &[239, 0]), Many::V240 => w(o, &[240, 0]), Many::V241 => w(o, &[241, 0]), Many::V242 => w(o, &[242, 0]), Many::V243 => w(o, &[243, 0]), Many::V244 => w(o, &[244, 0]), Many::V245 => w(o, &[245, 0]), Many::V246 => w(o, &[246, 0]), Many::V247 => w(o, &[247, 0]), Many::V248 => w(o, &[248, 0]), Many::V249 => w(o, &[249, 0]), Many::V250 => w(o, &[250, 0]), Many::V251 => w(o, &[251, 0]), Many::V252 => w(o, &[252, 0]), Many::V253 => w(o, &[253, 0]), Many::V254 => w(o, &[254, 0]), Many::V255 => w(o, &[255, 0]), Many::V256 => w(o, &[0, 1]), Many::V257 => w(o, &[1, 1]), Many::V258 => w(o, &[2, 1]), Many::V259 => w(o, &[3, 1]), Many::V260 => w(o, &[4, 1]), Many::V261 => w(o, &[5, 1]), Many::V262 => w(o, &[6, 1]), Many::V263 => w(o, &[7, 1]), Many::V264 => w(o, &[8, 1]), Many::V265 => w(o, &[9, 1]), Many::V266 => w(o, &[10, 1]), Many::V267 => w(o, &[11, 1]), Many::V268 => w(o, &[12, 1]), Many::V269 => w(o, &[13, 1]), Many::V270 => w(o, &[14, 1]), Many::V271 => w(o, &[15, 1]), Many::V272 => w(o, &[16, 1]), Many::V273 => w(o, &[17, 1]), Many::V274 => w(o, &[18, 1]), Many::V275 => w(o, &[19, 1]), Many::V276 => w(o, &[20, 1]), Many::V277 => w(o, &[21, 1]), Many::V278 => w(o, &[22, 1]), Many::V279 => w(o, &[23, 1]), Many::V280 => w(o, &[24, 1]), Many::V281 => w(o, &[25, 1]), Many::V282 => w(o, &[26, 1]), Many::V283 => w(o, &[27, 1]), Many::V284 => w(o, &[28, 1]), Many::V285 => w(o, &[29, 1]), Many::V286 => w(o, &[30, 1]), Many::V287 => w(o, &[31, 1]), Many::V288 => w(o, &[32, 1]), Many::V289 => w(o, &[33, 1]), Many::V290 => w(o, &[34, 1]), Many::V291 => w(o, &[35, 1]), Many::V292 => w(o, &[36, 1]), Many::V293 => w(o, &[37, 1]), Many::V294 => w(o, &[38, 1]), Many::V295 => w(o, &[39, 1]), Many::V296 => w(o, &[40, 1]), Many::V297 => w(o, &[41, 1]), Many::V298 => w(o, &[42, 1]), Many::V299 => w(o, &[43, 1]) });
// negative discriminants
#[derive(Encode, Decode, SizedEncode)]
#[repr(i8)]
pub enum NegI8 { V0 = -0x80, V1, V2, V3 = -0x21, V4, V5, V6 = -0x2, V7, V8, V9, V10 = 0x7f }
derived!(negi8 [] [] NegI8, |v, o| match v { NegI8::V0 => w(o, &[128]), NegI8::V1 => w(o, &[129]), NegI8::V2 => w(o, &[130]), NegI8::V3 => w(o, &[223]), NegI8::V4 => w(o, &[224]), NegI8::V5 => w(o, &[225]), NegI8::V6 => w(o, &[254]), NegI8::V7 => w(o, &[255]), NegI8::V8 => w(o, &[0]), NegI8::V9 => w(o, &[1]), NegI8::V10 => w(o, &[127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i16)]
pub enum NegI16 { V0 = -0x8000, V1, V2 = -0x101, V3, V4, V5 = -0x81, V6, V7, V8 = -0x2, V9, V10, V11 }
derived!(negi16 [] [] NegI16, |v, o| match v { NegI16::V0 => w(o, &[0, 128]), NegI16::V1 => w(o, &[1, 128]), NegI16::V2 => w(o, &[255, 254]), NegI16::V3 => w(o, &[0, 255]), NegI16::V4 => w(o, &[1, 255]), NegI16::V5 => w(o, &[127, 255]), NegI16::V6 => w(o, &[128, 255]), NegI16::V7 => w(o, &[129, 255]), NegI16::V8 => w(o, &[254, 255]), NegI16::V9 => w(o, &[255, 255]), NegI16::V10 => w(o, &[0, 0]), NegI16::V11 => w(o, &[1, 0]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i32)]
pub enum NegI32 { V0 = -0x80000000, V1, V2 = -0x10001, V3, V4, V5 = -0x101, V6, V7, V8 = -0x2, V9, V10, V11 }
derived!(negi32 [] [] NegI32, |v, o| match v { NegI32::V0 => w(o, &[0, 0, 0, 128]), NegI32::V1 => w(o, &[1, 0, 0, 128]), NegI32::V2 => w(o, &[255, 255, 254, 255]), NegI32::V3 => w(o, &[0, 0, 255, 255]), NegI32::V4 => w(o, &[1, 0, 255, 255]), NegI32::V5 => w(o, &[255, 254, 255, 255]), NegI32::V6 => w(o, &[0, 255, 255, 255]), NegI32::V7 => w(o, &[1, 255, 255, 255]), NegI32::V8 => w(o, &[254, 255, 255, 255]), NegI32::V9 => w(o, &[255, 255, 255, 255]), NegI32::V10 => w(o, &[0, 0, 0, 0]), NegI32::V11 => w(o, &[1, 0, 0, 0]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i64)]
pub enum NegI64 { V0 = -0x8000000000000000, V1, V2 = -0x100000001, V3, V4, V5 = -0x101, V6, V7, V8 = -0x2, V9, V10, V11 }
derived!(negi64 [] [] NegI64, |v, o| match v { NegI64::V0 => w(o, &[0, 0, 0, 0, 0, 0, 0, 128]), NegI64::V1 => w(o, &[1, 0, 0, 0, 0, 0, 0, 128]), NegI64::V2 => w(o, &[255, 255, 255, 255, 254, 255, 255, 255]), NegI64::V3 => w(o, &[0, 0, 0, 0, 255, 255, 255, 255]), NegI64::V4 => w(o, &[1, 0, 0, 0, 255, 255, 255, 255]), NegI64::V5 => w(o, &[255, 254, 255, 255, 255, 255, 255, 255]), NegI64::V6 => w(o, &[0, 255, 255, 255, 255, 255, 255, 255]), NegI64::V7 => w(o, &[1, 255, 255, 255, 255, 255, 255, 255]), NegI64::V8 => w(o, &[254, 255, 255, 255, 255, 255, 255, 255]), NegI64::V9 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255]), NegI64::V10 => w(o, &[0, 0, 0, 0, 0, 0, 0, 0]), NegI64::V11 => w(o, &[1, 0, 0, 0, 0, 0, 0, 0]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(isize)]
pub enum NegIsize { V0 = -0x8000, V1, V2 = -0x101, V3, V4, V5 = -0x2, V6, V7, V8 }
derived!(negisize [] [] NegIsize, |v, o| match v { NegIsize::V0 => w(o, &[0, 128]), NegIsize::V1 => w(o, &[1, 128]), NegIsize::V2 => w(o, &[255, 254]), NegIsize::V3 => w(o, &[0, 255]), NegIsize::V4 => w(o, &[1, 255]), NegIsize::V5 => w(o, &[254, 255]), NegIsize::V6 => w(o, &[255, 255]), NegIsize::V7 => w(o, &[0, 0]), NegIsize::V8 => w(o, &[1, 0]) });
#[derive(Encode, Decode, SizedEncode)]
pub enum NegDefault { V0 = 0x5, V1, V2 = -0x101, V3, V4, V5 = -0x2, V6, V7, V8 }
derived!(negdefault [] [] NegDefault, |v, o| match v { NegDefault::V0 => w(o, &[5, 0]), NegDefault::V1 => w(o, &[6, 0]), NegDefault::V2 => w(o, &[255, 254]), NegDefault::V3 => w(o, &[0, 255]), NegDefault::V4 => w(o, &[1, 255]), NegDefault::V5 => w(o, &[254, 255]), NegDefault::V6 => w(o, &[255, 255]), NegDefault::V7 => w(o, &[0, 0]), NegDefault::V8 => w(o, &[1, 0]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(i128)]
pub enum NegI128 { V0 = -0x80000000000000000000000000000000, V1, V2 = -0x10000000000000001, V3, V4, V5 = -0x2, V6, V7, V8, V9 = 0x7ffffffffffffffffffffffffffffffe, V10 }
derived!(negi128 [] [] NegI128, |v, o| match v { NegI128::V0 => w(o, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128]), NegI128::V1 => w(o, &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128]), NegI128::V2 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255]), NegI128::V3 => w(o, &[0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255]), NegI128::V4 => w(o, &[1, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255]), NegI128::V5 => w(o, &[254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]), NegI128::V6 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]), NegI128::V7 => w(o, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), NegI128::V8 => w(o, &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), NegI128::V9 => w(o, &[254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127]), NegI128::V10 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127]) });
#[derive(Encode, Decode, SizedEncode)]
#[repr(u128)]
pub enum StepsU128 { V0 = 0xfe, V1, V2, V3 = 0xfffffffffffffffe, V4, V5, V6 = 0x7fffffffffffffffffffffffffffffff, V7, V8, V9 = 0xfffffffffffffffffffffffffffffffe, V10 }
derived!(stepsu128 [] [] StepsU128, |v, o| match v { StepsU128::V0 => w(o, &[254, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), StepsU128::V1 => w(o, &[255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), StepsU128::V2 => w(o, &[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), StepsU128::V3 => w(o, &[254, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0]), StepsU128::V4 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0]), StepsU128::V5 => w(o, &[0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0]), StepsU128::V6 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127]), StepsU128::V7 => w(o, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128]), StepsU128::V8 => w(o, &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128]), StepsU128::V9 => w(o, &[254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]), StepsU128::V10 => w(o, &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255]) });

#[derive(Encode, Decode, SizedEncode)]
pub struct Long { pub f0: u8, pub f1: u16, pub f2: u32, pub f3: bool, pub f4: u8, pub f5: u16, pub f6: u32, pub f7: bool, pub f8: u8, pub f9: u16, pub f10: u32, pub f11: bool, pub f12: u8, pub f13: u16, pub f14: u32, pub f15: bool, pub f16: u8, pub f17: u16, pub f18: u32, pub f19: bool, pub f20: u8, pub f21: u16, pub f22: u32, pub f23: bool, pub f24: u8, pub f25: u16, pub f26: u32, pub f27: bool, pub f28: u8, pub f29: u16, pub f30: u32, pub f31: bool, pub f32: u8, pub f33: u16 }
derived!(long [] [] Long, |v, o| { w(o, &[v.f0]); w(o, &v.f1.to_le_bytes()); w(o, &v.f2.to_le_bytes()); w(o, &[if v.f3 { 1 } else { 0 }]); w(o, &[v.f4]); w(o, &v.f5.to_le_bytes()); w(o, &v.f6.to_le_bytes()); w(o, &[if v.f7 { 1 } else { 0 }]); w(o, &[v.f8]); w(o, &v.f9.to_le_bytes()); w(o, &v.f10.to_le_bytes()); w(o, &[if v.f11 { 1 } else { 0 }]); w(o, &[v.f12]); w(o, &v.f13.to_le_bytes()); w(o, &v.f14.to_le_bytes()); w(o, &[if v.f15 { 1 } else { 0 }]); w(o, &[v.f16]); w(o, &v.f17.to_le_bytes()); w(o, &v.f18.to_le_bytes()); w(o, &[if v.f19 { 1 } else { 0 }]); w(o, &[v.f20]); w(o, &v.f21.to_le_bytes()); w(o, &v.f22.to_le_bytes()); w(o, &[if v.f23 { 1 } else { 0 }]); w(o, &[v.f24]); w(o, &v.f25.to_le_bytes()); w(o, &v.f26.to_le_bytes()); w(o, &[if v.f27 { 1 } else { 0 }]); w(o, &[v.f28]); w(o, &v.f29.to_le_bytes()); w(o, &v.f30.to_le_bytes()); w(o, &[if v.f31 { 1 } else { 0 }]); w(o, &[v.f32]); w(o, &v.f33.to_le_bytes()); });
#[derive(Encode, Decode, SizedEncode)]
pub struct LongTuple(pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16, pub u32, pub bool, pub u8, pub u16);
derived!(long_tuple [] [] LongTuple, |v, o| { w(o, &[v.0]); w(o, &v.1.to_le_bytes()); w(o, &v.2.to_le_bytes()); w(o, &[if v.3 { 1 } else { 0 }]); w(o, &[v.4]); w(o, &v.5.to_le_bytes()); w(o, &v.6.to_le_bytes()); w(o, &[if v.7 { 1 } else { 0 }]); w(o, &[v.8]); w(o, &v.9.to_le_bytes()); w(o, &v.10.to_le_bytes()); w(o, &[if v.11 { 1 } else { 0 }]); w(o, &[v.12]); w(o, &v.13.to_le_bytes()); w(o, &v.14.to_le_bytes()); w(o, &[if v.15 { 1 } else { 0 }]); w(o, &[v.16]); w(o, &v.17.to_le_bytes()); w(o, &v.18.to_le_bytes()); w(o, &[if v.19 { 1 } else { 0 }]); w(o, &[v.20]); w(o, &v.21.to_le_bytes()); w(o, &v.22.to_le_bytes()); w(o, &[if v.23 { 1 } else { 0 }]); w(o, &[v.24]); w(o, &v.25.to_le_bytes()); w(o, &v.26.to_le_bytes()); w(o, &[if v.27 { 1 } else { 0 }]); w(o, &[v.28]); w(o, &v.29.to_le_bytes()); w(o, &v.30.to_le_bytes()); w(o, &[if v.31 { 1 } else { 0 }]); w(o, &[v.32]); w(o, &v.33.to_le_bytes()); });
#[derive(Encode, Decode, SizedEncode)]
pub enum LongEnum { A, B(u8, u16, u32, bool, u8, u16, u32, bool, u8, u16, u32, bool, u8, u16, u32, bool, u8, u16, u32, bool), C { f0: u8, f1: u16, f2: u32, f3: bool, f4: u8, f5: u16, f6: u32, f7: bool, f8: u8, f9: u16, f10: u32, f11: bool, f12: u8, f13: u16, f14: u32, f15: bool, f16: u8, f17: u16, f18: u32 } }
derived!(long_enum [] [] LongEnum, |v, o| match v { LongEnum::A => w(o, &[0, 0]), LongEnum::B(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19) => { w(o, &[1, 0]); w(o, &[*f0]); w(o, &f1.to_le_bytes()); w(o, &f2.to_le_bytes()); w(o, &[if *f3 { 1 } else { 0 }]); w(o, &[*f4]); w(o, &f5.to_le_bytes()); w(o, &f6.to_le_bytes()); w(o, &[if *f7 { 1 } else { 0 }]); w(o, &[*f8]); w(o, &f9.to_le_bytes()); w(o, &f10.to_le_bytes()); w(o, &[if *f11 { 1 } else { 0 }]); w(o, &[*f12]); w(o, &f13.to_le_bytes()); w(o, &f14.to_le_bytes()); w(o, &[if *f15 { 1 } else { 0 }]); w(o, &[*f16]); w(o, &f17.to_le_bytes()); w(o, &f18.to_le_bytes()); w(o, &[if *f19 { 1 } else { 0 }]); } LongEnum::C { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18 } => { w(o, &[2, 0]); w(o, &[*f0]); w(o, &f1.to_le_bytes()); w(o, &f2.to_le_bytes()); w(o, &[if *f3 { 1 } else { 0 }]); w(o, &[*f4]); w(o, &f5.to_le_bytes()); w(o, &f6.to_le_bytes()); w(o, &[if *f7 { 1 } else { 0 }]); w(o, &[*f8]); w(o, &f9.to_le_bytes()); w(o, &f10.to_le_bytes()); w(o, &[if *f11 { 1 } else { 0 }]); w(o, &[*f12]); w(o, &f13.to_le_bytes()); w(o, &f14.to_le_bytes()); w(o, &[if *f15 { 1 } else { 0 }]); w(o, &[*f16]); w(o, &f17.to_le_bytes()); w(o, &f18.to_le_bytes()); } });
