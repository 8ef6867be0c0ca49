From f299ff5bb0bb5b8c0bc578eb7b11506257678605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 01/28] fix: reject surrogate code points when decoding char

---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 6fc748d..b192e85 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -245,7 +245,7 @@ impl Decode for char {
 		let Ok(code_point) = u32::decode(input);
 
 		match code_point {
-			code_point @ (0x0000..=0xD7FF | 0xDE00..=0x10FFFF) => {
+			code_point @ (0x0000..=0xD7FF | 0xE000..=0x10FFFF) => {
 				let this = unsafe { Self::from_u32_unchecked(code_point) };
 				Result::Ok(this)
 			},
-- 
2.43.0


From d54ac53bbd6a52636ccd01f909f5d96e429e7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 02/28] fix: encode the length of hash maps and hash sets

---
 oct/src/encode/encode/mod.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index 37c61e4..aabda49 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -343,13 +343,23 @@ where
 	V: Encode<Error = E>,
 	S: BuildHasher,
 {
-	type Error = E;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for (key, value) in self {
-			key.encode(output)?;
-			value.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, (key, value)) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
+
+			value
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
@@ -363,12 +373,19 @@ where
 	K: Encode,
 	S: BuildHasher,
 {
-	type Error = K::Error;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, K::Error>>;
 
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
-		for key in self {
-			key.encode(output)?;
+		self
+			.len()
+			.encode(output)
+			.map_err(CollectionEncodeError::BadLength)?;
+
+		for (i, key) in self.iter().enumerate() {
+			key
+				.encode(output)
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 463be88e0998870dbac1b7ba0bf09948c519c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 03/28] fix: compute the maximum encoded size of Result from
 its encodings

---
 oct/src/encode/sized_encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 9aef887..6c60dab 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -232,7 +232,7 @@ where
 {
 	const MAX_ENCODED_SIZE: usize =
 		bool::MAX_ENCODED_SIZE
-		+ if size_of::<T>() > size_of::<E>() { size_of::<T>() } else { size_of::<E>() };
+		+ if T::MAX_ENCODED_SIZE > E::MAX_ENCODED_SIZE { T::MAX_ENCODED_SIZE } else { E::MAX_ENCODED_SIZE };
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 4ad847971faa67a5ff91d8c7bfc3551da90d19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 04/28] fix: count the length prefix in the maximum encoded
 size of SizedSlice

---
 oct/src/sized_slice/code.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 2df99a7..ac00c44 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -59,5 +59,7 @@ impl<T: Encode, const N: usize> Encode for SizedSlice<T, N> {
 }
 
 impl<T: SizedEncode, const N: usize> SizedEncode for SizedSlice<T, N> {
-	const MAX_ENCODED_SIZE: usize = T::MAX_ENCODED_SIZE * N;
+	const MAX_ENCODED_SIZE: usize =
+		usize::MAX_ENCODED_SIZE
+		+ T::MAX_ENCODED_SIZE * N;
 }
-- 
2.43.0


From bc5b1254114734791f8904185f9f5888690b4473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 05/28] fix: only decode as many items as SizedSlice has been
 encoded with

---
 oct/src/sized_slice/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index ac00c44..8595eab 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,7 +36,7 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate() {
+		for (i, slot) in buf.iter_mut().enumerate().take(len) {
 			let v = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-- 
2.43.0


From 926f966c37cf625aa3217889693cc5279b68ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 06/28] fix: bounds check SizedSlice::copy_from_slice

---
 oct/src/sized_slice/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index b0884b9..540c0da 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -77,11 +77,17 @@ pub struct SizedSlice<T, const N: usize> {
 
 impl<T, const N: usize> SizedSlice<T, N> {
 	/// Copies elements from a slice.
+	///
+	/// # Panics
+	///
+	/// This method will panic if the provided slice is longer than the capacity.
 	#[inline]
 	pub const fn copy_from_slice(&mut self, data: &[T])
 	where
 		T: Copy,
 	{
+		assert!(data.len() <= N, "cannot copy from slice that is longer than the capacity");
+
 		unsafe {
 			let src  = data.as_ptr();
 			let dst   = self.buf.as_mut_ptr().cast();
-- 
2.43.0


From 409f17f1a7ea412226b0d589db7f5ec3db073fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/28] fix: do not drop the array that SizedSlice has been
 created from

---
 oct/src/sized_slice/conv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index dad9071..f6bb2b9 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -23,7 +23,7 @@ use crate::SizedSlice;
 use crate::error::LengthError;
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::MaybeUninit;
+use core::mem::{ManuallyDrop, MaybeUninit};
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -194,6 +194,9 @@ impl<T, const N: usize> DerefMut for SizedSlice<T, N> {
 impl<T, const N: usize> From<[T; N]> for SizedSlice<T, N> {
 	#[inline(always)]
 	fn from(value: [T; N]) -> Self {
+		// The elements are moved out of `value`.
+		let value = ManuallyDrop::new(value);
+
 		unsafe {
 			let buf = value.as_ptr().cast::<[MaybeUninit<T>; N]>().read();
 
-- 
2.43.0


From d11d3f6618f4d717ecee0719ec3e807924660a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 08/28] fix: do not allocate zero-sized layouts in
 SizedSlice::into_boxed_slice

---
 oct/src/sized_slice/conv.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oct/src/sized_slice/conv.rs b/oct/src/sized_slice/conv.rs
index f6bb2b9..e2164a8 100644
--- a/oct/src/sized_slice/conv.rs
+++ b/oct/src/sized_slice/conv.rs
@@ -28,6 +28,9 @@ use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
 
+#[cfg(feature = "alloc")]
+use core::ptr::NonNull;
+
 #[cfg(feature = "alloc")]
 use alloc::alloc::{alloc, Layout};
 
@@ -121,7 +124,12 @@ impl<T, const N: usize> SizedSlice<T, N> {
 
 		unsafe {
 			let layout = Layout::array::<T>(len).unwrap();
-			let ptr = alloc(layout).cast::<T>();
+			let ptr = if layout.size() == 0x0 {
+				// Zero-sized layouts may not be allocated.
+				NonNull::<T>::dangling().as_ptr()
+			} else {
+				alloc(layout).cast::<T>()
+			};
 
 			assert!(!ptr.is_null(), "allocation failed");
 
-- 
2.43.0


From b16c3b78c6d8523075b99e451dadc3e2034927af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 09/28] fix: report the remaining length in
 SizedIter::size_hint

---
 oct/src/sized_iter/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oct/src/sized_iter/mod.rs b/oct/src/sized_iter/mod.rs
index 493e37c..dd7e511 100644
--- a/oct/src/sized_iter/mod.rs
+++ b/oct/src/sized_iter/mod.rs
@@ -176,8 +176,7 @@ impl<T, const N: usize> Iterator for SizedIter<T, N> {
 
 	#[inline(always)]
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let rem = unsafe { self.len.unchecked_sub(self.pos) };
-
-		(rem, Some(rem))
+		// `len` only counts the remaining elements.
+		(self.len, Some(self.len))
 	}
 }
-- 
2.43.0


From 8a3d302aa618b4bda3d421db38af554f2ad95d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 10/28] fix: only read the used part of Slot

---
 oct/src/slot/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/slot/mod.rs b/oct/src/slot/mod.rs
index 0acf598..4c96d82 100644
--- a/oct/src/slot/mod.rs
+++ b/oct/src/slot/mod.rs
@@ -296,7 +296,7 @@ impl<T: Decode> Slot<T> {
 		// We should only pass the used part of the slot to
 		// `decode`.
 
-		let mut stream = Input::new(&self.buf);
+		let mut stream = Input::new(self.as_slice());
 
 		let value = Decode::decode(&mut stream)?;
 		Ok(value)
-- 
2.43.0


From 4e0fc94c1b91da3953e89f5d9b7f66e2d6397a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 11/28] fix: hash SizedSlice as the slice that it borrows as

---
 oct/src/sized_slice/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oct/src/sized_slice/mod.rs b/oct/src/sized_slice/mod.rs
index 540c0da..bd00705 100644
--- a/oct/src/sized_slice/mod.rs
+++ b/oct/src/sized_slice/mod.rs
@@ -260,9 +260,7 @@ impl<T, const N: usize> Default for SizedSlice<T, N> {
 impl<T: Hash, const N: usize> Hash for SizedSlice<T, N> {
 	#[inline(always)]
 	fn hash<H: Hasher>(&self, state: &mut H) {
-		for v in self {
-			v.hash(state);
-		}
+		self.as_slice().hash(state)
 	}
 }
 
-- 
2.43.0


From 93695b34508da3d9e73d9567d8a9284660cad2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 12/28] fix: only convert uninhabited item errors into
 Infallible

---
 oct/src/error/item_decode_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/error/item_decode_error.rs b/oct/src/error/item_decode_error.rs
index 623369c..47766c2 100644
--- a/oct/src/error/item_decode_error.rs
+++ b/oct/src/error/item_decode_error.rs
@@ -58,7 +58,7 @@ where
 	}
 }
 
-impl<I, E> From<ItemDecodeError<I, E>> for Infallible {
+impl<I, E: Into<Self>> From<ItemDecodeError<I, E>> for Infallible {
 	#[inline(always)]
 	fn from(_value: ItemDecodeError<I, E>) -> Self {
 		unreachable!()
-- 
2.43.0


From d3a05499631e2f180de57fbb2b277a95feab0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 13/28] fix: do not read uninitialised octets in
 SizedStr::into_raw_parts

---
 oct/src/sized_str/conv.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oct/src/sized_str/conv.rs b/oct/src/sized_str/conv.rs
index 9ab9ff7..9db9265 100644
--- a/oct/src/sized_str/conv.rs
+++ b/oct/src/sized_str/conv.rs
@@ -23,7 +23,7 @@ use crate::{SizedSlice, SizedStr};
 use crate::error::{LengthError, StringError, Utf8Error};
 
 use core::borrow::{Borrow, BorrowMut};
-use core::mem::{ManuallyDrop, MaybeUninit};
+use core::mem::MaybeUninit;
 use core::ops::{Deref, DerefMut};
 use core::ptr::copy_nonoverlapping;
 use core::slice;
@@ -185,10 +185,12 @@ impl<const N: usize> SizedStr<N> {
 	#[must_use]
 	pub const fn into_raw_parts(self) -> ([u8; N], usize) {
 		let Self(vec) = self;
-		let (buf, len) = vec.into_raw_parts();
+		let (data, len) = vec.into_raw_parts();
 
-		let init_buf = ManuallyDrop::new(buf);
-		let buf = unsafe { (&raw const init_buf).cast::<[u8; N]>().read() };
+		// Only the first `len` octets are guaranteed to be
+		// initialised.
+		let mut buf = [0x00; N];
+		unsafe { copy_nonoverlapping(data.as_ptr().cast(), buf.as_mut_ptr(), len) };
 
 		(buf, len)
 	}
-- 
2.43.0


From b965a91fd6244142ac0c339ecda7066cdd34943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 14/28] fix: encode the minimum system time without overflowing

---
 oct/src/encode/encode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index aabda49..dcbeddf 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -817,7 +817,7 @@ impl Encode for SystemTime {
 				.duration_since(*self)
 				.expect("cannot compute duration until the epoch");
 
-			0x0 - duration.as_secs() as i64
+			(duration.as_secs() as i64).wrapping_neg()
 		};
 
 		time.encode(output)?;
-- 
2.43.0


From 0ea077d751b540afb9bc023633027e89c3b8375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 15/28] fix: zero-extend signed discriminants

---
 oct/src/primitive_discriminant/mod.rs | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oct/src/primitive_discriminant/mod.rs b/oct/src/primitive_discriminant/mod.rs
index ff4b75c..945750a 100644
--- a/oct/src/primitive_discriminant/mod.rs
+++ b/oct/src/primitive_discriminant/mod.rs
@@ -45,12 +45,12 @@ pub(crate) use sealed::PrimitiveDiscriminant as SealedPrimitiveDiscriminant;
 pub trait PrimitiveDiscriminant: Copy + SealedPrimitiveDiscriminant + Sized { }
 
 macro_rules! impl_primitive_discriminant {
-	($ty:ty) => {
+	($ty:ty, $unsigned_ty:ty) => {
 		impl ::oct::SealedPrimitiveDiscriminant for $ty {
 			#[allow(clippy::cast_lossless)]
 			#[inline(always)]
 			fn to_u128(self) -> u128 {
-				self as u128
+				self as $unsigned_ty as u128
 			}
 		}
 
@@ -58,15 +58,15 @@ macro_rules! impl_primitive_discriminant {
 	};
 }
 
-impl_primitive_discriminant!(u8);
-impl_primitive_discriminant!(i8);
-impl_primitive_discriminant!(u16);
-impl_primitive_discriminant!(i16);
-impl_primitive_discriminant!(u32);
-impl_primitive_discriminant!(i32);
-impl_primitive_discriminant!(u64);
-impl_primitive_discriminant!(i64);
-impl_primitive_discriminant!(u128);
-impl_primitive_discriminant!(i128);
-impl_primitive_discriminant!(usize);
-impl_primitive_discriminant!(isize);
+impl_primitive_discriminant!(u8, u8);
+impl_primitive_discriminant!(i8, u8);
+impl_primitive_discriminant!(u16, u16);
+impl_primitive_discriminant!(i16, u16);
+impl_primitive_discriminant!(u32, u32);
+impl_primitive_discriminant!(i32, u32);
+impl_primitive_discriminant!(u64, u64);
+impl_primitive_discriminant!(i64, u64);
+impl_primitive_discriminant!(u128, u128);
+impl_primitive_discriminant!(i128, u128);
+impl_primitive_discriminant!(usize, usize);
+impl_primitive_discriminant!(isize, usize);
-- 
2.43.0


From 5a5676eb9931ac7015611b6afe63d2b4ec5ba3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 16/28] fix: do not leak decoded items if Vec cannot be decoded

---
 oct/src/decode/decode/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index b192e85..f47f89a 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -787,19 +787,13 @@ impl<T: Decode> Decode for Vec<T> {
 
 		let mut this = Self::with_capacity(len);
 
-		let buf = this.as_mut_ptr();
 		for i in 0x0..len {
 			let value = Decode::decode(input)
 				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
 
-			// SAFETY: Each index is within bounds (i.e. capac-
-			// ity).
-			unsafe { buf.add(i).write(value) };
+			this.push(value);
 		}
 
-		// SAFETY: We have initialised the buffer.
-		unsafe { this.set_len(len); }
-
 		Result::Ok(this)
 	}
 }
-- 
2.43.0


From 6ab2f329efa2aa8c009e9f573c529a94a8b077b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 17/28] fix: do not leak decoded items if an array cannot be
 decoded

---
 oct/src/decode/decode/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index f47f89a..40ea4f1 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -132,11 +132,19 @@ impl<T: Decode, const N: usize> Decode for [T; N] {
 
  		let mut buf = [const { MaybeUninit::<T>::uninit() }; N];
 
-		for (i, item) in buf.iter_mut().enumerate() {
-			let value = Decode::decode(input)
-				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
+		for i in 0x0..N {
+			match Decode::decode(input) {
+				Ok(value) => { buf[i].write(value); }
+
+				Err(e) => {
+					for item in &mut buf[..i] {
+						// SAFETY: All previous items have been initialised.
+						unsafe { item.assume_init_drop() };
+					}
 
-			item.write(value);
+					return Err(CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }));
+				}
+			}
 		}
 
 		// SAFETY: This should be safe as `MaybeUninit<T>`
-- 
2.43.0


From 27eb0e89d35bde4edda66a83edde898f6a48e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 18/28] fix: do not leak decoded items if SizedSlice cannot be
 decoded

---
 oct/src/sized_slice/code.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/oct/src/sized_slice/code.rs b/oct/src/sized_slice/code.rs
index 8595eab..e19d372 100644
--- a/oct/src/sized_slice/code.rs
+++ b/oct/src/sized_slice/code.rs
@@ -36,11 +36,19 @@ impl<T: Decode, const N: usize> Decode for SizedSlice<T, N> {
 
 		let mut buf = [const { MaybeUninit::<T>::uninit() };N];
 
-		for (i, slot) in buf.iter_mut().enumerate().take(len) {
-			let v = Decode::decode(input)
-				.map_err(|e| CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }))?;
+		for i in 0x0..len {
+			match Decode::decode(input) {
+				Ok(v) => { buf[i].write(v); }
 
-			slot.write(v);
+				Err(e) => {
+					for slot in &mut buf[..i] {
+						// SAFETY: All previous items have been initialised.
+						unsafe { slot.assume_init_drop() };
+					}
+
+					return Err(CollectionDecodeError::BadItem(ItemDecodeError { index: i, error: e }));
+				}
+			}
 		}
 
 		Ok(Self { buf, len })
-- 
2.43.0


From ede3952ba8bb504f5294642f0cbe91599866e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 19/28] fix: do not require std for atomic codecs

---
 oct/src/decode/decode/mod.rs       | 22 +++++++++++-----------
 oct/src/encode/encode/mod.rs       | 24 ++++++++++++------------
 oct/src/encode/sized_encode/mod.rs | 22 +++++++++++-----------
 3 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index 40ea4f1..dccad87 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -1045,65 +1045,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index dcbeddf..f4c9d38 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -936,7 +936,7 @@ macro_rules! impl_atomic {
 			/// The atomic object itself is read with the [`Relaxed`](core::sync::atomic::Ordering) ordering scheme.
 			#[inline(always)]
 			fn encode(&self, output: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
-				use ::std::sync::atomic::Ordering;
+				use ::core::sync::atomic::Ordering;
 
 				self.load(Ordering::Relaxed).encode(output)
 			}
@@ -1085,65 +1085,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
diff --git a/oct/src/encode/sized_encode/mod.rs b/oct/src/encode/sized_encode/mod.rs
index 6c60dab..8f7eba0 100644
--- a/oct/src/encode/sized_encode/mod.rs
+++ b/oct/src/encode/sized_encode/mod.rs
@@ -468,65 +468,65 @@ impl_non_zero!(usize);
 impl_atomic! {
 	width: "8",
 	ty: bool,
-	atomic_ty: std::sync::atomic::AtomicBool,
+	atomic_ty: core::sync::atomic::AtomicBool,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: i16,
-	atomic_ty: std::sync::atomic::AtomicI16,
+	atomic_ty: core::sync::atomic::AtomicI16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: i32,
-	atomic_ty: std::sync::atomic::AtomicI32,
+	atomic_ty: core::sync::atomic::AtomicI32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: i64,
-	atomic_ty: std::sync::atomic::AtomicI64,
+	atomic_ty: core::sync::atomic::AtomicI64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: i8,
-	atomic_ty: std::sync::atomic::AtomicI8,
+	atomic_ty: core::sync::atomic::AtomicI8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: isize,
-	atomic_ty: std::sync::atomic::AtomicIsize,
+	atomic_ty: core::sync::atomic::AtomicIsize,
 }
 
 impl_atomic! {
 	width: "16",
 	ty: u16,
-	atomic_ty: std::sync::atomic::AtomicU16,
+	atomic_ty: core::sync::atomic::AtomicU16,
 }
 
 impl_atomic! {
 	width: "32",
 	ty: u32,
-	atomic_ty: std::sync::atomic::AtomicU32,
+	atomic_ty: core::sync::atomic::AtomicU32,
 }
 
 impl_atomic! {
 	width: "64",
 	ty: u64,
-	atomic_ty: std::sync::atomic::AtomicU64,
+	atomic_ty: core::sync::atomic::AtomicU64,
 }
 
 impl_atomic! {
 	width: "8",
 	ty: u8,
-	atomic_ty: std::sync::atomic::AtomicU8,
+	atomic_ty: core::sync::atomic::AtomicU8,
 }
 
 impl_atomic! {
 	width: "ptr",
 	ty: usize,
-	atomic_ty: std::sync::atomic::AtomicUsize,
+	atomic_ty: core::sync::atomic::AtomicUsize,
 }
-- 
2.43.0


From 25b966803af4fbed58cd71cd9e519af2ef53adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 20/28] fix: only use error types in the feature sets that
 define them

---
 oct/src/decode/decode/mod.rs          |  9 ++++++---
 oct/src/error/generic_decode_error.rs | 11 +++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index dccad87..a3648f0 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -24,15 +24,18 @@ mod tests;
 
 use crate::decode::{DecodeBorrowed, Input};
 use crate::error::{
-	CStringDecodeError,
 	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
-	SystemTimeDecodeError,
-	Utf8Error,
 };
 
+#[cfg(feature = "alloc")]
+use crate::error::{CStringDecodeError, Utf8Error};
+
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::cell::{Cell, RefCell};
 use core::convert::Infallible;
 use core::hash::Hash;
diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index f20129d..0a3c49d 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -28,12 +28,14 @@ use crate::error::{
 	NonZeroDecodeError,
 	LengthError,
 	Utf8Error,
-	SystemTimeDecodeError,
 };
 
 #[cfg(feature = "alloc")]
 use crate::error::CStringDecodeError;
 
+#[cfg(feature = "std")]
+use crate::error::SystemTimeDecodeError;
+
 use core::convert::Infallible;
 use core::error::Error;
 use core::fmt::{self, Display, Formatter};
@@ -51,8 +53,8 @@ pub enum GenericDecodeError {
 	BadString(Utf8Error),
 
 	/// A C-like string contained a null byte.
-	#[cfg(feature = "std")]
-	#[cfg_attr(doc, doc(cfg(feature = "std")))]
+	#[cfg(feature = "alloc")]
+	#[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 	NullString(CStringDecodeError),
 
 	/// A non-null integer was null.
@@ -82,6 +84,7 @@ impl Display for GenericDecodeError {
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e)
 			=> write!(f, "{e}"),
 
@@ -107,7 +110,7 @@ impl Error for GenericDecodeError {
 		match *self {
 			Self::BadString(ref e) => Some(e),
 
-			#[cfg(feature = "std")]
+			#[cfg(feature = "alloc")]
 			Self::NullString(ref e) => Some(e),
 
 			Self::NullInteger(ref e) => Some(e),
-- 
2.43.0


From f4dc9cdf7579985a4ea3303836cec7094cd271d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 21/28] fix: report linked list items with the same error as
 other collections

---
 oct/src/encode/encode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oct/src/encode/encode/mod.rs b/oct/src/encode/encode/mod.rs
index f4c9d38..d3d58bd 100644
--- a/oct/src/encode/encode/mod.rs
+++ b/oct/src/encode/encode/mod.rs
@@ -490,7 +490,7 @@ impl<T: Encode> Encode for LazyLock<T> {
 #[cfg(feature = "alloc")]
 #[cfg_attr(doc, doc(cfg(feature = "alloc")))]
 impl<T: Encode<Error = E>, E> Encode for LinkedList<T> {
-	type Error = CollectionEncodeError<UsizeEncodeError, (usize, E)>;
+	type Error = CollectionEncodeError<UsizeEncodeError, ItemEncodeError<usize, E>>;
 
 	#[inline(always)]
 	fn encode(&self, output: &mut Output) -> Result<(), Self::Error> {
@@ -502,7 +502,7 @@ impl<T: Encode<Error = E>, E> Encode for LinkedList<T> {
 		for (i, v) in self.iter().enumerate() {
 			v
 				.encode(output)
-				.map_err(|e| CollectionEncodeError::BadItem((i, e)))?;
+				.map_err(|e| CollectionEncodeError::BadItem(ItemEncodeError { index: i, error: e }))?;
 		}
 
 		Result::Ok(())
-- 
2.43.0


From 3e206e9f302b392d58d1a1c7d5966b76dd7577a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 22/28] fix: convert character errors into generic decode
 errors

---
 oct/src/error/generic_decode_error.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index 0a3c49d..faf6880 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -22,6 +22,7 @@
 use crate::PrimitiveDiscriminant;
 use crate::decode::Decode;
 use crate::error::{
+	CharDecodeError,
 	CollectionDecodeError,
 	EnumDecodeError,
 	ItemDecodeError,
@@ -49,6 +50,9 @@ use core::hint::unreachable_unchecked;
 #[must_use]
 #[non_exhaustive]
 pub enum GenericDecodeError {
+	/// A character was not a valid scalar value.
+	BadChar(CharDecodeError),
+
 	/// A string contained a non-UTF-8 sequence.
 	BadString(Utf8Error),
 
@@ -81,6 +85,9 @@ impl Display for GenericDecodeError {
 	#[inline]
 	fn fmt(&self, f: &mut Formatter) -> fmt::Result {
 		match *self {
+			Self::BadChar(ref e)
+			=> write!(f, "{e}"),
+
 			Self::BadString(ref e)
 			=> write!(f, "{e}"),
 
@@ -108,6 +115,8 @@ impl Error for GenericDecodeError {
 	#[inline]
 	fn source(&self) -> Option<&(dyn Error + 'static)> {
 		match *self {
+			Self::BadChar(ref e) => Some(e),
+
 			Self::BadString(ref e) => Some(e),
 
 			#[cfg(feature = "alloc")]
@@ -125,6 +134,13 @@ impl Error for GenericDecodeError {
 	}
 }
 
+impl From<CharDecodeError> for GenericDecodeError {
+	#[inline(always)]
+	fn from(value: CharDecodeError) -> Self {
+		Self::BadChar(value)
+	}
+}
+
 impl<L, I> From<CollectionDecodeError<L, I>> for GenericDecodeError
 where
 	L: Into<Self>,
-- 
2.43.0


From 06dfa3b8c6fc6a83e78daa94be8ac93d3609a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 23/28] fix: convert the errors of decoded results into generic
 decode errors

---
 oct/src/error/generic_decode_error.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/oct/src/error/generic_decode_error.rs b/oct/src/error/generic_decode_error.rs
index faf6880..42eac29 100644
--- a/oct/src/error/generic_decode_error.rs
+++ b/oct/src/error/generic_decode_error.rs
@@ -186,6 +186,23 @@ where
 	}
 }
 
+// `bool` is not a `PrimitiveDiscriminant` but is still
+// used as the sign of `Result`.
+impl<F: Into<Self>> From<EnumDecodeError<bool, F>> for GenericDecodeError {
+	#[inline(always)]
+	fn from(value: EnumDecodeError<bool, F>) -> Self {
+		use EnumDecodeError as Error;
+
+		match value {
+			Error::InvalidDiscriminant(e) => e.into(),
+
+			Error::UnassignedDiscriminant { value } => Self::UnassignedDiscriminant { value: value.into() },
+
+			Error::BadField(e) => e.into(),
+		}
+	}
+}
+
 impl From<Infallible> for GenericDecodeError {
 	#[inline(always)]
 	fn from(_value: Infallible) -> Self {
-- 
2.43.0


From e49706909c46cd29ab28c1227d177ed21e11f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 24/28] fix: convert reference cell errors into generic encode
 errors

---
 oct/src/error/generic_encode_error.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oct/src/error/generic_encode_error.rs b/oct/src/error/generic_encode_error.rs
index 67a3136..d348723 100644
--- a/oct/src/error/generic_encode_error.rs
+++ b/oct/src/error/generic_encode_error.rs
@@ -25,6 +25,7 @@ use crate::error::{
 	EnumEncodeError,
 	IsizeEncodeError,
 	ItemEncodeError,
+	RefCellEncodeError,
 	UsizeEncodeError,
 };
 
@@ -146,6 +147,19 @@ impl<I, E: Into<Self>> From<ItemEncodeError<I, E>> for GenericEncodeError {
 	}
 }
 
+impl<E: Into<Self>> From<RefCellEncodeError<E>> for GenericEncodeError {
+	#[inline(always)]
+	fn from(value: RefCellEncodeError<E>) -> Self {
+		use RefCellEncodeError as Error;
+
+		match value {
+			Error::BadBorrow(e) => e.into(),
+
+			Error::BadValue(e) => e.into(),
+		}
+	}
+}
+
 impl From<UsizeEncodeError> for GenericEncodeError {
 	#[inline(always)]
 	fn from(value: UsizeEncodeError) -> Self {
-- 
2.43.0


From c9da555c40aa77d46f85b6d30e8e10e802810645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 25/28] fix: decode Cow of unsized types

Cow<'_, str> and Cow<'_, [T]> could be encoded but not decoded, as the
implementation of Decode required the borrowed type to be sized.
---
 oct/src/decode/decode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/src/decode/decode/mod.rs b/oct/src/decode/decode/mod.rs
index a3648f0..9be66d7 100644
--- a/oct/src/decode/decode/mod.rs
+++ b/oct/src/decode/decode/mod.rs
@@ -271,7 +271,7 @@ impl Decode for char {
 impl<T, B> Decode for Cow<'_, B>
 where
 	T: DecodeBorrowed<B>,
-	B: ToOwned<Owned = T>,
+	B: ToOwned<Owned = T> + ?Sized,
 {
 	type Error = T::Error;
 
-- 
2.43.0


From 8ac1c91cb06eaa1fc0c74dfabc8fe5570cd54698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:01 +0000
Subject: [PATCH 26/28] fix: derive codecs for enumerations with negative or
 macro-provided discriminants

---
 oct-macros/src/discriminants/mod.rs | 66 +++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/oct-macros/src/discriminants/mod.rs b/oct-macros/src/discriminants/mod.rs
index 2c04e03..e637c6a 100644
--- a/oct-macros/src/discriminants/mod.rs
+++ b/oct-macros/src/discriminants/mod.rs
@@ -21,11 +21,13 @@
 
 use std::borrow::Borrow;
 use proc_macro2::Span;
-use syn::{Expr, Lit, LitInt, Variant};
+use syn::{Expr, Lit, LitInt, UnOp, Variant};
 
 pub struct Discriminants<I: IntoIterator<Item: Borrow<Variant>>> {
 	variants: I::IntoIter,
-	prev: Option<u128>,
+
+	// Sign (`true` if negative) and magnitude.
+	prev: Option<(bool, u128)>,
 }
 
 impl<I: IntoIterator<Item: Borrow<Variant>>> Discriminants<I> {
@@ -46,34 +48,62 @@ impl<I: IntoIterator<Item: Borrow<Variant>>> Iterator for Discriminants<I> {
 	fn next(&mut self) -> Option<Self::Item> {
 		let variant = self.variants.next()?;
 
-		let discriminant = if let Some((_, ref expr)) = variant.borrow().discriminant {
-			let Expr::Lit(ref expr) = *expr else {
-				panic!("expected literal expression for discriminant value");
+		let (negative, value) = if let Some((_, ref expr)) = variant.borrow().discriminant {
+			let mut negative = false;
+			let mut expr     = expr;
+
+			let expr = loop {
+				match *expr {
+					Expr::Lit(ref lit) => break lit,
+
+					// Fragments of other macros are wrapped in groups.
+					Expr::Group(ref group) => expr = &group.expr,
+					Expr::Paren(ref paren) => expr = &paren.expr,
+
+					Expr::Unary(ref unary) if matches!(unary.op, UnOp::Neg(_)) => {
+						negative = !negative;
+						expr     = &unary.expr;
+					}
+
+					_ => panic!("expected literal expression for discriminant value"),
+				}
 			};
 
 			let Lit::Int(ref expr) = expr.lit else {
 				panic!("expected (potentially signed) integer literal for discriminant value`");
 			};
 
-			let expr = expr.base10_digits();
+			let digits = expr.base10_digits();
 
-			let value: u128 = expr
-				.parse()
-				.or_else(|_| expr.parse::<i128>().map(|v| v as u128))
-				.unwrap();
+			let (negative, digits) = match digits.strip_prefix('-') {
+				Some(digits) => (!negative, digits),
+				None         => (negative, digits),
+			};
+
+			let value: u128 = digits.parse().unwrap();
 
-			value
-		} else if let Some(prev) = self.prev {
-			prev
-				.checked_add(0x1)
-				.unwrap_or_else(|| panic!("overflow following discriminant `{prev:?}`"))
+			(negative && value != 0x0, value)
 		} else {
-			Default::default()
+			match self.prev {
+				None => (false, 0x0),
+
+				Some((true, 0x1))   => (false, 0x0),
+				Some((true, value)) => (true, value - 0x1),
+
+				Some((false, value)) => {
+					let value = value
+						.checked_add(0x1)
+						.unwrap_or_else(|| panic!("overflow following discriminant `{value:?}`"));
+
+					(false, value)
+				}
+			}
 		};
 
-		self.prev = Some(discriminant);
+		self.prev = Some((negative, value));
 
-		let discriminant = LitInt::new(&discriminant.to_string(), Span::call_site());
+		let sign = if negative { "-" } else { "" };
+		let discriminant = LitInt::new(&format!("{sign}{value}"), Span::call_site());
 
 		Some(discriminant)
 	}
-- 
2.43.0


From 8ffb2204406858d4cc56fe737affb2a8a5f8b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:01 +0000
Subject: [PATCH 27/28] fix: derive codecs for enumerations with a variant
 named Error

---
 oct-macros/src/impls/decode_enum.rs | 2 +-
 oct-macros/src/impls/encode_enum.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oct-macros/src/impls/decode_enum.rs b/oct-macros/src/impls/decode_enum.rs
index 73087ac..a58cdc6 100644
--- a/oct-macros/src/impls/decode_enum.rs
+++ b/oct-macros/src/impls/decode_enum.rs
@@ -65,7 +65,7 @@ pub fn decode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 		type Error = ::oct::error::EnumDecodeError<#repr, ::oct::error::GenericDecodeError>;
 
 		#[inline]
-		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, Self::Error> {
+		fn decode(stream: &mut ::oct::decode::Input) -> ::core::result::Result<Self, <Self as ::oct::decode::Decode>::Error> {
 			let discriminant = <#repr as ::oct::decode::Decode>::decode(stream)
 				.map_err(::core::convert::Into::<::core::convert::Infallible>::into)
 				.map_err(::oct::error::EnumDecodeError::InvalidDiscriminant)?;
diff --git a/oct-macros/src/impls/encode_enum.rs b/oct-macros/src/impls/encode_enum.rs
index 63ebae3..c304916 100644
--- a/oct-macros/src/impls/encode_enum.rs
+++ b/oct-macros/src/impls/encode_enum.rs
@@ -70,7 +70,7 @@ pub fn encode_enum(data: DataEnum, repr: Repr) -> TokenStream {
 
 		#[allow(unreachable_patterns)]
 		#[inline]
-		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), Self::Error> {
+		fn encode(&self, stream: &mut ::oct::encode::Output) -> ::core::result::Result<(), <Self as ::oct::encode::Encode>::Error> {
 			match *self {
 				#(
 					#patterns => {
-- 
2.43.0


From 7ad513e36b3049dd29e08818e9e851526bd08dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:02 +0000
Subject: [PATCH 28/28] fix: derive codecs for types with default generic
 arguments

---
 oct-macros/src/impl_derive_macro.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oct-macros/src/impl_derive_macro.rs b/oct-macros/src/impl_derive_macro.rs
index 16cd014..be10cd1 100644
--- a/oct-macros/src/impl_derive_macro.rs
+++ b/oct-macros/src/impl_derive_macro.rs
@@ -63,13 +63,13 @@ where
 		Data::Union(..) => panic!("unions cannot derive `{trait_name:?}`"),
 	};
 
-	let generic_params = &input.generics.params;
-	let generic_where  = &input.generics.where_clause;
+	// Defaults of parameters may not be repeated.
+	let (generic_params, _, generic_where) = input.generics.split_for_impl();
 
 	let generic_names = GenericName::extract_from(&input.generics);
 
 	let output = quote! {
-		#unsafe_token impl<#generic_params> #trait_path for #self_name<#generic_names>
+		#unsafe_token impl #generic_params #trait_path for #self_name<#generic_names>
 		#generic_where
 		{
 			#body
-- 
2.43.0

