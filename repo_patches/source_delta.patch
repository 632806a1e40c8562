From ece63adc8c7a126fa8c30b535a43712372f86208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 1/8] fix: report external memory faults while checking concat
 key hashes instead of panicking

The key slice is read for the second time to be hashed, and an external memory
can fail on this read although the decoder has just passed these positions.
---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From d8b23cb31a7424ba6a1e4c746ea03705b2089ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 2/8] fix: keep both halves of the last u64 element in 32bit
 bit sequence patch

Dropping the second (Lsb0) or the first (Msb0) half of the last element when
the first half was zero lost or shifted bits, or caused a panic in split_off.
---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From 0e94669777e1db718d986188bd0ecbc57eaca978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 3/8] verification hook: expose 32bit bit sequence patch under
 cfg(substrate_parser_verif)

---
 src/decoding_sci.rs | 65 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..fde0c28 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1,8 +1,9 @@
 //! Decode types and calls using metadata with in-built type descriptors.
-#[cfg(any(target_pointer_width = "32", test))]
+#![allow(unexpected_cfgs)] // `substrate_parser_verif` guards verification hooks
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 use bitvec::prelude::BitOrder;
 use bitvec::prelude::{BitVec, Lsb0, Msb0};
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 use external_memory_tools::BufferError;
 use external_memory_tools::{AddressableBuffer, ExternalMemory};
 use num_bigint::{BigInt, BigUint};
@@ -906,18 +907,18 @@ pub struct BitVecPositions {
     bitvec_start: usize,
 
     /// Data start position, after bit length compact, for patch only.
-    #[cfg(any(target_pointer_width = "32", test))]
+    #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
     data_start: usize,
 
     /// Encoded `BitVec` end position.
     pub bitvec_end: usize,
 
     /// Number of bits in `BitVec`, for patch only.
-    #[cfg(any(target_pointer_width = "32", test))]
+    #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
     bit_length: usize,
 
     /// Number of `BitStore`-sized elements in `BitVec`, for patch only.
-    #[cfg(any(target_pointer_width = "32", test))]
+    #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
     number_of_elements: usize,
 
     /// Minimal encoded data length.
@@ -964,12 +965,12 @@ impl BitVecPositions {
 
         Ok(Self {
             bitvec_start,
-            #[cfg(any(target_pointer_width = "32", test))]
+            #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
             data_start,
             bitvec_end,
-            #[cfg(any(target_pointer_width = "32", test))]
+            #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
             bit_length,
-            #[cfg(any(target_pointer_width = "32", test))]
+            #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
             number_of_elements,
             minimal_length,
         })
@@ -1000,7 +1001,7 @@ where
 }
 
 /// Provide patch for `BitVec` with `u64` `BitStore` in 32bit targets.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 trait Patched: BitOrder + Sized {
     fn patch_bitvec_u64<B, E>(
         data: &B,
@@ -1013,15 +1014,15 @@ trait Patched: BitOrder + Sized {
 }
 
 /// Bytes in each individual element of `BitVec`, for u64.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 const BYTES_PER_ELEMENT_U64: usize = 8;
 
 /// Bytes in each individual element of `BitVec`, for u32.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 const BYTES_PER_ELEMENT_U32: usize = 4;
 
 /// Implement `Patched` for available `BitOrder` types.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 macro_rules! impl_patched {
     ($($bitorder: ty, $reform_vec_fn: ident), *) => {
         $(
@@ -1073,7 +1074,7 @@ macro_rules! impl_patched {
 }
 
 /// Re-arrange SCALE-encoded data for 64bit `Lsb0` bitvecs.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
     for element in data_chunked.iter() {
@@ -1094,7 +1095,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 }
 
 /// Re-arrange SCALE-encoded data for 64bit `Msb0` bitvecs.
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
     for x in data_chunked.iter() {
@@ -1116,12 +1117,44 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     data_reformed
 }
 
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 impl_patched!(Lsb0, reform_vec_lsb0);
 
-#[cfg(any(target_pointer_width = "32", test))]
+#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 impl_patched!(Msb0, reform_vec_msb0);
 
+/// Access to the 32bit `BitVec` patch on any target, for verification only.
+#[cfg(substrate_parser_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// 32bit patch for `BitVec<u64, Lsb0>`.
+    pub fn patched_lsb0<B, E>(
+        data: &B,
+        ext_memory: &mut E,
+        position: &mut usize,
+    ) -> Result<BitVec<u32, Lsb0>, ParserError<E>>
+    where
+        B: AddressableBuffer<E>,
+        E: ExternalMemory,
+    {
+        Lsb0::patch_bitvec_u64::<B, E>(data, ext_memory, position)
+    }
+
+    /// 32bit patch for `BitVec<u64, Msb0>`.
+    pub fn patched_msb0<B, E>(
+        data: &B,
+        ext_memory: &mut E,
+        position: &mut usize,
+    ) -> Result<BitVec<u32, Msb0>, ParserError<E>>
+    where
+        B: AddressableBuffer<E>,
+        E: ExternalMemory,
+    {
+        Msb0::patch_bitvec_u64::<B, E>(data, ext_memory, position)
+    }
+}
+
 /// Type of set element, resolved as completely as possible.
 ///
 /// Elements in set (vector or array) could have complex solvable descriptions.
-- 
2.43.0


From 629e37b51c17904a80718c816b4a755a58520a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 4/8] fix: do not read a byte array inside compact as
 multisignature content

---
 src/special_indicators.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index 743081f..9e5b289 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -279,6 +279,10 @@ impl SignatureIndicator {
         if let Ok(husked_field_ty) =
             husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new())
         {
+            // an array could not be compact, do not skip compacts
+            if husked_field_ty.checker.reject_compact().is_err() {
+                return Self::None;
+            }
             // check here that the underlying type is really `[u8; LEN]` array
             let array_u8_length = match husked_field_ty.ty.type_def {
                 TypeDef::Array(signature_array_ty) => {
-- 
2.43.0


From 6bb6a8608d3aec971a4452e7c7755299ee0990bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 5/8] fix: announced call length that exceeds usize on 32bit
 targets is an error, not an overflow

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b74f580..41172e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,7 +581,9 @@ where
         let mut call_start: usize = 0;
         let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
             .map_err(|_| SignableError::CutSignable)? as usize;
-        let extensions_start = call_start + call_length;
+        let extensions_start = call_start
+            .checked_add(call_length)
+            .ok_or(SignableError::CutSignable)?;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
                 data,
-- 
2.43.0


From 38940c202e171b7189f9bfb8db65383c6a569f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 6/8] fix: announced extrinsic length that exceeds usize on
 32bit targets is an error, not an overflow

---
 src/unchecked_extrinsic.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..33cfe93 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -90,19 +90,21 @@ where
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
         .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    // sum could exceed `usize` only on 32bit targets, and is past the data end then
+    let extrinsic_end = extrinsic_start.saturating_add(extrinsic_length);
+    match extrinsic_end.cmp(&len) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_end - len,
                 },
             )))
         }
         Ordering::Less => {
             return Err(UncheckedExtrinsicError::Parsing(
                 ParserError::SomeDataNotUsedBlob {
-                    from: extrinsic_start + extrinsic_length,
+                    from: extrinsic_end,
                 },
             ))
         }
-- 
2.43.0


From cffa6540ad2f409672005264d63583a951fd8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:04 +0000
Subject: [PATCH 7/8] fix: announced text length that exceeds usize on 32bit
 targets is an error, not an overflow

---
 src/decoding_sci.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index fde0c28..ee227ea 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -3,9 +3,7 @@
 #[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
 use bitvec::prelude::BitOrder;
 use bitvec::prelude::{BitVec, Lsb0, Msb0};
-#[cfg(any(target_pointer_width = "32", test, substrate_parser_verif))]
-use external_memory_tools::BufferError;
-use external_memory_tools::{AddressableBuffer, ExternalMemory};
+use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
 use num_bigint::{BigInt, BigUint};
 use parity_scale_codec::DecodeAll;
 use primitive_types::{H160, H512};
@@ -134,6 +132,12 @@ where
     let found_compact = find_compact::<u32, B, E>(data, ext_memory, *position)?;
     let str_length = found_compact.compact as usize;
     let text_start = found_compact.start_next_unit;
+    let text_end = text_start
+        .checked_add(str_length)
+        .ok_or(ParserError::Buffer(BufferError::DataTooShort {
+            position: text_start,
+            minimal_length: str_length,
+        }))?;
     let into_string = data.read_slice(ext_memory, text_start, str_length)?;
     let text = match String::from_utf8(into_string.as_ref().to_vec()) {
         Ok(b) => b,
@@ -146,7 +150,7 @@ where
     };
     let specialty = hint.string();
     let out = ParsedData::Text { text, specialty };
-    *position = text_start + str_length;
+    *position = text_end;
     Ok(out)
 }
 
-- 
2.43.0


From 4c018c3f062631bc9350d8a70b6a0c0febb70736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:04 +0000
Subject: [PATCH 8/8] fix: bit sequence longer than a 32bit target can hold is
 an error, not a panic

---
 src/decoding_sci.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index ee227ea..15e52a9 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1066,7 +1066,11 @@ macro_rules! impl_patched {
 
                     let data_reformed = $reform_vec_fn(data_chunked);
 
-                    let mut bv_reformed = BitVec::<u32, $bitorder>::from_vec(data_reformed);
+                    let mut bv_reformed = BitVec::<u32, $bitorder>::try_from_vec(data_reformed)
+                        .map_err(|_| ParserError::TypeFailure {
+                            position: bitvec_positions.bitvec_start,
+                            ty: concat!("BitVec<u64, ", stringify!($bitorder), ">"),
+                        })?;
 
                     bv_reformed.split_off(bitvec_positions.bit_length);
 
-- 
2.43.0

