From a29517f3a5189010a57ee666a6c870ef5fffe6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 01/48] fix: wire: report an error instead of overflowing when
 skipping huge sequences

---
 crates/musli/src/wire/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..c99b870 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             remaining -= 1;
@@ -87,7 +87,11 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    let Some(sum) = remaining.checked_add(len) else {
+                        return Err(self.cx.message("Sequence length overflow"));
+                    };
+
+                    remaining = sum;
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From f2ef5f0e3fcb3deedfe2fa1c3dfa4a5f6ea7a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 02/48] fix: descriptive: report an error instead of
 overflowing when skipping huge containers

---
 crates/musli/src/descriptive/de.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..5897b11 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,7 +63,7 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
@@ -74,10 +74,18 @@ where
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        let Some(sum) = remaining.checked_add(2) else {
+                            return Err(self.cx.message("Variant nesting overflow"));
+                        };
+
+                        remaining = sum;
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        let Some(sum) = remaining.checked_add(1) else {
+                            return Err(self.cx.message("Option nesting overflow"));
+                        };
+
+                        remaining = sum;
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -95,11 +103,23 @@ where
                 }
                 Kind::Sequence => {
                     let len = self.decode_len(tag)?;
-                    remaining += len;
+                    let Some(sum) = remaining.checked_add(len) else {
+                        return Err(self.cx.message("Sequence length overflow"));
+                    };
+
+                    remaining = sum;
                 }
                 Kind::Map => {
                     let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+                    let sum = len
+                        .checked_mul(2)
+                        .and_then(|len| remaining.checked_add(len));
+
+                    let Some(sum) = sum else {
+                        return Err(self.cx.message("Map length overflow"));
+                    };
+
+                    remaining = sum;
                 }
                 kind => {
                     return Err(self
-- 
2.43.0


From a3383ea78e85d3c308b26bf2d523afd4085625f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 03/48] fix: descriptive: skip every remaining sequence
 element, not just the first

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 5897b11..b8d6317 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -218,7 +218,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From b1c18a8971763262245972241d52ae5c2111edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 04/48] fix: descriptive: decode_number must not consume the
 tag its delegates read

---
 crates/musli/src/descriptive/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index b8d6317..5160a5e 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -392,7 +392,10 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected tag in input"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From 8eaf34c12a82131b3192c13f0d5cc549985ca618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 05/48] fix: storage: hand over the remaining entry count in
 decode_remaining_entries

---
 crates/musli/src/storage/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..5780910 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{take, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -579,7 +579,7 @@ where
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            take(&mut self.remaining),
         ))
     }
 }
-- 
2.43.0


From 9bf6dcc8a1756b6230fc50ac4da75ea0c7bae38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 06/48] fix: wire: prefix fixed-width lengths with their actual
 size in bytes

---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 12a24efd5cc6aa822d88574b980e84c744651c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 07/48] fix: do not advance the position twice in the default
 Reader::read_array

---
 crates/musli/src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/musli/src/reader.rs b/crates/musli/src/reader.rs
index ac40301..56f0b05 100644
--- a/crates/musli/src/reader.rs
+++ b/crates/musli/src/reader.rs
@@ -150,9 +150,8 @@ pub trait Reader<'de>: self::sealed::Sealed {
             }
 
             #[inline]
-            fn visit_ref(mut self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
+            fn visit_ref(mut self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
                 self.0.copy_from_slice(bytes);
-                cx.advance(bytes.len());
                 Ok(self.0)
             }
         }
-- 
2.43.0


From c5369ef11b3f65602409b723b49d92ef426669e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 08/48] fix: reject variable-length integers whose high bits do
 not fit the target type

---
 crates/musli/src/int/continuation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..76a7dc5 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,16 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+
+        let bits = T::from_byte(b & MASK_BYTE);
+        let shifted = bits.wrapping_shl(shift);
+
+        // Any bits shifted out mean that the value doesn't fit in `T`.
+        if shifted >> shift != bits {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From 7648d04803084ba6591b4c2db424fb5d892ce525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/48] fix: only take the bitwise fast path when the byte
 order is native

---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..d744e6f 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>(),
+            byteorder::<OPT>(),
+        ),
+        (
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE,
+            ByteOrder::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From 7f9726870d738b0aeeeb8b5f788560a3fb3bf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 10/48] fix: json: report integer overflow when the last digit
 does not fit

---
 crates/musli/src/json/parser/integer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..dd8856b 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -525,7 +525,13 @@ where
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    let digit = T::from_byte(p.read_byte(cx)? - b'0');
+
+    let Some(out) = out.checked_add(digit) else {
+        return Err(cx.message_at(start, IntegerError::IntegerOverflow));
+    };
+
+    Ok(out)
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From 51b39c2001f6b3c62bd8e088b9437f7e85b1bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 11/48] fix: json: do not overflow on extreme negative
 exponents

---
 crates/musli/src/json/parser/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index dd8856b..9205311 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -126,7 +126,7 @@ where
     /// Compute as float with a negative exponent.
     #[inline]
     fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
+        self.value.pow10(e.saturating_sub(self.exp))
     }
 }
 
@@ -198,7 +198,7 @@ where
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
 
-- 
2.43.0


From 284039cec33bf66a38b22b6e0ee304888c88768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 12/48] fix: json: decode_array must not index past the end nor
 stall on extra elements

---
 crates/musli/src/json/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..c23585b 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
+                if index < N {
                     bytes[index] = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From 0f3f160d808df0e827649992cd6e0ee13d39ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 13/48] fix: slice allocator: a new header must not overlap the
 region it describes

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..fe64932 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -652,7 +652,7 @@ impl Internal {
 
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
+        if ptr < end.cast() || ptr >= self.free.end.cast() {
             return None;
         }
 
-- 
2.43.0


From 552b455741612dd10d84aeba6a7f80b2a5ce1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 14/48] fix: slice allocator: unlink a recycled header from the
 free list

---
 crates/musli/src/alloc/slice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index fe64932..ceba3fe 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -638,6 +638,8 @@ impl Internal {
         if let Some(region) = self.free_head.take() {
             let mut region = self.region(region);
 
+            self.free_head = region.next.take();
+            region.prev = None;
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From c5cd1ddb90c455b58df5206f510c16e6ae8dff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 15/48] fix: slice allocator: report capacity in elements and
 check the requested length

---
 crates/musli/src/alloc/slice.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index ceba3fe..50d0a80 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
@@ -317,7 +317,11 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        let Some(wanted) = len.checked_add(additional) else {
+            return Err(AllocError);
+        };
+
+        if wanted <= self.cap {
             return Ok(());
         }
 
-- 
2.43.0


From e5b972d5354eca465e60291982772e0f3fb7641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/48] fix: alloc: reset the length before dropping elements
 in Vec::clear

---
 crates/musli-core/src/alloc/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..536796b 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -311,9 +311,11 @@ where
     /// ```
     #[inline]
     pub fn clear(&mut self) {
-        // SAFETY: We know that the buffer is initialized up to `len`.
-        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), self.len)) }
-        self.len = 0;
+        let len = core::mem::take(&mut self.len);
+
+        // SAFETY: We know that the buffer is initialized up to `len`. The length
+        // has been reset, so no element is dropped again if one of them panics.
+        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), len)) }
     }
 
     /// Get the initialized part of the buffer as a slice.
-- 
2.43.0


From b039c42eb3aea0a38238476c642d6612430bbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 17/48] fix: FixedBytes::with_capacity must accept exactly N
 bytes

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 4c227c9..7af165b 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -36,7 +36,7 @@ impl<const N: usize> FixedBytes<N> {
     #[inline]
     pub fn with_capacity(capacity: usize) -> Self {
         assert!(
-            capacity < N,
+            capacity <= N,
             "Requested capacity {capacity} is larger than {N}"
         );
         Self::new()
-- 
2.43.0


From b309ced6ca1fd847c59a62d9c8a80492f150e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 18/48] fix: value: encode_empty must write the unit value

---
 crates/musli/src/value/en.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..8a46ae1 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,6 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
+        self.output.write(self.cx, Value::Unit)?;
         Ok(())
     }
 
-- 
2.43.0


From dcffff71736d28a0837a7e8efe770a0e7d5987c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 19/48] fix: value: reject floats which are not representable
 as the requested integer

---
 crates/musli/src/value/de.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 346fe35..2ca73b7 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -740,8 +740,18 @@ macro_rules! integer_from {
                     Number::I128(n) => Self::try_from(*n).ok(),
                     Number::Usize(n) => Self::try_from(*n).ok(),
                     Number::Isize(n) => Self::try_from(*n).ok(),
-                    Number::F32(v) => Some(*v as $ty),
-                    Number::F64(v) => Some(*v as $ty),
+                    Number::F32(v) => {
+                        let out = *v as $ty;
+                        // A maximum which has no exact float representation
+                        // can only be the result of saturation.
+                        let exact = <$ty>::BITS <= f32::MANTISSA_DIGITS || out != <$ty>::MAX;
+                        (exact && out as f32 == *v).then_some(out)
+                    }
+                    Number::F64(v) => {
+                        let out = *v as $ty;
+                        let exact = <$ty>::BITS <= f64::MANTISSA_DIGITS || out != <$ty>::MAX;
+                        (exact && out as f64 == *v).then_some(out)
+                    }
                 };
 
                 match out {
-- 
2.43.0


From fe431819134a8dddac51438fe3adddd4f066adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 20/48] fix: value: try_clone must keep decoding map keys as
 map keys

---
 crates/musli/src/value/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 2ca73b7..2d63505 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -126,7 +126,12 @@ where
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        Some(ValueDecoder::new(self.cx, self.value))
+        Some(ValueDecoder {
+            cx: self.cx,
+            value: self.value,
+            map_key: self.map_key,
+            _marker: PhantomData,
+        })
     }
 
     #[inline]
-- 
2.43.0


From 2d08e45c623bcbd7325fb1d82a890b248f0759ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 21/48] fix: value: do not trust the size hint of the input
 when allocating

---
 crates/musli/src/value/value.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/value.rs b/crates/musli/src/value/value.rs
index f13a642..b628ab6 100644
--- a/crates/musli/src/value/value.rs
+++ b/crates/musli/src/value/value.rs
@@ -399,7 +399,7 @@ where
         let cx = seq.cx();
 
         let mut out =
-            Vec::with_capacity_in(seq.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+            Vec::with_capacity_in(cautious(seq.size_hint()), cx.alloc()).map_err(cx.map())?;
 
         while let Some(item) = seq.try_next()? {
             out.push(item).map_err(cx.map())?;
@@ -416,7 +416,7 @@ where
         let cx = map.cx();
 
         let mut out =
-            Vec::with_capacity_in(map.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+            Vec::with_capacity_in(cautious(map.size_hint()), cx.alloc()).map_err(cx.map())?;
 
         while let Some(mut entry) = map.decode_entry()? {
             let first = entry.decode_key()?.decode()?;
@@ -450,6 +450,12 @@ where
     }
 }
 
+/// The number of elements to allocate up front for an untrusted size hint.
+#[inline]
+fn cautious(hint: SizeHint) -> usize {
+    hint.or_default().min(1024)
+}
+
 impl<'de, M, A> Decode<'de, M, A> for Value<A>
 where
     A: Allocator,
-- 
2.43.0


From 15a544c1b5545897deb0719f3732aa7cdb37134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 22/48] fix: AtomicBool must not be decoded bitwise

---
 crates/musli-core/src/impls/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 2c2554a..7fdf358 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -104,14 +104,14 @@ where
 }
 
 macro_rules! atomic_impl {
-    ($size:literal $(, $ty:ident)*) => {
+    ($size:literal $(, $ty:ident = $bitwise:literal)*) => {
         $(
             #[cfg(target_has_atomic = $size)]
             impl<'de, M, A> Decode<'de, M, A> for core::sync::atomic::$ty
             where
                 A: Allocator
             {
-                const IS_BITWISE_DECODE: bool = true;
+                const IS_BITWISE_DECODE: bool = $bitwise;
 
                 fn decode<D>(decoder: D) -> Result<Self, D::Error>
                 where
@@ -124,11 +124,12 @@ macro_rules! atomic_impl {
     };
 }
 
-atomic_impl!("8", AtomicBool, AtomicI8, AtomicU8);
-atomic_impl!("16", AtomicI16, AtomicU16);
-atomic_impl!("32", AtomicI32, AtomicU32);
-atomic_impl!("64", AtomicI64, AtomicU64);
-atomic_impl!("ptr", AtomicIsize, AtomicUsize);
+// Every bit pattern is not necessarily a valid boolean.
+atomic_impl!("8", AtomicBool = false, AtomicI8 = true, AtomicU8 = true);
+atomic_impl!("16", AtomicI16 = true, AtomicU16 = true);
+atomic_impl!("32", AtomicI32 = true, AtomicU32 = true);
+atomic_impl!("64", AtomicI64 = true, AtomicU64 = true);
+atomic_impl!("ptr", AtomicIsize = true, AtomicUsize = true);
 
 macro_rules! non_zero {
     ($ty:ty) => {
-- 
2.43.0


From 31cf768a126e89adcdfde7785a41b0229cabd83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 23/48] fix: decode OsString with decode_bytes, which is how it
 is encoded

---
 crates/musli-core/src/impls/alloc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..b9de36d 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,8 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+                    let bytes: Vec<u8> = DecodeBytes::decode_bytes(variant.decode_value()?)?;
+                    Ok(OsString::from_vec(bytes))
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From 241a53bbcbd3e71afccba8014d7247df8884ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 24/48] fix: decode RangeFull as the empty sequence it is
 encoded as

---
 crates/musli-core/src/impls/range.rs | 36 +++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/range.rs b/crates/musli-core/src/impls/range.rs
index 84004e8..791428f 100644
--- a/crates/musli-core/src/impls/range.rs
+++ b/crates/musli-core/src/impls/range.rs
@@ -96,7 +96,41 @@ macro_rules! implement_new {
     }
 }
 
-implement!(RangeFull {}, 0);
+impl<M> Encode<M> for RangeFull {
+    const IS_BITWISE_ENCODE: bool = false;
+
+    #[inline]
+    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
+    where
+        E: Encoder<Mode = M>,
+    {
+        encoder.encode_sequence_fn(0, |_| Ok(()))
+    }
+
+    type Encode = Self;
+
+    #[inline]
+    fn as_encode(&self) -> &Self::Encode {
+        self
+    }
+}
+
+impl<'de, M, A> Decode<'de, M, A> for RangeFull
+where
+    A: Allocator,
+{
+    const IS_BITWISE_DECODE: bool = false;
+
+    #[inline]
+    fn decode<D>(decoder: D) -> Result<Self, D::Error>
+    where
+        D: Decoder<'de, Mode = M, Allocator = A>,
+    {
+        // This is encoded as an empty sequence, rather than as a unit.
+        decoder.decode_sequence_hint(0, |_| Ok(RangeFull))
+    }
+}
+
 implement!(Range<T> { start, end }, 2);
 implement!(RangeFrom<T> { start }, 1);
 implement!(RangeTo<T> { end }, 1);
-- 
2.43.0


From 946304742d33d1b2b28d6d2e8f8df5063a445070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 25/48] fix: context: keep the path balanced when a key can't
 be formatted and reset it in clear

---
 crates/musli/src/context/trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..9bc7af5 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -267,6 +267,7 @@ where
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -407,6 +408,8 @@ where
     {
         if let Some(string) = self.format_string(alloc, field) {
             self.push_path(Step::Key(string));
+        } else {
+            self.cap.set(self.cap.get() + 1);
         }
     }
 
-- 
2.43.0


From 64f2916b174f6d09bbbed4d26d50e08e90530c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 26/48] fix: alloc: Box is only Send and Sync if its allocation
 is

---
 crates/musli-core/src/alloc/boxed.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli-core/src/alloc/boxed.rs b/crates/musli-core/src/alloc/boxed.rs
index ae8c1f2..0f7c380 100644
--- a/crates/musli-core/src/alloc/boxed.rs
+++ b/crates/musli-core/src/alloc/boxed.rs
@@ -67,12 +67,14 @@ unsafe impl<T, A> Send for Box<T, A>
 where
     T: Send,
     A: Allocator,
+    A::Alloc<T>: Send,
 {
 }
 unsafe impl<T, A> Sync for Box<T, A>
 where
     T: Sync,
     A: Allocator,
+    A::Alloc<T>: Sync,
 {
 }
 
-- 
2.43.0


From b0f47de73d00fa47691e0f01bd018c423c52c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 27/48] fix: zerocopy: offsets loaded from a buffer must not
 overflow bounds checks

---
 crates/musli-zerocopy/src/buf/buf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..30c97f1 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = offset.saturating_add(size_of::<T>());
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,9 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+
+        // NB: This must not overflow, since the offsets are not trusted.
+        let end = start.saturating_add(size_of::<T>());
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +877,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = offset.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +902,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
-- 
2.43.0


From fc4635638bd51892d08f4f191778da65eefb1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 28/48] fix: zerocopy: byte-swap usize offsets like every other
 size

---
 crates/musli-zerocopy/src/pointer/size.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..dca25d9 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -152,4 +152,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From 5779afab96ef3830adafa981fc33dd9c8a6ec39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 29/48] fix: zerocopy: array_into_slice must not byte-swap the
 offset twice

---
 crates/musli-zerocopy/src/pointer/ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..e92b331 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -806,7 +806,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From 9cc4d6eb9bd02e9e2d28185e238b6b98634723fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 30/48] fix: zerocopy: coerce reference metadata in native byte
 order

---
 crates/musli-zerocopy/src/pointer/ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index e92b331..7e60b99 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -693,7 +693,7 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: T::coerce_metadata(self.metadata.swap_bytes::<E>()).swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -765,7 +765,7 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: T::try_coerce_metadata(self.metadata.swap_bytes::<E>())?.swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
-- 
2.43.0


From 55695438a265621187d2c91350a7ed7918854dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 31/48] fix: zerocopy: load_uninit_mut must not overflow its
 bounds check

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 5 ++++-
 crates/musli-zerocopy/src/buf/slice_mut.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..f1b76ca 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -566,7 +566,10 @@ where
 
         // Note: We only need this as debug assertion, because `MaybeUninit<T>`
         // does not implement `ZeroCopy`, so there is no way to construct.
-        assert!(at + size_of::<T>() <= self.len, "Length overflow");
+        assert!(
+            size_of::<T>() <= self.len && at <= self.len - size_of::<T>(),
+            "Length overflow"
+        );
 
         // SAFETY: `MaybeUninit<T>` has no representation requirements and is
         // unaligned.
diff --git a/crates/musli-zerocopy/src/buf/slice_mut.rs b/crates/musli-zerocopy/src/buf/slice_mut.rs
index a8357b9..6d25791 100644
--- a/crates/musli-zerocopy/src/buf/slice_mut.rs
+++ b/crates/musli-zerocopy/src/buf/slice_mut.rs
@@ -452,7 +452,10 @@ where
 
         // Note: We only need this as debug assertion, because `MaybeUninit<T>`
         // does not implement `ZeroCopy`, so there is no way to construct.
-        assert!(at + size_of::<T>() <= self.len, "Length overflow");
+        assert!(
+            size_of::<T>() <= self.len && at <= self.len - size_of::<T>(),
+            "Length overflow"
+        );
 
         // SAFETY: `MaybeUninit<T>` has no representation requirements and is
         // unaligned.
-- 
2.43.0


From a1e11c2d93674bb15bb46db41996b8ad15bd98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 32/48] fix: zerocopy: do not divide by zero when looking up in
 a corrupt phf table

---
 crates/musli-zerocopy/src/phf/hashing.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index 9327cfe..cbe9015 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -43,7 +43,7 @@ pub(crate) fn get_index(
     displacements: &[Entry<u32, u32>],
     len: usize,
 ) -> Result<usize, Error> {
-    let index = g % displacements.len();
+    let index = g.checked_rem(displacements.len()).unwrap_or_default();
 
     let Some(&Entry { key: d1, value: d2 }) = displacements.get(index) else {
         return Err(Error::new(ErrorKind::IndexOutOfBounds {
@@ -52,7 +52,13 @@ pub(crate) fn get_index(
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    let index = displace(f1, f2, d1, d2) as usize;
+
+    let Some(index) = index.checked_rem(len) else {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index, len }));
+    };
+
+    Ok(index)
 }
 
 #[inline]
@@ -65,7 +71,7 @@ pub(crate) fn get_custom_index<'a, D>(
 where
     D: FnOnce(usize) -> Result<Option<&'a Entry<u32, u32>>, Error>,
 {
-    let index = g % displacements_len;
+    let index = g.checked_rem(displacements_len).unwrap_or_default();
 
     let Some(&Entry { key: d1, value: d2 }) = get(index)? else {
         return Err(Error::new(ErrorKind::IndexOutOfBounds {
@@ -74,5 +80,11 @@ where
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    let index = displace(f1, f2, d1, d2) as usize;
+
+    let Some(index) = index.checked_rem(len) else {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index, len }));
+    };
+
+    Ok(index)
 }
-- 
2.43.0


From b96de77f52a3d3d0d70da56488943e1b845bd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 33/48] fix: zerocopy: do not overflow when probing with a
 corrupt bucket mask

---
 crates/musli-zerocopy/src/swiss/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index cdc0b29..531ea1c 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -455,7 +455,7 @@ impl<'a, T> RawTable<'a, T> {
         let mut probe_seq = probe_seq(self.bucket_mask, hash);
 
         loop {
-            let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
+            let range = probe_seq.pos..probe_seq.pos.saturating_add(size_of::<Group>());
 
             let Some(bytes) = self.ctrl.get(range.clone()) else {
                 return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
@@ -576,7 +576,7 @@ where
         let ctrl = buf.load(self.ctrl)?;
 
         loop {
-            let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
+            let range = probe_seq.pos..probe_seq.pos.saturating_add(size_of::<Group>());
 
             let Some(bytes) = ctrl.get(range.clone()) else {
                 return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
-- 
2.43.0


From 92292028c00262af3d30d210b064cd66ab2a4050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 34/48] fix: advance the decoder past an untagged variant
 decoded through a clone

A variant of an untagged enum other than the last is decoded through
Decoder::try_clone, which left the decoder it was cloned from in front of the
value. Anything following it was decoded from the wrong position, and decoding
a sequence of them would never end.
---
 crates/musli-macros/src/de.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..981efb7 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -292,6 +292,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
     let output_var = b.cx.ident("output");
     let result_var = b.cx.ident("result");
     let mark_var = b.cx.ident("mark");
+    let value_var = b.cx.ident("value");
 
     let type_name = en.name.value;
 
@@ -330,12 +331,34 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         let decode = decode_struct(cx, b, &v.st)?;
 
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
+            if let #option::Some(#value_var) = #decoder_t::try_clone(&#decoder_var) {
                 #context_t::restore(#ctx_var, &#mark_var);
 
-                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = {
+                    let #decoder_var = #value_var;
+                    (|| #decode)()
+                };
 
                 if let #result::Ok(output) = #result_var {
+                    #context_t::restore(#ctx_var, &#mark_var);
+
+                    // The clone has been consumed, so the decoder it was cloned
+                    // from has to be moved past the value as well.
+                    let skipped = match #decoder_t::try_clone(&#decoder_var) {
+                        #option::Some(#value_var) => #decoder_t::try_skip(#value_var)?.is_skipped(),
+                        #option::None => false,
+                    };
+
+                    #context_t::restore(#ctx_var, &#mark_var);
+
+                    let output = if skipped {
+                        #decoder_t::skip(#decoder_var)?;
+                        output
+                    } else {
+                        let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+                        #result_var?
+                    };
+
                     break 'output output;
                 }
             }
-- 
2.43.0


From 96cdb786a2d0ab4ff41f60103ec03079635c7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 35/48] fix: decode every unsigned number which fits from a
 signed one in descriptive

The zigzag encoding takes up one more bit than the number, so decoding it
as the requested type refused for example 200i16 when asked for a u8.
---
 .../musli/src/descriptive/integer_encoding.rs | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..7f808e5 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,17 +21,17 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
+    match decode_kind(cx, &mut reader)? {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // NB: The zigzag encoding of a number takes up one more bit than the
+            // number itself, so it does not necessarily fit in `T`.
+            let value = zig::decode(c::decode::<_, _, u128>(cx, reader)?);
 
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
@@ -39,7 +39,7 @@ where
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned | NumberKind::Float => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -59,11 +59,10 @@ where
 }
 
 #[inline]
-fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+fn decode_kind<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -71,8 +70,7 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
-    Ok((c::decode(cx, reader)?, kind))
+    Ok(tag.number_kind())
 }
 
 #[inline]
@@ -91,13 +89,14 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
     T: Signed + TryFrom<<T as Signed>::Unsigned>,
 {
-    let (value, kind): (T::Unsigned, NumberKind) = decode_typed(cx, reader)?;
+    let kind = decode_kind(cx, &mut reader)?;
+    let value: T::Unsigned = c::decode(cx, reader)?;
 
     match kind {
         NumberKind::Signed => Ok(zig::decode(value)),
-- 
2.43.0


From 88b0fe9e38ff1f1d8a4e2585b46009821956ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 36/48] fix: wire: refuse to decode a sequence with an odd
 number of elements as a map

---
 crates/musli/src/wire/de.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index c99b870..715ccef 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -132,6 +132,13 @@ where
         mut self,
     ) -> Result<RemainingWireDecoder<OPT, R, C, M>, C::Error> {
         let len = self.decode_sequence_len()?;
+
+        if len % 2 != 0 {
+            return Err(self.cx.message(format_args!(
+                "Expected a sequence of pairs, but it has {len} elements"
+            )));
+        }
+
         Ok(RemainingWireDecoder::new(self.cx, self.reader, len / 2))
     }
 
-- 
2.43.0


From 0a17d8934261f3f866237cecad68692e10e02e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 37/48] fix: zerocopy: packed(N) must not raise the alignment
 of fields when padding and validating

---
 crates/musli-zerocopy/src/buf/padder.rs    | 4 +++-
 crates/musli-zerocopy/src/buf/validator.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..cae2631 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,9 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        // NB: `#[repr(packed(N))]` lowers the alignment of a field to `N`, but it
+        // never raises it.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..a8ad521 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -233,7 +233,9 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
+        // NB: `#[repr(packed(N))]` lowers the alignment of a field to `N`, but it
+        // never raises it.
+        self.align_with(align.min(align_of::<F>()));
         F::validate(&mut Validator::new(self.data))?;
         self.advance::<F>();
         Ok(())
-- 
2.43.0


From 2b9767686414daafa5ad8917772c091d1def4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 38/48] fix: zerocopy: align fields relative to the value being
 validated, which might not be aligned

---
 crates/musli-zerocopy/src/buf/validator.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index a8ad521..569e1cc 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,12 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
+#[repr(C)]
 pub struct Validator<'a, T: ?Sized> {
     data: NonNull<u8>,
+    // The offset of `data` in the value being validated. Fields are aligned
+    // relative to the start of the value, which itself might not be aligned.
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,6 +40,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
@@ -114,7 +119,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
         let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        self.step(1);
         b
     }
 
@@ -264,14 +269,21 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     /// Align the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        let count = buf::padding_to(self.offset, align);
+        self.step(count);
     }
 
     /// Advance the current pointer by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.step(size_of::<F>());
+    }
+
+    /// Step the current pointer by the given number of bytes.
+    #[inline]
+    unsafe fn step(&mut self, count: usize) {
+        self.data = NonNull::new_unchecked(self.data.as_ptr().add(count));
+        self.offset += count;
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
-- 
2.43.0


From 92e12045338453514ac757ee5cdf1e29c4ebbbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 39/48] fix: zerocopy: do not make a reference to the
 discriminant of an enum which might not be aligned

---
 crates/musli-zerocopy-macros/src/zero_copy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 5f5febb..dd1ede8 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -556,7 +556,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 // SAFETY: We've systematically ensured that we're only
                 // validating over fields within the size of this type.
-                match *#validator::field::<#ty>(validator)? {
+                match #validator::load_unaligned::<#ty>(validator)? {
                     #(#validate_variants,)*
                     value => return #result::Err(#error::__illegal_enum_discriminant::<Self>(value)),
                 }
-- 
2.43.0


From ad2b72e1165ad68327dc8ec678f7b50f4ed8f208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 40/48] fix: zerocopy: store the hash key of a swiss set in the
 byte order of the set

---
 crates/musli-zerocopy/src/swiss/set.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/set.rs b/crates/musli-zerocopy/src/swiss/set.rs
index d1d57c6..75c94b7 100644
--- a/crates/musli-zerocopy/src/swiss/set.rs
+++ b/crates/musli-zerocopy/src/swiss/set.rs
@@ -21,7 +21,7 @@ use crate::error::Error;
 use crate::pointer::{DefaultSize, Size};
 use crate::sip::SipHasher13;
 use crate::swiss::map::{RawTable, RawTableRef};
-use crate::ZeroCopy;
+use crate::{Endian, ZeroCopy};
 
 /// A set bound to a [`Buf`] through [`Buf::bind`] for convenience.
 ///
@@ -110,7 +110,7 @@ where
     #[inline]
     fn bind(self, buf: &Buf) -> Result<Self::Bound<'_>, Error> {
         Ok(Set {
-            key: self.key,
+            key: self.key.to_ne(),
             table: self.table.bind(buf)?,
             buf,
         })
@@ -152,7 +152,7 @@ where
     E: ByteOrder,
     O: Size,
 {
-    key: u64,
+    key: Endian<u64, E>,
     table: RawTableRef<T, E, O>,
 }
 
@@ -164,7 +164,10 @@ where
 {
     #[cfg(feature = "alloc")]
     pub(crate) fn new(key: u64, table: RawTableRef<T, E, O>) -> Self {
-        Self { key, table }
+        Self {
+            key: Endian::new(key),
+            table,
+        }
     }
 
     /// Test if the set contains the given `key`.
@@ -204,7 +207,7 @@ where
     where
         H: ?Sized + Hash,
     {
-        let mut hasher = SipHasher13::new_with_keys(0, self.key);
+        let mut hasher = SipHasher13::new_with_keys(0, self.key.to_ne());
         value.hash(&mut hasher);
         hasher.finish()
     }
-- 
2.43.0


From 3ef58bc6a1a22ab929d4fe39fe18208f949f5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:36 +0000
Subject: [PATCH 41/48] fix: json: refuse floats which have no representation
 in JSON

NaN and the infinities were written as NaN, inf and -inf, which is not JSON
and cannot be read back.
---
 crates/musli/src/json/en/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/musli/src/json/en/mod.rs b/crates/musli/src/json/en/mod.rs
index 34d2aa3..04bc2cb 100644
--- a/crates/musli/src/json/en/mod.rs
+++ b/crates/musli/src/json/en/mod.rs
@@ -182,6 +182,10 @@ where
 
     #[inline]
     fn encode_f32(mut self, value: f32) -> Result<(), Self::Error> {
+        if !value.is_finite() {
+            return Err(self.cx.message(NON_FINITE));
+        }
+
         let mut buffer = ryu::Buffer::new();
         self.writer
             .write_bytes(self.cx, buffer.format(value).as_bytes())
@@ -189,6 +193,10 @@ where
 
     #[inline]
     fn encode_f64(mut self, value: f64) -> Result<(), Self::Error> {
+        if !value.is_finite() {
+            return Err(self.cx.message(NON_FINITE));
+        }
+
         let mut buffer = ryu::Buffer::new();
         self.writer
             .write_bytes(self.cx, buffer.format(value).as_bytes())
@@ -343,6 +351,9 @@ where
     Ok(())
 }
 
+/// JSON has no representation for the floats which are not finite.
+const NON_FINITE: &str = "Cannot represent a non-finite float";
+
 // Parts below copied from serde-json under the MIT license:
 //
 // https://github.com/serde-rs/json
-- 
2.43.0


From 7ed7aa647988670fb7c5233f4c807690cac63110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 42/48] fix: json: read numbers of zeros with exponents

A mantissa of more zeros than the exponent, as in 1.00e1, and zero with an
exponent out of the range of the type, as in 0e3 for u8, were refused.
---
 crates/musli/src/json/parser/integer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 9205311..536c6d6 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -180,13 +180,18 @@ where
         }
 
         if e >= 0 {
-            // Decoding the specified mantissa would result in a fractional number.
-            let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
-
             if !base.is_zero() {
                 base = check!(base.checked_pow10(e as u32), IntegerOverflow);
             }
 
+            // A mantissa of only zeros has no bearing on the number.
+            if m.value.is_zero() {
+                return Ok(base);
+            }
+
+            // Decoding the specified mantissa would result in a fractional number.
+            let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
+
             let base = check! {
                 m.value
                     .checked_pow10(mantissa_exp)
@@ -197,6 +202,8 @@ where
             Ok(base)
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
+        } else if base.is_zero() {
+            Ok(base)
         } else {
             Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
-- 
2.43.0


From 208b9bf93302f3e974fd40d801776386333d8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 43/48] fix: musli-zerocopy: don't reallocate an OwnedBuf
 without an allocation in align_in_place

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index f1b76ca..44aee69 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -923,6 +923,15 @@ where
     pub fn align_in_place(&mut self) {
         // SAFETY: self.requested is guaranteed to be a power of two.
         if !buf::is_aligned_with(self.as_ptr(), self.requested) {
+            // There is no allocation to replace in an empty buffer, such as one
+            // which has been cloned from a buffer without any contents.
+            if self.capacity == 0 {
+                // SAFETY: self.requested is guaranteed to be a power of two.
+                self.data = unsafe { dangling(self.requested) };
+                self.align = self.requested;
+                return;
+            }
+
             let (old_layout, new_layout) = self.layouts(self.capacity);
             self.alloc_new(old_layout, new_layout);
         }
-- 
2.43.0


From eca466d429824190238bcd5794154b01e6efc084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:46 +0000
Subject: [PATCH 44/48] fix: context: keep the state of a context borrowed
 while one of its errors is used

---
 crates/musli/src/context/trace.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 9bc7af5..8723e86 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -626,7 +626,13 @@ where
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         let (range, error) = self.errors.next()?;
-        Some(Error::new(self.path, self.cap, range.clone(), error))
+        Some(Error::new(
+            self.path,
+            self.cap,
+            range.clone(),
+            error,
+            self._access.clone(),
+        ))
     }
 }
 
@@ -654,6 +660,8 @@ where
     cap: usize,
     range: Range<usize>,
     error: &'a str,
+    // The state of the context is borrowed for as long as the error is used.
+    _access: Shared<'a>,
 }
 
 impl<'a, A> Error<'a, A>
@@ -661,12 +669,19 @@ where
     A: Allocator,
 {
     #[inline]
-    fn new(path: &'a [Step<A>], cap: usize, range: Range<usize>, error: &'a str) -> Self {
+    fn new(
+        path: &'a [Step<A>],
+        cap: usize,
+        range: Range<usize>,
+        error: &'a str,
+        access: Shared<'a>,
+    ) -> Self {
         Self {
             path,
             cap,
             range,
             error,
+            _access: access,
         }
     }
 }
-- 
2.43.0


From 0f1b4131e7c3a8f9efba31b0e41815679ee83649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:22 +0000
Subject: [PATCH 45/48] fix: context: forget the path of what has been
 recovered from when a mark is restored

---
 crates/musli-macros/src/de.rs     |  2 ++
 crates/musli/src/context/trace.rs | 41 +++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index 981efb7..e228693 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -315,6 +315,8 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             let decode = decode_struct(cx, b, &last.st)?;
 
             Some(quote! {
+                #context_t::restore(#ctx_var, &#mark_var);
+
                 let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
 
                 if let #result::Ok(output) = #result_var {
diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 8723e86..7fead31 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -143,6 +143,14 @@ impl TraceMode for Trace {
     }
 }
 
+/// A mark which refers to a position and a path.
+#[doc(hidden)]
+pub struct TraceMark {
+    at: usize,
+    path: usize,
+    cap: usize,
+}
+
 /// Trace configuration indicating that tracing is enabled through the allocator
 /// `A`.
 pub struct WithTraceImpl<A>
@@ -234,6 +242,20 @@ where
         }
     }
 
+    /// Drop everything in the path past the given length, such as what was
+    /// entered but not left because of an error which has been recovered from.
+    #[inline]
+    fn truncate_path(&self, len: usize) {
+        let _access = self.access.exclusive();
+
+        // SAFETY: We've checked that we have exclusive access just above.
+        let path = unsafe { &mut (*self.path.get()) };
+
+        while path.len() > len {
+            path.pop();
+        }
+    }
+
     #[inline]
     fn format_string<T>(&self, alloc: A, value: T) -> Option<String<A>>
     where
@@ -262,7 +284,7 @@ impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = TraceMark;
 
     #[inline]
     fn clear(&self) {
@@ -284,12 +306,21 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        let _access = self.access.shared();
+
+        TraceMark {
+            at: self.mark.get(),
+            // SAFETY: We've acquired shared access just above.
+            path: unsafe { (*self.path.get()).len() },
+            cap: self.cap.get(),
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.at);
+        self.cap.set(mark.cap);
+        self.truncate_path(mark.path);
     }
 
     #[inline]
@@ -318,7 +349,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.at..self.mark.get(), string);
         }
     }
 
@@ -328,7 +359,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.at..self.mark.get(), string);
         }
     }
 
-- 
2.43.0


From 2dc0ddc52d5affcb323f0f4adffde79e4d44ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:41 +0000
Subject: [PATCH 46/48] fix: trie: insert below the one child which shares a
 prefix, whatever the order of insertion

---
 crates/musli-zerocopy/src/trie/factory.rs | 47 +++++++++++++----------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..7c8f8e0 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -165,24 +165,24 @@ where
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
                 BinarySearch::Missing(n) => {
-                    let pre = n - 1;
-
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
+                    // Find common prefix and split nodes if necessary. No two
+                    // children share a prefix, so the one which shares one with
+                    // `current` is right next to where it would be inserted.
+                    let mut pre = n;
+                    let mut shared = 0;
+
+                    for at in n.saturating_sub(1)..this.children.len().min(n.saturating_add(1)) {
+                        shared = prefix(buf.load(this.children[at].string)?, current);
+
+                        if shared != 0 {
+                            pre = at;
+                            break;
+                        }
+                    }
 
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
+                    // No common prefix in adjacent nodes, so a new node is needed.
+                    if shared == 0 {
                         this.children.insert(
                             n,
                             Node {
@@ -206,17 +206,24 @@ where
                     // =>
                     // "work" => { "ing" => { values = [1, 2, 3] } }
                     // ```
-                    if prefix != child.string.len() {
-                        let (prefix, suffix) = child.string.split_at(prefix);
+                    if shared != child.string.len() {
+                        let (prefix, suffix) = child.string.split_at(shared);
                         let new_node = Node::new(prefix);
                         let mut replaced = replace(child, new_node);
                         replaced.string = suffix;
                         child.links.children.push(replaced);
                     }
 
-                    current = &current[prefix..];
-                    string = string.split_at(prefix).1;
+                    current = &current[shared..];
+                    string = string.split_at(shared).1;
                     this = &mut child.links;
+
+                    // All of the string is shared with the child, so the value
+                    // belongs to it.
+                    if current.is_empty() {
+                        this.values.push(value);
+                        return Ok(());
+                    }
                 }
             }
         }
-- 
2.43.0


From e864ca844d21f2089428cde22f0a91e1bf5eba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:41 +0000
Subject: [PATCH 47/48] fix: trie: descend into a child only by the whole of
 its string

---
 crates/musli-zerocopy/src/trie/mod.rs  | 4 +++-
 crates/musli-zerocopy/src/trie/walk.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..741f512 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -255,7 +255,9 @@ where
                     // Find common prefix and split nodes if necessary.
                     let prefix = prefix(buf.load(child.string)?, string);
 
-                    if prefix == 0 {
+                    // Only what is below all of the string of a child is
+                    // reached through it.
+                    if prefix != child.string.len() {
                         return Ok(None);
                     }
 
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..097ca03 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -90,6 +90,12 @@ where
                                     }
 
                                     if prefix != string.len() {
+                                        // Only what is below all of the string
+                                        // of a child is reached through it.
+                                        if prefix != child.string.len() {
+                                            break;
+                                        }
+
                                         len += prefix;
                                         string = &string[prefix..];
                                         this = child.links;
-- 
2.43.0


From 5176d64b9b9d70259eb975851f165d27ce03587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:41 +0000
Subject: [PATCH 48/48] fix: ref: elements which cannot be addressed are out of
 range instead of a panic, zero-sized ones are iterated

---
 crates/musli-zerocopy/src/pointer/ref.rs      | 57 +++++++++++++++----
 .../musli-zerocopy/src/slice/binary_search.rs | 11 +++-
 crates/musli-zerocopy/src/slice/packed.rs     |  5 +-
 3 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 7e60b99..f3448ba 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -341,8 +341,7 @@ where
             return None;
         }
 
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Some(Ref::new(offset))
+        Ref::element(self.offset(), index)
     }
 
     /// Get an unchecked reference directly out of the slice without validation.
@@ -372,8 +371,11 @@ where
     /// # Ok::<_, musli_zerocopy::Error>(())
     /// ```
     pub fn get_unchecked(self, index: usize) -> Ref<T, E, O> {
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Ref::new(offset)
+        Ref::element(self.offset(), index).unwrap_or(Ref {
+            offset: O::swap_bytes::<E>(O::MAX),
+            metadata: (),
+            _marker: PhantomData,
+        })
     }
 
     /// Split the slice reference at the given position `at`.
@@ -452,11 +454,19 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
-        let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
+        let offset = self.offset();
+
+        // The number of elements which can be addressed.
+        let max = O::MAX.as_usize::<Native>().saturating_sub(offset);
+
+        let end = match max.checked_div(size_of::<T>()) {
+            Some(last) => self.len().min(last.saturating_add(1)),
+            None => self.len(),
+        };
 
         Iter {
-            start,
+            offset,
+            start: 0,
             end,
             _marker: PhantomData,
         }
@@ -506,6 +516,7 @@ where
 ///
 /// See [`Ref::iter`].
 pub struct Iter<T, E, O> {
+    offset: usize,
     start: usize,
     end: usize,
     _marker: PhantomData<(T, E, O)>,
@@ -525,9 +536,9 @@ where
             return None;
         }
 
-        let start = self.start;
-        self.start += size_of::<T>();
-        Some(Ref::new(start))
+        let index = self.start;
+        self.start += 1;
+        Ref::element(self.offset, index)
     }
 }
 
@@ -543,8 +554,8 @@ where
             return None;
         }
 
-        self.end -= size_of::<T>();
-        Some(Ref::new(self.end))
+        self.end -= 1;
+        Ref::element(self.offset, self.end)
     }
 }
 
@@ -650,6 +661,28 @@ where
     }
 }
 
+impl<T, E, O> Ref<T, E, O>
+where
+    T: ZeroCopy,
+    E: ByteOrder,
+    O: Size,
+{
+    /// Construct a reference to the element at `index` of a slice at `offset`.
+    ///
+    /// A slice might have elements which are out of range of what can be
+    /// addressed, there is no reference to such an element.
+    #[inline]
+    fn element(offset: usize, index: usize) -> Option<Self> {
+        let offset = offset.checked_add(size_of::<T>().checked_mul(index)?)?;
+
+        Some(Self {
+            offset: O::swap_bytes::<E>(O::try_from_usize(offset)?),
+            metadata: (),
+            _marker: PhantomData,
+        })
+    }
+}
+
 impl<T, E, O> Ref<T, E, O>
 where
     T: ?Sized + Pointee,
diff --git a/crates/musli-zerocopy/src/slice/binary_search.rs b/crates/musli-zerocopy/src/slice/binary_search.rs
index 555cd09..4f19041 100644
--- a/crates/musli-zerocopy/src/slice/binary_search.rs
+++ b/crates/musli-zerocopy/src/slice/binary_search.rs
@@ -1,7 +1,7 @@
 use core::cmp::Ordering;
 
 use crate::buf::{Buf, Visit};
-use crate::error::Error;
+use crate::error::{Error, ErrorKind};
 use crate::slice::Slice;
 use crate::traits::ZeroCopy;
 
@@ -114,7 +114,14 @@ where
         // < size`. Thus `left + size/2 < left + size`, which coupled with
         // the `left + size <= slice.len()` invariant means we have `left +
         // size/2 < slice.len()`, and this is in-bounds.
-        let value = buf.load(slice.get_unchecked(mid))?;
+        let Some(value) = slice.get(mid) else {
+            return Err(Error::new(ErrorKind::IndexOutOfBounds {
+                index: mid,
+                len: slice.len(),
+            }));
+        };
+
+        let value = buf.load(value)?;
         let cmp = f(value)?;
 
         // The reason why we use if/else control flow rather than match
diff --git a/crates/musli-zerocopy/src/slice/packed.rs b/crates/musli-zerocopy/src/slice/packed.rs
index 3844a58..1ff52a3 100644
--- a/crates/musli-zerocopy/src/slice/packed.rs
+++ b/crates/musli-zerocopy/src/slice/packed.rs
@@ -301,7 +301,10 @@ where
     /// ```
     #[inline]
     pub fn get_unchecked(self, index: usize) -> Ref<T, E, usize> {
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
+        let offset = self
+            .offset
+            .as_usize::<E>()
+            .saturating_add(size_of::<T>().saturating_mul(index));
         Ref::new(offset)
     }
 
-- 
2.43.0

