From 4c6a5d8c874ec3f77c780a637b6fb493b7960da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 01/28] fix: is_greater_or_equal holds for equal values wider
 than 64 bits

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From 926168d3caa95bc2e106800d4db13abf94c14e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 02/28] fix: to_i64 of negative values whose width is not a
 multiple of 64

---
 src/bv/ops.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..ecd4209 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,10 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            let (msb, middle) = self.words()[1..].split_last().unwrap();
+            // the unused bits of the most significant word are always zero
+            let all_max_msbs = middle.iter().all(|w| *w == Word::MAX)
+                && *msb == crate::bv::arithmetic::mask(self.width() % Word::BITS);
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From 4c00038f38b8a4452f0f9de44ef17ce6179f2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 03/28] fix: mask the result of a left shift by a multiple of
 the word size

---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From 2b898c5be2375796b21907f8afa8363c38407c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 04/28] fix: implement multiplication for more than 64 bits
 instead of panicking

---
 src/bv/arithmetic.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 7a703ea..ec4821e 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -228,10 +228,17 @@ pub(crate) fn mul(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthInt) {
         let (res, _) = a[0].overflowing_mul(b[0]);
         dst[0] = res & mask(width);
     } else {
-        todo!(
-            "implement multiplication for bit vectors larger {}",
-            Word::BITS
-        );
+        // schoolbook multiplication, ignoring all words that do not fit into the result
+        clear(dst);
+        for (ii, aa) in a.iter().enumerate() {
+            let mut carry: DoubleWord = 0;
+            for (dd, bb) in dst[ii..].iter_mut().zip(b.iter()) {
+                carry += (*dd as DoubleWord) + (*aa as DoubleWord) * (*bb as DoubleWord);
+                *dd = carry as Word;
+                carry >>= Word::BITS;
+            }
+        }
+        mask_msb(dst, width);
     }
 }
 
-- 
2.43.0


From a112c4dee36a32a8d8268420aec2d992820fe3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 05/28] fix: is_negative of a zero-width value is false instead
 of a panic

---
 src/bv/arithmetic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ec4821e..73c9cc9 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -370,8 +370,11 @@ pub(crate) fn cmp_greater(a: &[Word], b: &[Word]) -> bool {
 
 #[inline]
 pub(crate) fn is_neg(src: &[Word], width: WidthInt) -> bool {
+    // a zero-width value is never negative
+    let Some(msb_word) = src.last() else {
+        return false;
+    };
     let msb_bit_id = (width - 1) % Word::BITS;
-    let msb_word = src.last().unwrap();
     let msb_bit_value = ((msb_word) >> msb_bit_id) & 1;
     msb_bit_value == 1
 }
-- 
2.43.0


From 3b005f7ced262a3d5ecc1d83db87a1cdb553e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 06/28] fix: signed strings of the smallest value, of single
 bits and at word boundaries

---
 src/bv/io/strings.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..0effa9f 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,11 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
-        to_bit_str(values, width - 1)
+        let width = width.saturating_sub(1);
+        to_bit_str(select_words_for_width(values, width), width)
     }
 }
 
@@ -76,9 +78,21 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
-        to_hex_str(select_words_for_width(values, width - 1), width - 1)
+        let width = width.saturating_sub(1);
+        to_hex_str(select_words_for_width(values, width), width)
+    }
+}
+
+/// Number of bits needed to display the magnitude of a negative number.
+#[inline]
+fn magnitude_width(magnitude: &[Word], width: WidthInt) -> WidthInt {
+    if is_neg(magnitude, width) {
+        width // the smallest number is the only one that needs all bits
+    } else {
+        width - 1
     }
 }
 
-- 
2.43.0


From bd30b4c879f016fb288f160407203772c2a2ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 07/28] fix: implement to_dec_str for values above 128 bits
 instead of panicking

---
 src/bv/io/strings.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 0effa9f..d1f30a4 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -168,8 +168,28 @@ fn to_dec_str_internal(values: &[Word], mut out: String) -> String {
     out
 }
 
-fn to_dec_str_wide(_words: &[Word], _out: &mut str) {
-    todo!()
+/// The largest power of ten that fits into a word.
+const DEC_CHUNK: u128 = 10u128.pow(19);
+
+fn to_dec_str_wide(words: &[Word], out: &mut String) {
+    // repeatedly divide by the chunk size, yields the least significant chunk first
+    let mut rest = Vec::from(words);
+    let mut chunks = vec![];
+    while !rest.is_empty() {
+        let mut remainder = 0u128;
+        for word in rest.iter_mut().rev() {
+            let value = (remainder << Word::BITS) | *word as u128;
+            *word = (value / DEC_CHUNK) as Word;
+            remainder = value % DEC_CHUNK;
+        }
+        chunks.push(remainder);
+        rest.truncate(words_used(&rest));
+    }
+    let mut chunks = chunks.into_iter().rev();
+    write!(out, "{}", chunks.next().unwrap()).unwrap();
+    for chunk in chunks {
+        write!(out, "{chunk:019}").unwrap();
+    }
 }
 
 pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthInt {
-- 
2.43.0


From eaefb422f25e22fed139b44eb13f7ec6ba0ce3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 08/28] fix: implement decimal parsing for more than 128 bits
 instead of panicking

---
 src/bv/io/strings.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index d1f30a4..376eeb1 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -314,9 +314,13 @@ pub(crate) fn from_str_radix(
             };
 
             match radix {
-                2 => parse_base_2(digits, out, width)?,
-                10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                2 => {
+                    parse_base_2(digits, out, width)?;
+                }
+                10 => parse_base_10(digits, out)?,
+                16 => {
+                    parse_base_16(digits, out)?;
+                }
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
@@ -360,13 +364,30 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
 }
 
-fn parse_base_10(
-    _digits: &[u8],
-    _out: &mut [Word],
-    _max_width: WidthInt,
-) -> Result<WidthInt, ParseIntError> {
-    // let other = BitVecValue::
-    todo!()
+fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
+    let mut exceeds_width = false;
+    crate::bv::arithmetic::clear(out);
+    for digit in digits.iter() {
+        if !digit.is_ascii_digit() {
+            return Err(ParseIntError {
+                kind: IntErrorKind::InvalidDigit,
+            });
+        }
+        // multiply by ten and add the digit
+        let mut carry = (digit - b'0') as u128;
+        for word in out.iter_mut() {
+            carry += (*word as u128) * 10;
+            *word = carry as Word;
+            carry >>= Word::BITS;
+        }
+        exceeds_width |= carry != 0;
+    }
+    if exceeds_width {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
+    Ok(())
 }
 
 fn parse_base_2(
-- 
2.43.0


From d616d004e40d31c97d2c711572ea655b8a9558e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 09/28] fix: parsing an empty string clears the destination

---
 src/bv/io/strings.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 376eeb1..ff77cbc 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -237,6 +237,7 @@ pub(crate) fn from_str_radix(
 ) -> Result<(), ParseIntError> {
     // The empty string becomes a 0-bit vector.
     if value.is_empty() {
+        clear(out);
         return Ok(());
     }
 
@@ -366,7 +367,7 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
 
 fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
     let mut exceeds_width = false;
-    crate::bv::arithmetic::clear(out);
+    clear(out);
     for digit in digits.iter() {
         if !digit.is_ascii_digit() {
             return Err(ParseIntError {
-- 
2.43.0


From 7ef67afeefdce514c168525c441ee1f03883482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 10/28] fix: reject numerals with two signs

---
 src/bv/io/strings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index ff77cbc..f652cb0 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -258,7 +258,8 @@ pub(crate) fn from_str_radix(
         }
     }
 
-    if value.is_empty() {
+    // there may be at most one sign, and at least one digit
+    if value.is_empty() || (is_negative && value.starts_with('+')) {
         return Err(ParseIntError {
             kind: IntErrorKind::InvalidDigit,
         });
-- 
2.43.0


From ba8be9d684f903d139e707ecf064a2c7cc32bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 11/28] fix: wide numerals with leading zeros, too many hex
 digits or fewer digits than words

---
 src/bv/io/strings.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index f652cb0..8af2ab0 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -315,6 +315,13 @@ pub(crate) fn from_str_radix(
                 _ => digits,
             };
 
+            // strip leading zeros, they do not need any bits
+            let num_zeros = digits.iter().take_while(|d| **d == b'0').count();
+            let digits = &digits[std::cmp::min(num_zeros, digits.len() - 1)..];
+
+            // not all words might be covered by a digit
+            clear(out);
+
             match radix {
                 2 => {
                     parse_base_2(digits, out, width)?;
@@ -348,6 +355,11 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     let num_digits = digits.len();
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
     let mut word = 0 as Word;
+    if words as usize > out.len() {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
     let mut out_ii = (words - 1) as usize;
 
     // read from right to left
@@ -398,7 +410,6 @@ fn parse_base_2(
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From cb71b39e5fae6f2a182c99bc154b6c0eae018f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 12/28] fix: reject numerals that do not fit into the width,
 leave the destination unchanged

---
 src/bv/io/strings.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 8af2ab0..fcd6b70 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,8 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{clear, is_neg, negate_in_place};
+use crate::bv::arithmetic::{assign, clear, is_neg, mask, negate_in_place};
+use crate::bv::owned::value_vec_zeros;
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -247,6 +248,11 @@ pub(crate) fn from_str_radix(
         None => (false, value),
     };
 
+    // parse into a new value, so that the destination does not change if the numeral is invalid
+    let dst = out;
+    let mut words = value_vec_zeros(width);
+    let out = words.as_mut_slice();
+
     // special handling for 0-bit strings
     if width == 0 {
         if value == "0" {
@@ -319,9 +325,6 @@ pub(crate) fn from_str_radix(
             let num_zeros = digits.iter().take_while(|d| **d == b'0').count();
             let digits = &digits[std::cmp::min(num_zeros, digits.len() - 1)..];
 
-            // not all words might be covered by a digit
-            clear(out);
-
             match radix {
                 2 => {
                     parse_base_2(digits, out, width)?;
@@ -335,19 +338,19 @@ pub(crate) fn from_str_radix(
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
-
-    if is_negative {
-        negate_in_place(out, width)
+    // check width
+    let fits_unsigned = *out.last().unwrap() <= mask(width % Word::BITS);
+    if is_negative && fits_unsigned {
+        negate_in_place(out, width);
+    }
+    // a negative number with a magnitude of more than 2^(width-1) turns into a positive number
+    let fits_signed = !is_negative || is_neg(out, width) || words_used(out) == 0;
+    if !fits_unsigned || !fits_signed {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
     }
+    assign(dst, out);
     Ok(())
 }
 
-- 
2.43.0


From 71ee2e42a7057ac62178ecf6504c770088f146f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 13/28] fix: no fraction instead of a shift overflow for 64 or
 more fraction bits

---
 src/bv/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index ecd4209..bb20eab 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,8 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        // the denominator needs to fit into 64-bits
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From 231649e930d0c1362565d7af5299b61cd8e3abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 14/28] fix: creating a zero-width value from an integer

---
 src/bv/ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index bb20eab..6c075b0 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -426,6 +426,11 @@ pub trait BitVecMutOps: BitVecOps {
         debug_assert_eq!(Word::BITS, u64::BITS, "basic assumption of this function");
         // clear all words
         self.clear();
+        // zero is the only zero-width value
+        if self.width() == 0 {
+            debug_assert_eq!(value, 0, "value {value} does not fit into 0 bits");
+            return;
+        }
         // assign lsb
         self.words_mut()[0] = value;
         // make sure the value agrees with the bit width
-- 
2.43.0


From 1712a310eb2f2028ca08a31a5f44f250683d4611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 15/28] fix: sparse arrays with more than 64 index bits
 panicked on select and store

---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2a279b7 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From 367ff265d1bee3cebf0a6c6f6aab230cfea63329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 16/28] fix: use index width for indices when turning a sparse
 array dense

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2a279b7..6c4692e 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From b54abf25d3d1669cfe0efb11ce468d4fa9ed546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 17/28] fix: out of bounds access when turning dense byte
 arrays sparse

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 6c4692e..a2cd81f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; 1 << u8::BITS];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 20f02fbb0e2593c34feff6f7ed4a3d5114abdce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 18/28] fix: equality of sparse arrays does not depend on their
 default value

---
 src/array/owned.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index a2cd81f..8dabe41 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -9,6 +9,7 @@ use crate::{
 };
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::hash::Hash;
 
 /// Owned Array Container.
 #[derive(Clone)]
@@ -584,6 +585,24 @@ impl Debug for SparseArrayValue {
     }
 }
 
+/// Two sparse arrays with different default values can only be equal if every index is
+/// explicitly stored in at least one of the two.
+fn is_equal_different_default<K: Eq + Hash, V: PartialEq>(
+    index_width: WidthInt,
+    (default_a, map_a): (&V, &HashMap<K, V>),
+    (default_b, map_b): (&V, &HashMap<K, V>),
+) -> bool {
+    let only_in_b = map_b.keys().filter(|k| !map_a.contains_key(*k)).count();
+    let num_stored = map_a.len() + only_in_b;
+    1usize.checked_shl(index_width) == Some(num_stored)
+        && map_a
+            .iter()
+            .all(|(k, v)| map_b.get(k).unwrap_or(default_b) == v)
+        && map_b
+            .iter()
+            .all(|(k, v)| map_a.get(k).unwrap_or(default_a) == v)
+}
+
 #[derive(Clone)]
 #[cfg_attr(feature = "serde1", derive(serde::Serialize, serde::Deserialize))]
 enum SparseArrayImpl {
@@ -625,8 +644,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_different_default(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
@@ -637,8 +661,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_different_default(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
@@ -649,8 +678,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_different_default(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
-- 
2.43.0


From 707d002f4100e67a5085d67bf2182f7bb8b32961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 19/28] fix: extending or concatenating zero-width values
 panicked for results of up to 64 bits

---
 src/bv/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 6c075b0..360a28e 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -323,7 +323,7 @@ pub trait BitVecOps {
     fn sign_extend(&self, by: WidthInt) -> BitVecValue {
         let out_width = self.width() + by;
         let mut out = value_vec_zeros(out_width);
-        if out_width <= Word::BITS {
+        if out_width <= Word::BITS && self.width() > 0 {
             // specialized for 1-word case
             crate::bv::arithmetic::sign_extend(
                 &mut out[0..1],
@@ -340,7 +340,7 @@ pub trait BitVecOps {
     fn zero_extend(&self, by: WidthInt) -> BitVecValue {
         let out_width = self.width() + by;
         let mut out = value_vec_zeros(out_width);
-        if out_width <= Word::BITS {
+        if out_width <= Word::BITS && self.width() > 0 {
             // specialized for 1-word case
             crate::bv::arithmetic::zero_extend(&mut out[0..1], &self.words()[0..1]);
         } else {
@@ -374,7 +374,7 @@ pub trait BitVecOps {
     fn concat<R: BitVecOps + ?Sized>(&self, rhs: &R) -> BitVecValue {
         let out_width = self.width() + rhs.width();
         let mut out = value_vec_zeros(out_width);
-        if out_width <= Word::BITS {
+        if out_width <= Word::BITS && self.width() > 0 && rhs.width() > 0 {
             // specialized for 1-word case
             crate::bv::arithmetic::concat(
                 &mut out[0..1],
-- 
2.43.0


From 35f0c445badd3f45d3bf424b440e895a7126f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 20/28] fix: ones, not, negate, add and sub of zero-width
 values panicked

---
 src/bv/arithmetic.rs | 5 ++++-
 src/bv/ops.rs        | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 73c9cc9..ec93f5a 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -79,7 +79,10 @@ pub(crate) fn sign_extend(
 pub(crate) fn mask_msb(dst: &mut [Word], width: WidthInt) {
     debug_assert_eq!(width.div_ceil(Word::BITS) as usize, dst.len());
     let m = mask(width % Word::BITS);
-    *dst.last_mut().unwrap() &= m;
+    // a zero-width value has no words
+    if let Some(msb) = dst.last_mut() {
+        *msb &= m;
+    }
 }
 
 #[inline]
diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 360a28e..e638486 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -351,7 +351,7 @@ pub trait BitVecOps {
 
     fn not(&self) -> BitVecValue {
         let mut out = value_vec_zeros(self.width());
-        if self.words().len() <= 1 {
+        if self.words().len() == 1 {
             // specialized for 1-word case
             crate::bv::arithmetic::not(&mut out[0..1], &self.words()[0..1], self.width());
         } else {
@@ -362,7 +362,7 @@ pub trait BitVecOps {
 
     fn negate(&self) -> BitVecValue {
         let mut out = value_vec_zeros(self.width());
-        if self.words().len() <= 1 {
+        if self.words().len() == 1 {
             // specialized for 1-word case
             crate::bv::arithmetic::negate(&mut out[0..1], &self.words()[0..1], self.width());
         } else {
-- 
2.43.0


From f9d2c1557015493bbe7a423226cbed4f53c3f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 21/28] fix: mul and shifts of zero-width values panicked

---
 src/bv/arithmetic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ec93f5a..05ce50d 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -227,7 +227,9 @@ pub(crate) fn sub(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthInt) {
 /// Mul function inspired by the num-bigint implementation: https://docs.rs/num-bigint/0.4.4/src/num_bigint/biguint/multiplication.rs.html
 #[inline]
 pub(crate) fn mul(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthInt) {
-    if width <= Word::BITS {
+    if width == 0 {
+        // there is nothing to multiply
+    } else if width <= Word::BITS {
         let (res, _) = a[0].overflowing_mul(b[0]);
         dst[0] = res & mask(width);
     } else {
@@ -335,7 +337,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
 #[inline]
 fn get_shift_amount(b: &[Word], width: WidthInt) -> Option<WidthInt> {
     let msb_set = b.iter().skip(1).any(|w| *w != 0);
-    let shift_amount = b[0];
+    let shift_amount = b.first().copied().unwrap_or(0);
     if msb_set || shift_amount >= width as Word {
         None // result is just zero or the sign bit
     } else {
-- 
2.43.0


From ea3910a77978511eae87fcfe8ea7b96b7e62d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 22/28] fix: from_i64 of a zero-width value panicked

---
 src/bv/ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index e638486..39a77c5 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -448,6 +448,11 @@ pub trait BitVecMutOps: BitVecOps {
         let width = self.width();
         // clear all words
         self.clear();
+        // zero is the only zero-width value
+        if width == 0 {
+            debug_assert_eq!(value, 0, "value {value} does not fit into 0 bits");
+            return;
+        }
         // assign lsb and sign extend if necessary
         if self.words().len() == 1 {
             let masked = value as u64 & crate::bv::arithmetic::mask(width);
-- 
2.43.0


From 0dc9c99d91a8d815f91e6eaa965b0b008185d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 23/28] fix: interning a zero-width value panicked with debug
 assertions

---
 src/bv/indexed.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bv/indexed.rs b/src/bv/indexed.rs
index a092bd4..0d3ab02 100644
--- a/src/bv/indexed.rs
+++ b/src/bv/indexed.rs
@@ -257,7 +257,10 @@ impl ValueInterner {
     pub fn get_index<'a>(&mut self, value: impl Into<BitVecValueRef<'a>>) -> BitVecValueIndex {
         let value = value.into();
         let (words, width) = (value.words(), value.width());
-        if let &[word] = words {
+        if words.is_empty() {
+            // zero is the only zero-width value
+            BitVecValueIndex::new(0, width)
+        } else if let &[word] = words {
             debug_assert!(width <= Word::BITS);
             if word < 8 {
                 BitVecValueIndex::new(word as WordIndex, width)
-- 
2.43.0


From 6cb9373cebbf7f269d6fe0ab0e8017e0c014f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:40 +0000
Subject: [PATCH 24/28] fix: debug assertion of slice accepted a range that
 ends one bit above the value

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 39a77c5..0d7a00b 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -303,7 +303,7 @@ pub trait BitVecOps {
     }
 
     fn slice(&self, msb: WidthInt, lsb: WidthInt) -> BitVecValue {
-        debug_assert!(msb <= self.width());
+        debug_assert!(msb < self.width());
         debug_assert!(msb >= lsb);
         let out_width = msb - lsb + 1;
         let mut out = value_vec_zeros(out_width);
-- 
2.43.0


From bfde2ba18dd7f4c4ad8e72e595fcd9c091707f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:40 +0000
Subject: [PATCH 25/28] fix: size limit of dense arrays counted words instead
 of bytes for elements above 64 bits

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 8dabe41..a119849 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -275,7 +275,7 @@ fn approx_dense_storage_size(index_width: WidthInt, data_width: WidthInt) -> usi
         elements * (u64::BITS / u8::BITS) as usize
     } else {
         // using the Big representation
-        elements * data_width.div_ceil(Word::BITS) as usize
+        elements * (data_width.div_ceil(Word::BITS) * (Word::BITS / u8::BITS)) as usize
     }
 }
 
-- 
2.43.0


From 7e2c4fb4de40a60b39f9f0e4c6cf45a1696c3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 26/28] fix: to_dec_str overflowed on values of more than
 1431655765 bits with overflow checks

---
 src/bv/io/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index fcd6b70..10b27dd 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -132,7 +132,7 @@ fn to_hex_str_internal(values: &[Word], width: WidthInt, mut out: String) -> Str
 }
 
 pub(crate) fn to_dec_str(values: &[Word], width: WidthInt) -> String {
-    let out = String::with_capacity((width * 3 / 10) as usize);
+    let out = String::with_capacity(width as usize * 3 / 10);
     to_dec_str_internal(values, out)
 }
 
-- 
2.43.0


From 8f074b44d673491bb2c7c378fa6aaceb1318e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:18 +0000
Subject: [PATCH 27/28] fix: inferring the width of a big integer overflowed
 just below 2^32 bits with overflow checks

---
 src/bv/io/bigint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/bigint.rs b/src/bv/io/bigint.rs
index 82ff091..8f8916f 100644
--- a/src/bv/io/bigint.rs
+++ b/src/bv/io/bigint.rs
@@ -97,7 +97,7 @@ pub(crate) fn count_big_uint_bits(value: &num_bigint::BigUint) -> WidthInt {
         0
     } else {
         let msb = value.iter_u64_digits().last().unwrap();
-        words * Word::BITS - msb.leading_zeros()
+        (words - 1) * Word::BITS + (Word::BITS - msb.leading_zeros())
     }
 }
 
@@ -108,7 +108,7 @@ pub(crate) fn count_big_int_bits(value: &num_bigint::BigInt) -> WidthInt {
         1
     } else {
         let msb = value.iter_u64_digits().last().unwrap();
-        words * Word::BITS - msb.leading_zeros() + 1
+        (words - 1) * Word::BITS + (Word::BITS - msb.leading_zeros()) + 1
     }
 }
 
-- 
2.43.0


From 55e59c2737692ab123b8a452b201670e8ade0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:25 +0000
Subject: [PATCH 28/28] fix: parsing hexadecimal numerals of 2^30 digits and
 binary ones of 2^32 digits overflowed

---
 src/bv/io/strings.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 10b27dd..a01140a 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -354,16 +354,16 @@ pub(crate) fn from_str_radix(
     Ok(())
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
     let num_digits = digits.len();
-    let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
+    let words = num_digits.div_ceil(WORD_HEX_DIGITS as usize);
     let mut word = 0 as Word;
-    if words as usize > out.len() {
+    if words > out.len() {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
         });
     }
-    let mut out_ii = (words - 1) as usize;
+    let mut out_ii = words - 1;
 
     // read from right to left
     for (ii, cc) in digits.iter().enumerate() {
@@ -378,7 +378,7 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     }
     debug_assert_eq!(out_ii, 0);
     out[0] = word;
-    Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
+    Ok(())
 }
 
 fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
@@ -412,12 +412,12 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
-    let width = digits.len() as WidthInt;
-    if width > max_width {
+    if digits.len() > max_width as usize {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
         });
     }
+    let width = digits.len() as WidthInt;
 
     let words = width.div_ceil(Word::BITS);
     let mut word = 0 as Word;
-- 
2.43.0

