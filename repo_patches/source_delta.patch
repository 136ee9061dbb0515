From 8dde6ff7b9b3d4f876737f65f93ac42feaef25a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 1/4] Add verification hooks guarded by cfg ibig_verif and
 ibig_verif_small

---
 src/div/mod.rs             |  2 +-
 src/fmt/non_power_two.rs   |  2 +-
 src/lib.rs                 |  4 ++++
 src/mul/mod.rs             |  4 ++--
 src/mul/simple.rs          |  2 +-
 src/parse/non_power_two.rs |  2 +-
 src/verif.rs               | 46 ++++++++++++++++++++++++++++++++++++++
 7 files changed, 56 insertions(+), 6 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/div/mod.rs b/src/div/mod.rs
index 65ed4a2..41c6409 100644
--- a/src/div/mod.rs
+++ b/src/div/mod.rs
@@ -13,7 +13,7 @@ mod divide_conquer;
 mod simple;
 
 /// If divisor or quotient is at most this length, use the simple division algorithm.
-const MAX_LEN_SIMPLE: usize = 32;
+const MAX_LEN_SIMPLE: usize = if cfg!(ibig_verif_small) { 3 } else { 32 };
 
 /// Normalize a large divisor.
 ///
diff --git a/src/fmt/non_power_two.rs b/src/fmt/non_power_two.rs
index 69bb4b0..4517c54 100644
--- a/src/fmt/non_power_two.rs
+++ b/src/fmt/non_power_two.rs
@@ -16,7 +16,7 @@ use core::{
 use static_assertions::const_assert;
 
 /// Format in chunks of CHUNK_LEN * digits_per_word.
-const CHUNK_LEN: usize = 16;
+const CHUNK_LEN: usize = if cfg!(ibig_verif_small) { 2 } else { 16 };
 
 impl InRadixFull<'_> {
     pub(crate) fn fmt_non_power_two(&self, f: &mut Formatter) -> fmt::Result {
diff --git a/src/lib.rs b/src/lib.rs
index cca568e..7411371 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,6 +100,10 @@ mod shift_ops;
 mod sign;
 mod ubig;
 
+#[cfg(ibig_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(feature = "rand")]
 pub mod rand;
 
diff --git a/src/mul/mod.rs b/src/mul/mod.rs
index ca5a2fd..86b2253 100644
--- a/src/mul/mod.rs
+++ b/src/mul/mod.rs
@@ -12,12 +12,12 @@ use core::mem;
 use static_assertions::const_assert;
 
 /// If smaller length <= MAX_LEN_SIMPLE, simple multiplication can be used.
-const MAX_LEN_SIMPLE: usize = 24;
+const MAX_LEN_SIMPLE: usize = if cfg!(ibig_verif_small) { 2 } else { 24 };
 const_assert!(MAX_LEN_SIMPLE <= simple::MAX_SMALLER_LEN);
 const_assert!(MAX_LEN_SIMPLE + 1 >= karatsuba::MIN_LEN);
 
 /// If smaller length <= this, Karatsuba multiplication can be used.
-const MAX_LEN_KARATSUBA: usize = 192;
+const MAX_LEN_KARATSUBA: usize = if cfg!(ibig_verif_small) { 15 } else { 192 };
 const_assert!(MAX_LEN_KARATSUBA + 1 >= toom_3::MIN_LEN);
 
 mod helpers;
diff --git a/src/mul/simple.rs b/src/mul/simple.rs
index 55cc0a0..cb72e50 100644
--- a/src/mul/simple.rs
+++ b/src/mul/simple.rs
@@ -12,7 +12,7 @@ use crate::{
 use alloc::alloc::Layout;
 
 /// Split larger length into chunks of CHUNK_LEN..2 * CHUNK_LEN for memory locality.
-const CHUNK_LEN: usize = 1024;
+const CHUNK_LEN: usize = if cfg!(ibig_verif_small) { 3 } else { 1024 };
 
 /// Max supported smaller factor length.
 pub(crate) const MAX_SMALLER_LEN: usize = CHUNK_LEN;
diff --git a/src/parse/non_power_two.rs b/src/parse/non_power_two.rs
index 3e37ef4..badd503 100644
--- a/src/parse/non_power_two.rs
+++ b/src/parse/non_power_two.rs
@@ -11,7 +11,7 @@ use crate::{
 use alloc::vec;
 
 /// Parse in chunks of CHUNK_LEN * digits_per_word.
-const CHUNK_LEN: usize = 256;
+const CHUNK_LEN: usize = if cfg!(ibig_verif_small) { 1 } else { 256 };
 
 /// Parse an unsigned string to [UBig].
 pub(crate) fn parse(src: &str, radix: Digit) -> Result<UBig, ParseError> {
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..1d40248
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,46 @@
+//! Verification hooks, compiled only with `--cfg ibig_verif`.
+//!
+//! They give a verification harness access to the word representation of the numbers.
+
+use crate::{buffer::Buffer, sign::Sign, ubig::Repr, IBig, UBig};
+
+/// Machine word.
+pub type Word = crate::arch::word::Word;
+
+/// Number made of little-endian words.
+pub fn ubig_from_words(words: &[Word]) -> UBig {
+    let mut buffer = Buffer::allocate(words.len());
+    for word in words {
+        buffer.push(*word);
+    }
+    UBig::from(buffer)
+}
+
+/// Little-endian words of a number.
+pub fn ubig_words(x: &UBig) -> &[Word] {
+    x.as_words()
+}
+
+/// Capacity of the heap buffer in words, or 0 if the number is stored inline.
+pub fn ubig_capacity(x: &UBig) -> usize {
+    match x.repr() {
+        Repr::Small(_) => 0,
+        Repr::Large(buffer) => buffer.capacity(),
+    }
+}
+
+/// Integer with the given sign and magnitude.
+pub fn ibig_from_parts(negative: bool, magnitude: UBig) -> IBig {
+    let sign = if negative { Sign::Negative } else { Sign::Positive };
+    IBig::from_sign_magnitude(sign, magnitude)
+}
+
+/// Is the sign negative?
+pub fn ibig_is_negative(x: &IBig) -> bool {
+    x.sign() == Sign::Negative
+}
+
+/// Magnitude.
+pub fn ibig_magnitude(x: &IBig) -> &UBig {
+    x.magnitude()
+}
-- 
2.43.0


From 1c7fe39094eef7bae330228d745eacca8a22d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 2/4] Add 8-bit word configuration for verification (cfg
 ibig_verif + force_bits=8)

---
 src/arch/mod.rs              |  7 ++++++-
 src/arch/verif_8_bit/mod.rs  | 11 +++++++++++
 src/arch/verif_8_bit/ntt.rs  | 19 +++++++++++++++++++
 src/arch/verif_8_bit/word.rs |  8 ++++++++
 src/serde.rs                 |  1 +
 5 files changed, 45 insertions(+), 1 deletion(-)
 create mode 100644 src/arch/verif_8_bit/mod.rs
 create mode 100644 src/arch/verif_8_bit/ntt.rs
 create mode 100644 src/arch/verif_8_bit/word.rs

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index ec77036..3e8bbcd 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -13,8 +13,13 @@ pub(crate) use arch_impl::word;
 // 3. Otherwise target_pointer_width is 16 or 32, use generic_<n>_bit.
 // 4. Otherwise, use generic_64_bit.
 cfg_if! {
+    // Verification only: 8-bit words.
+    if #[cfg(all(ibig_verif, force_bits = "8"))] {
+        #[path = "verif_8_bit/mod.rs"]
+        mod arch_impl;
+    }
     // Step 1. Check force_bits.
-    if #[cfg(force_bits = "16")] {
+    else if #[cfg(force_bits = "16")] {
         #[path = "generic_16_bit/mod.rs"]
         mod arch_impl;
     }
diff --git a/src/arch/verif_8_bit/mod.rs b/src/arch/verif_8_bit/mod.rs
new file mode 100644
index 0000000..5ceb42b
--- /dev/null
+++ b/src/arch/verif_8_bit/mod.rs
@@ -0,0 +1,11 @@
+//! 8-bit words, used only for verification.
+
+#[path = "../generic/add.rs"]
+pub(crate) mod add;
+
+#[path = "../generic/digits.rs"]
+pub(crate) mod digits;
+
+pub(crate) mod ntt;
+
+pub(crate) mod word;
diff --git a/src/arch/verif_8_bit/ntt.rs b/src/arch/verif_8_bit/ntt.rs
new file mode 100644
index 0000000..ab52ab3
--- /dev/null
+++ b/src/arch/verif_8_bit/ntt.rs
@@ -0,0 +1,19 @@
+use crate::mul::ntt::{Prime, NUM_PRIMES};
+
+/// Determines the maximum length of numbers (the transform itself is not used for multiplication).
+pub(crate) const MAX_ORDER: u32 = 20;
+
+pub(crate) const PRIMES: [Prime; NUM_PRIMES] = [
+    Prime {
+        prime: 0x61,
+        max_order_root: 0x1c,
+    },
+    Prime {
+        prime: 0xc1,
+        max_order_root: 0x7d,
+    },
+    Prime {
+        prime: 0xf1,
+        max_order_root: 0x07,
+    },
+];
diff --git a/src/arch/verif_8_bit/word.rs b/src/arch/verif_8_bit/word.rs
new file mode 100644
index 0000000..905806f
--- /dev/null
+++ b/src/arch/verif_8_bit/word.rs
@@ -0,0 +1,8 @@
+/// Machine word.
+pub(crate) type Word = u8;
+
+/// Signed machine word.
+pub(crate) type SignedWord = i8;
+
+/// Double machine word.
+pub(crate) type DoubleWord = u16;
diff --git a/src/serde.rs b/src/serde.rs
index 5c65e0a..9544664 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -85,6 +85,7 @@ fn push_word_64(buffer: &mut Buffer, word_64: u64) {
 #[allow(clippy::absurd_extreme_comparisons)]
 fn len_64_to_max_len(len_64: usize) -> usize {
     // Make sure we always have enough space for leading zero Words.
+    #[cfg(not(all(ibig_verif, force_bits = "8")))]
     const_assert!(Buffer::MAX_CAPACITY - UBig::MAX_LEN >= WORDS_PER_U64 - 1);
     #[allow(clippy::redundant_closure)]
     len_64
-- 
2.43.0


From 0c7439c7547dc9cd4ab581bbe6024db176eeeabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 3/4] fix: clear_bit beyond the first word must not zero a
 one-word number

---
 src/bits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bits.rs b/src/bits.rs
index defa629..f6d0bb4 100644
--- a/src/bits.rs
+++ b/src/bits.rs
@@ -102,6 +102,8 @@ impl UBig {
             Small(word) => {
                 if n < WORD_BITS_USIZE {
                     *self = UBig::from_word(word & !(1 << n))
+                } else {
+                    *self = UBig::from_word(word)
                 }
             }
             Large(buffer) => *self = UBig::without_bit_large(buffer, n),
-- 
2.43.0


From 0189654d711e8ac7aaf978b83367b73f1ace62ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 4/4] fix: Signed::abs_sub must be zero when self <= other

---
 src/num_traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/num_traits.rs b/src/num_traits.rs
index cec7076..c000be9 100644
--- a/src/num_traits.rs
+++ b/src/num_traits.rs
@@ -88,7 +88,11 @@ impl num_traits::Signed for IBig {
 
     #[inline]
     fn abs_sub(&self, other: &Self) -> Self {
-        Abs::abs(self - other)
+        if self <= other {
+            Self::from(0u8)
+        } else {
+            self - other
+        }
     }
 
     #[inline]
-- 
2.43.0

