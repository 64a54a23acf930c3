From 76b122604f40e0fe4f827864f37b4eaf71ff37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 01/20] fix: do not overflow when advancing an index by a huge
 amount

`Index::increment_checked` computed `ix + n` before comparing it against the
limit, so a request of close to usize::MAX bytes panicked (overflow checks on)
or wrapped and was accepted (overflow checks off), handing out-of-bounds slices
to the caller.
---
 src/internal/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..db3a11d 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = n <= lim.saturating_sub(self.0);
         if is_valid {
             self.0 += n;
         }
-- 
2.43.0


From 4983d37bf077814f983e16784163fc08108ad920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 02/20] fix: report oversized context windows instead of
 panicking

`ContextOffset::set_fit` could overflow on `cur + winsize`, and underflowed
`abs - winsize` when reporting a window larger than the whole buffer, so
decoding a truncated length-prefixed value panicked. The number of bytes left is
measured from the current offset.
---
 src/internal/offset.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index db3a11d..9b1b00b 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -291,16 +291,15 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
+        let bytes_left = self.abs - cur;
+        if winsize > bytes_left {
             let request = winsize;
             Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
                 request,
             }))
         } else {
-            self.frames.push_frame(new_tgt)
+            self.frames.push_frame(cur + winsize)
         }
     }
 
-- 
2.43.0


From 8b5087e9c3e0299fe5068bfce1b176fa3f0c5163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 03/20] fix: close a context window only when it has been fully
 consumed

`enforce_target` popped the innermost window even when it returned an error,
although the Parser contract says a window can only be lifted once all of its
bytes have been consumed. SliceParser also treated its bottom-most view (the
whole buffer) as a window: with no window open, test_target reported true on an
exhausted buffer and enforce_target succeeded or reported residue rather than
CloseWithoutWindow, and cleanup recorded a spurious window for every parser.
---
 src/internal/offset.rs |  7 +++++--
 src/internal/view.rs   |  9 +++++++++
 src/parse/mod.rs       | 29 ++++++++++++++++-------------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 9b1b00b..b68df15 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -352,10 +352,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    let _ = self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..8262ad7 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,15 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl ViewStack<'_> {
+    /// Returns `true` if and only if there is at least one open context-window,
+    /// i.e. at least one view beyond the bottom-most one that spans the buffer itself.
+    #[inline]
+    pub fn has_window(&self) -> bool {
+        self.0.len() > 1
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..be6e7f4 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -804,10 +804,12 @@ pub mod byteparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
@@ -995,10 +997,12 @@ pub mod memoparser {
                                 }
                                 _ => {
                                     ret = Err(InvariantError::ErrorCaseUnexpected(w_err));
+                                    break;
                                 }
                             }
                         } else {
                             ret = Err(InvariantError::ErrorKindUnexpected(e));
+                            break;
                         }
                     }
                 }
@@ -1167,22 +1171,21 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
-            }
+            Ok(self.view_stack.has_window() && self.remainder() == 0)
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
-                    residual => Err(ParseError::Window(WindowError::CloseWithResidue {
-                        residual,
-                    })),
-                },
+            if !self.view_stack.has_window() {
+                return Err(ParseError::Window(WindowError::CloseWithoutWindow));
+            }
+            match self.remainder() {
+                0 => {
+                    let _ = self.view_stack.pop();
+                    Ok(())
+                }
+                residual => Err(ParseError::Window(WindowError::CloseWithResidue {
+                    residual,
+                })),
             }
         }
 
-- 
2.43.0


From 0a984b327192dea77f27e4257fde3692a338d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 04/20] fix: reject an index equal to the length in
 VecBuffer::get_byte

The bounds assertion guarding the unchecked access used `<=`, and the one in
get_slice could overflow.
---
 src/parse/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..8cd4f53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(ix <= self.len() && len <= self.len() - ix);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From f61b17a761651a1660c2910cc16765fafe08f663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 05/20] fix: LeftoverState::is_empty holds whenever no bytes
 are left

A Windowed state without any bytes was reported as non-empty because SplitVec
counts zero-length spans, contrary to the documentation of the method.
---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index be6e7f4..14a4c32 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From 1bd13eba6d6f0d8f2f990a4fdb34c918c968a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 06/20] fix: LeftoverState::append moves out of its argument in
 every case

The documentation promises that the appended vector is left empty, but it was
cloned when the receiver was Empty.
---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 14a4c32..e0c74e8 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
-- 
2.43.0


From fd179afc8766684c961ada901c9c7d2507c1ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 07/20] fix: report an out-of-range u30 length prefix instead
 of panicking

process_prefix and skip_dynamic read the prefix from the input, so a value
above the u30 limit is a decoding error.
---
 src/dynamic.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..c06bf34 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,33 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
-            let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let raw = u32::from_be_bytes(bytes);
+            Ok(crate::int::u30::try_from_underlying(raw)?.into())
         }
     }
 }
-- 
2.43.0


From 0c38ac1fa4820a4b90a01770863ca543b11a200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 08/20] fix: VPadded reports too few remaining bytes instead of
 underflowing

---
 src/dynamic.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index c06bf34..bff26e1 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,6 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
+use crate::parse::error::WindowError;
 use crate::parse::{ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
@@ -465,16 +466,15 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
     where
         Self: Sized,
     {
-        let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
-        p.set_fit(_rem - N)?;
+        let bytes_left = p.remainder();
+        if bytes_left < N {
+            return Err(WindowError::OpenWouldExceedBuffer {
+                bytes_left,
+                request: N,
+            }
+            .into());
+        }
+        p.set_fit(bytes_left - N)?;
         let ret = T::parse(p)?;
         p.enforce_target()?;
         Ok(Self(ret))
-- 
2.43.0


From 2d296a6941be2dcf6039aada19d89626ee0be845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 09/20] fix: convert integers into RangedInt by numeric value
 when MIN > 0

The bounds were checked as if the argument were the offset from MIN, so
values in range were rejected or panicked; try_from_i32 could overflow.
---
 src/int.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..9075995 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,7 +268,11 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
+        let underlying: i64 = if MIN <= 0 {
+            i64::from(x)
+        } else {
+            i64::from(x) - i64::from(MIN)
+        };
         match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
@@ -460,8 +464,10 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
+                    let numeric: i128 = val.try_into()?;
+                    let underlying = if MIN <= 0 { numeric } else { numeric - i128::from(MIN) };
+                    match BoundsError::restrict(underlying, MIN, MAX) {
+                        Ok(_) => unsafe { Ok(Self::from_numeric_unchecked(val)) }
                         Err(e) => Err(e)
                     }
                 }
-- 
2.43.0


From ff34c59bc733a58a616d046e3ddadd91c6fd7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 10/20] fix: default and extreme values of RangedInt when MIN >
 0

---
 src/int.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 9075995..053716a 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -382,8 +382,12 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    if MIN > 0 {
+                        // `MIN` itself, stored as an offset
+                        Self(0)
+                    } else {
+                        Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    }
                 }
             }
         };
@@ -399,23 +403,25 @@ pub mod ranged_int_impls {
     macro_rules! minval_maxval {
         ( $t:ty ) => {
             impl<const MIN_I32: i32, const MAX_I32: i32> RangedInt<$t, MIN_I32, MAX_I32> {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                pub const MIN: $t = MIN_I32 as $t;
+                /// Underlying value of the minimum legal value of `Self`
+                pub const MIN: $t = if MIN_I32 > 0 { 0 } else { MIN_I32 as $t };
 
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                pub const MAX: $t = MAX_I32 as $t;
+                /// Underlying value of the maximum legal value of `Self`
+                pub const MAX: $t = if MIN_I32 > 0 {
+                    (MAX_I32 - MIN_I32) as $t
+                } else {
+                    MAX_I32 as $t
+                };
 
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
                     Self(Self::MIN)
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
                     Self(Self::MAX)
                 }
             }
-- 
2.43.0


From e3deebdd652413ab25e73f439c567c34a4a9807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 11/20] fix: estimate the encoding of a zero N as one byte

---
 src/zarith.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..beec0f5 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -106,7 +106,8 @@ pub mod n {
 
         fn unknown(&self) -> usize {
             let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            // zero is encoded in one byte
+            Integer::div_ceil(&n, &7).max(1)
         }
     }
 
-- 
2.43.0


From c95667d69c61f535c98351b505d7317b44056a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 12/20] fix: keep the elements when collecting into or
 extending FixSeq and LimSeq

The overflow check advanced the iterator past the elements to be stored.
---
 src/seq/fix.rs | 11 +++++------
 src/seq/lim.rs | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..496c8b2 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -165,11 +165,11 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = i.by_ref().take(rem).collect();
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -185,11 +185,10 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..91c9b82 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -199,11 +199,11 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = i.by_ref().take(rem).collect();
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -219,11 +219,10 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let ret = inner::Inner::<T, N>::from_iter(i.by_ref().take(N));
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From 392523b93b3431e6c327e2ce067b0b62464e52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 13/20] fix: refuse to encode FixSeq and LimSeq values of
 illegal length

Both types document that encoding enforces the number of elements.
---
 src/seq/fix.rs | 8 ++++++++
 src/seq/lim.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 496c8b2..5e05aa0 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -267,7 +267,15 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics unless `self` holds exactly `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() == N,
+            "cannot encode FixSeq of {N} elements holding {}",
+            self.len()
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 91c9b82..cd14b42 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -287,7 +287,15 @@ impl<T: Estimable, const N: usize> Estimable for LimSeq<T, N> {
 }
 
 impl<T: Encode, const N: usize> Encode for LimSeq<T, N> {
+    /// # Panics
+    ///
+    /// Panics if `self` holds more than `N` elements
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert!(
+            self.len() <= N,
+            "cannot encode LimSeq of at most {N} elements holding {}",
+            self.len()
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From 3904155ee907487c77e9df319577d612d068dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 14/20] fix: parse hexadecimal digit by digit

Slicing the string panicked inside multi-byte characters, and from_str_radix
accepts a sign, so that "+f" was taken for a byte.
---
 src/hexstring.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..8c16292 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,13 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Value of a byte given by two hexadecimal digits, if both are valid
+    fn byte_of_hex(hi: u8, lo: u8) -> Option<u8> {
+        let hi = (hi as char).to_digit(16)?;
+        let lo = (lo as char).to_digit(16)?;
+        Some((hi << 4 | lo) as u8)
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -140,10 +147,10 @@ pub(crate) mod util {
 
         let mut dst = Vec::with_capacity(bytes_len);
 
-        for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+        for pair in src.as_bytes().chunks_exact(2) {
+            match byte_of_hex(pair[0], pair[1]) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -170,10 +177,9 @@ pub(crate) mod util {
             return false;
         }
 
-        for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
-                _ => return false,
+        for (pair, &byte) in src.as_bytes().chunks_exact(2).zip(tgt) {
+            if byte_of_hex(pair[0], pair[1]) != Some(byte) {
+                return false;
             }
         }
         true
-- 
2.43.0


From a92471e90a6c61d0b6cf4be5e4a333a40c09275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 15/20] fix: let derive(FixedLength) compile for tuple structs

---
 estimable_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estimable_derive/src/lib.rs b/estimable_derive/src/lib.rs
index 872e68f..710302d 100644
--- a/estimable_derive/src/lib.rs
+++ b/estimable_derive/src/lib.rs
@@ -38,8 +38,8 @@ fn impl_fixedlength(ast: &syn::DeriveInput) -> TokenStream {
                     quote! {
                     impl #fixed_len_trait for #name {
                         const LEN : usize =
-                            #( <#ty as #fixed_len_trait>::LEN )+*
-                        };
+                            #( <#ty as #fixed_len_trait>::LEN )+*;
+                        }
                     }
                 }
             },
-- 
2.43.0


From eaa1bf5501788b435d76c3f2884e03249d51ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 16/20] fix: display a finalized MemoBuilder by segment, not by
 byte

---
 src/builder/memo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder/memo.rs b/src/builder/memo.rs
index 0860090..423d493 100644
--- a/src/builder/memo.rs
+++ b/src/builder/memo.rs
@@ -117,8 +117,9 @@ impl std::fmt::Display for MemoBuffer {
         let mut ix: usize = 0;
         for l in self.lens.iter() {
             for &byte in &buf[ix..ix + l] {
-                write!(f, "{byte:02x}|")?
+                write!(f, "{byte:02x}")?
             }
+            write!(f, "|")?;
             ix += l;
         }
         write!(f, "]")
-- 
2.43.0


From 91ff91d4d6e059fb70d47a4cb71e07a6897c7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 17/20] fix: make the expose_internal feature compile

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a311c8..3229811 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,7 +68,10 @@ pub mod fixed;
 pub mod float;
 pub mod hexstring;
 pub mod int;
+#[cfg(not(feature = "expose_internal"))]
 mod internal;
+#[cfg(feature = "expose_internal")]
+pub mod internal;
 pub mod parse;
 pub mod prelude;
 pub mod prim;
@@ -76,9 +79,6 @@ pub mod schema;
 pub mod seq;
 pub mod zarith;
 
-#[cfg(feature = "expose_internal")]
-pub use crate::internal;
-
 pub use crate::autobox::AutoBox;
 pub use crate::builder::{memo::MemoBuilder, strict::StrictBuilder, Builder};
 pub use crate::conv::{
-- 
2.43.0


From d70588c7fc2d27b4f1d226dd156fa7d1fc978b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 18/20] fix: report widths, not absolute offsets, when a window
 does not fit the current one

---
 src/internal/offset.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index b68df15..cce2ee5 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -298,6 +298,12 @@ impl ContextOffset {
                 bytes_left,
                 request,
             }))
+        } else if winsize > self.rem() {
+            // frames hold target offsets; the error speaks of widths
+            Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
+                limit: self.rem(),
+                request: winsize,
+            }))
         } else {
             self.frames.push_frame(cur + winsize)
         }
-- 
2.43.0


From 1dd15d3517b4cff0b0725dae7b50d9fa7b1f3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 19/20] fix: conversion errors of ranges with a positive
 minimum name the number given and the declared bounds

---
 src/int.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 053716a..3518893 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -471,10 +471,15 @@ pub mod ranged_int_impls {
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
                     let numeric: i128 = val.try_into()?;
-                    let underlying = if MIN <= 0 { numeric } else { numeric - i128::from(MIN) };
-                    match BoundsError::restrict(underlying, MIN, MAX) {
-                        Ok(_) => unsafe { Ok(Self::from_numeric_unchecked(val)) }
-                        Err(e) => Err(e)
+                    let (min, max) = (i128::from(MIN), i128::from(MAX));
+                    if min > max {
+                        Err(BoundsError::InvalidBounds { min, max })
+                    } else if numeric < min {
+                        Err(BoundsError::Underflow { min, val: numeric })
+                    } else if numeric > max {
+                        Err(BoundsError::Overflow { max, val: numeric })
+                    } else {
+                        Ok(unsafe { Self::from_numeric_unchecked(val) })
                     }
                 }
             }
-- 
2.43.0


From 81c955ce1bb130c9977f2e3e7f24a2adf170105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:49 +0000
Subject: [PATCH 20/20] fix: MemoParser::skip_exactly left no record of the
 bytes it skipped

dump_state (and the trace printed on a refused read) showed other bytes than
those consumed after a skip_exactly, as its munch was not recorded.
---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index e0c74e8..e0fc5ed 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1027,6 +1027,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0

