From 8468b83ed3d772dacd68fa8d8eb05336fee9463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 01/16] fix: insert unsized values at the element's byte
 offset, not at its index

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 46ce0454ab4e32cbcf76cf29992432f6e99fd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 02/16] fix: from_sized must store the end offset of each
 element, not its start

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..9021eb1 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..9e31761 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1052,7 +1052,9 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked(
+                        (index + 1).unchecked_mul(mem::size_of::<S>()),
+                    )
                 },
             })
             .collect();
-- 
2.43.0


From 9879e5b6fef899e63d2b717401202115d091d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 03/16] fix: nth, last and next_back of partially consumed
 iterators start at the current offset

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9021eb1..a374771 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -734,7 +734,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -776,7 +776,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 9e31761..a6befee 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1132,7 +1132,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1181,7 +1181,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From 50c8e14b9022ae219b3a26a1e549f0f64e70d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 04/16] fix: byte capacity of Sized vecs: count bytes in
 elements, don't divide by zero for ZSTs

---
 src/inner/sized.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..8a7dffa 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -69,12 +69,15 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        // Zero-sized elements never take up any bytes.
+        if mem::size_of::<T>() == 0 {
+            return Ok(());
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let needed = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(free.saturating_add(needed))?)
     }
 
     #[inline]
@@ -86,7 +89,7 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     ) {
         let min_capacity = cmp::max(
             min_capacity,
-            min_byte_capacity.div_ceil(mem::size_of::<T>()),
+            min_byte_capacity.div_ceil(cmp::max(mem::size_of::<T>(), 1)),
         );
         self.shrink_to(min_capacity);
     }
-- 
2.43.0


From a286a4981931b74a645c185aec05f8b52d016f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 05/16] fix: shrink_to must shrink the capacity of Sized vecs

---
 src/inner.rs           | 3 +++
 src/inner/aligned.rs   | 5 +++++
 src/inner/sized.rs     | 5 +++++
 src/inner/unaligned.rs | 5 +++++
 src/lib.rs             | 6 +-----
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..68b5ea0 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -138,6 +138,9 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Shrinks only the elementwise capacity.
+    fn shrink_capacity_to(&mut self, min_capacity: usize);
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a374771..120aecb 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -204,6 +204,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 8a7dffa..6d3fdaf 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -80,6 +80,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         Ok(self.try_reserve_exact(free.saturating_add(needed))?)
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a6befee..fad2c9c 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -475,6 +475,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_capacity_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/lib.rs b/src/lib.rs
index 203b052..c3f43da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -687,11 +687,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner.shrink_capacity_to(min_capacity);
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From 755001c04ca69db91f7aeac8e97c925ecf1fec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 06/16] fix: exact reservation must be exact and count the
 unused capacity

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3f43da..abe0cce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -660,11 +660,13 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
 
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
-- 
2.43.0


From ef2b3905052c3082d9c463a11afa1b7434688084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 07/16] fix: failed try_reserve must return its error, not
 panic

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index abe0cce..37c3ea3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,12 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        // (A capacity of `usize::MAX` means zero-sized elements.)
+        debug_assert!(
+            result.is_err()
+                || self.capacity() == usize::MAX
+                || self.unused_byte_cap() >= additional_bytes
+        );
 
         result
     }
-- 
2.43.0


From 29531186482f5e10d928d57e5a94c31cbb6321dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 08/16] fix: push_with and insert_with must use existing byte
 capacity before reallocating

---
 src/inner/aligned.rs   |  8 ++++++--
 src/inner/unaligned.rs | 11 ++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 120aecb..4d87e99 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -322,9 +322,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
+                let unused_bytes = self.byte_capacity.get() - self.byte_len().get();
+                let needed_bytes = layout.size().saturating_sub(unused_bytes);
                 let reserve_result = self
                     .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -508,9 +510,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
+                let unused_bytes = self.byte_capacity.get() - self.byte_len().get();
+                let needed_bytes = layout.size().saturating_sub(unused_bytes);
                 let reserve_result = self
                     .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                    .and_then(|()| self.try_reserve_additional_bytes_align(needed_bytes, ()));
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index fad2c9c..a2e46ba 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -678,11 +678,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
+                let unused_bytes = self.byte_capacity.get() - self.aligned_byte_len().get();
+                let needed_bytes = unaligned_size_of_val.get().saturating_sub(unused_bytes);
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
@@ -884,8 +883,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
+                let unused_bytes = self.byte_capacity.get() - self.aligned_byte_len().get();
+                let needed_bytes = layout.size().saturating_sub(unused_bytes);
                 let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
+                    self.try_reserve_additional_bytes_align(needed_bytes, align_of_val)
                 });
                 unwrap_try_reserve_result(reserve_result);
 
-- 
2.43.0


From 0768585d9a6e1c96f960a3168e50fb4bb2c4fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 09/16] fix: reserving a larger align without bytes must raise
 the vec's align

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a2e46ba..ac3b445 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -470,6 +470,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From bdfc0fdb61e1fce4632d5d3777d3bba03ac91a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 10/16] fix: shrinking must keep the byte capacity a multiple
 of the align

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index ac3b445..ef4da4d 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -513,6 +513,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From 6fb0b879a8f2b44735a00b9003ede660e8b6832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 11/16] fix: realign_down must compute and store the new
 offsets

---
 src/inner/unaligned.rs | 43 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index ef4da4d..37e1c0e 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -256,29 +256,13 @@ impl<T: ?Sized> UnalignedVecInner<T> {
         //
         // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
 
-        let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
-
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
-
-            // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+        let mut old_start_offset = ValidSizeUnaligned::ZERO;
+        let mut new_start_offset = ValidSizeUnaligned::ZERO;
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
+            let old_end_offset = *end_offset;
 
             // SAFETY: End offset >= start offset
-            let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
+            let size_of_val = unsafe { old_end_offset.unchecked_sub(old_start_offset) };
 
             // SAFETY: moving element to new correct position, as computed above
             unsafe {
@@ -289,16 +273,13 @@ impl<T: ?Sized> UnalignedVecInner<T> {
                 );
             }
 
-            // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
-            // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
-            shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
-            };
+            // SAFETY: can't overflow as the element doesn't move to the right.
+            // Pads can't overflow as otherwise old offsets would be invalid.
+            unsafe {
+                *end_offset = new_start_offset.unchecked_add(size_of_val);
+                old_start_offset = old_end_offset.unchecked_pad_to(old_align);
+                new_start_offset = end_offset.unchecked_pad_to(new_align);
+            }
         }
     }
 }
-- 
2.43.0


From a55ca9b20d694dc7abbbde8819575e2561147fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 12/16] fix: inserting after or removing the last element must
 not underflow its padding

---
 src/inner/unaligned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 37e1c0e..a26aaa8 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -592,7 +592,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -678,10 +678,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -814,10 +814,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 3b45d1d442d2eb81da991114f2048b7817c96580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 13/16] fix: a panic while removing an element must not leave
 it in the vec

---
 src/inner/aligned.rs   | 89 +++++++++++++++++++++++++++--------------
 src/inner/sized.rs     | 36 ++++++++++++-----
 src/inner/unaligned.rs | 91 +++++++++++++++++++++++++++---------------
 3 files changed, 143 insertions(+), 73 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 4d87e99..f31a289 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -388,17 +388,64 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure the removed element is no longer part of the vec
+        /// and the elements following it are moved back, even if `emplacer_closure` panics.
+        struct ElementRemover<'a, T: ?Sized + Aligned> {
+            vec: &'a mut AlignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSize<T>,
+            /// Including padding
+            size_in_vec: ValidSize<T>,
+        }
+
+        impl<T: ?Sized + Aligned> Drop for ElementRemover<'_, T> {
+            fn drop(&mut self) {
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size_in_vec);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move =
+                    unsafe { self.vec.byte_len().unchecked_sub(self.start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = self
+                        .vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get());
+                    ptr::copy(
+                        ptr_to_elem.add(self.size_in_vec.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
-        // We can't remove the metadata yet, as `emplacer_closure` might unwind,
-        // so we can't leave vec metadata in an invalid state.
+        // We can't remove the metadata yet, `remover` does that
+        // after `emplacer_closure` returns or unwinds.
         // SAFETY: by precondition of function
         let removed_elem_metadata = unsafe { self.elems_info.get_unchecked(index) };
 
         let ElementInfo {
             metadata,
             end_offset,
-        } = removed_elem_metadata;
+        } = *removed_elem_metadata;
 
         // SAFETY: precondition of function
         let start_offset = unsafe { self.start_offset_of_unchecked(index) };
@@ -418,6 +465,14 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 .add(start_offset.get())
         };
 
+        // Dropped at the end of the function, or if `emplacer_closure` unwinds.
+        let _remover = ElementRemover {
+            vec: self,
+            index,
+            start_offset,
+            size_in_vec: size_of_val,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -444,34 +499,6 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 unsafe { wide_ptr.drop_in_place() }
             }
         });
-
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(size_of_val);
-            }
-        }
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { self.byte_len().unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(size_of_val.get()),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
     }
 
     unsafe fn push_unchecked(&mut self, value: T, size_of_val: ValidSize<T>) {
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 6d3fdaf..2eb15a3 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -183,6 +183,27 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure the elements following the removed one
+        /// are moved back, even if `emplacer_closure` panics.
+        struct ElementMoverBack<T> {
+            ptr_to_index: *mut T,
+            num_elems_to_move: usize,
+        }
+
+        impl<T> Drop for ElementMoverBack<T> {
+            #[inline]
+            fn drop(&mut self) {
+                // SAFETY: copy elements back where they belong
+                unsafe {
+                    ptr::copy(
+                        self.ptr_to_index.add(1),
+                        self.ptr_to_index,
+                        self.num_elems_to_move,
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
         // SAFETY: precondition of function
@@ -200,6 +221,12 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         // SAFETY: old_len > index, so old_len - 1 == new_len >= index
         let how_much_to_move = unsafe { new_len.unchecked_sub(index) };
 
+        // Dropped at the end of the function, or if `emplacer_closure` unwinds.
+        let _mover_back = ElementMoverBack {
+            ptr_to_index: thin_ptr_to_elem.cast_mut(),
+            num_elems_to_move: how_much_to_move,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -220,15 +247,6 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
                 unsafe { typed_ptr_to_elem.drop_in_place() }
             }
         });
-
-        // SAFETY: copy elements back where they belong
-        unsafe {
-            ptr::copy(
-                thin_ptr_to_elem.add(1),
-                thin_ptr_to_elem.cast_mut(),
-                how_much_to_move,
-            );
-        }
     }
 
     #[inline]
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index a26aaa8..f610fad 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -733,17 +733,64 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
     }
 
     unsafe fn remove_into_unchecked(&mut self, index: usize, emplacer: &mut Emplacer<'_, T>) {
+        /// Helper to ensure the removed element is no longer part of the vec
+        /// and the elements following it are moved back, even if `emplacer_closure` panics.
+        struct ElementRemover<'a, T: ?Sized> {
+            vec: &'a mut UnalignedVecInner<T>,
+            index: usize,
+            start_offset: ValidSizeUnaligned,
+            /// Including padding
+            size_in_vec: ValidSizeUnaligned,
+        }
+
+        impl<T: ?Sized> Drop for ElementRemover<'_, T> {
+            fn drop(&mut self) {
+                // FIXME elide bounds check
+                self.vec.elems_info.remove(self.index);
+
+                for ElementInfo { end_offset, .. } in
+                    // SAFETY: `index` in range by preconditions of function.
+                    unsafe { self.vec.elems_info.get_unchecked_mut(self.index..) }
+                {
+                    // SAFETY: `end_fooset >= size_of_val` for elements following something
+                    // of size `size_of_val`
+                    unsafe {
+                        *end_offset = end_offset.unchecked_sub(self.size_in_vec);
+                    }
+                }
+
+                // SAFETY: new end of vec can't be to the left of old start of elem at `index`
+                let how_much_to_move =
+                    unsafe { self.vec.aligned_byte_len().unchecked_sub(self.start_offset) };
+
+                // SAFETY: copying elements back where they belong
+                unsafe {
+                    let ptr_to_elem = self
+                        .vec
+                        .ptr
+                        .as_ptr()
+                        .cast::<u8>()
+                        .add(self.start_offset.get());
+                    ptr::copy(
+                        ptr_to_elem.add(self.size_in_vec.get()),
+                        ptr_to_elem,
+                        how_much_to_move.get(),
+                    );
+                }
+            }
+        }
+
         debug_assert!(index < self.len());
 
-        // We can't remove the metadata yet, as `emplacer_closure` might unwind,
-        // so we can't leave vec metadata in an invalid state.
+        // We can't remove the metadata yet, `remover` does that
+        // after `emplacer_closure` returns or unwinds.
         // SAFETY: by precondition of function
         let removed_elem_metadata = unsafe { self.elems_info.get_unchecked(index) };
 
         let ElementInfo {
             metadata,
             end_offset,
-        } = removed_elem_metadata;
+        } = *removed_elem_metadata;
 
         // SAFETY: precondition of function
         let start_offset = unsafe { self.start_offset_of_unchecked(index) };
@@ -771,6 +818,14 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: the element is still initialized at this point
         let align_of_val = ValidAlign::of_val(unsafe { &*wide_ptr_to_elem });
 
+        // Dropped at the end of the function, or if `emplacer_closure` unwinds.
+        let _remover = ElementRemover {
+            vec: self,
+            index,
+            start_offset,
+            size_in_vec: aligned_size_of_val,
+        };
+
         // Copy element into the place
 
         // SAFETY: we call the closure right after we unwrap it
@@ -797,36 +852,6 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             },
         );
-
-        // Now that `emplacer_closure` has run successfuly, we don't need to worry
-        // about exception safety anymore.
-        // FIXME elide bounds check
-        self.elems_info.remove(index);
-
-        for ElementInfo { end_offset, .. } in
-            // SAFETY: `index` in range by preconditions of function.
-            unsafe { self.elems_info.get_unchecked_mut(index..) }
-        {
-            // SAFETY: `end_fooset >= size_of_val` for elements following something
-            // of size `size_of_val`
-            unsafe {
-                *end_offset = end_offset.unchecked_sub(aligned_size_of_val);
-            }
-        }
-
-        let aligned_len = self.aligned_byte_len();
-
-        // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
-
-        // SAFETY: copying elements back where they belong
-        unsafe {
-            ptr::copy(
-                ptr_to_elem.add(aligned_size_of_val.get()),
-                ptr_to_elem.cast_mut(),
-                how_much_to_move.get(),
-            );
-        }
     }
 
     #[inline]
-- 
2.43.0


From 2337ea7037bc042da85f157efc57856a4c22dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 14/16] fix: emplacable for a slice of Copy elements must copy
 the elements, not the reference

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From 5825c044d1e04904b2e6e0fd4571d03f0fd93830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 15/16] fix: emplacable of a Vec must announce the layout of
 the slice, not of the capacity

---
 emplacable/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..0dc9e34 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1080,6 +1080,8 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
             let ptr = vec.as_mut_ptr();
             let len = vec.len();
             let capacity = vec.capacity();
+            // The layout of the slice, without the unused capacity of the vec.
+            let slice_layout = Layout::for_value::<[T]>(&vec);
             // SAFETY: values come from the vec
             let layout = unsafe {
                 Layout::from_size_align_unchecked(
@@ -1090,7 +1092,7 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
 
             // SAFETY: we fulfill the preconditions
             let emplacer_closure = unsafe { emplacer.into_fn() };
-            emplacer_closure(layout, len, &mut |out_ptr| {
+            emplacer_closure(slice_layout, len, &mut |out_ptr| {
                 if !out_ptr.is_null() {
                     // SAFETY: checked for null, copying correct number of bytes.
                     // `Vec` is in a `ManuallyDrop`, so no double drop
-- 
2.43.0


From 55110216463ebbcd1412d29d1e52bc35373505d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 16/16] fix: the alignment of CStr is that of a CStr, not of a
 reference to one

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0

