From 331521e518eaed2db9fbd8ae7b4ab0dab1cc1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 01/19] fix: insert unsized values at the byte offset of the
 index, not at the index itself

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a8f2705..fc921db 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -251,7 +251,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index da84c87..242b3a0 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -606,7 +606,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             let start_offset = self.start_offset_of_unchecked(index);
             let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
 
-            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(index);
+            let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
             ptr::copy(
                 start_ptr,
-- 
2.43.0


From 3bffea8c85f823a338c957ccc3d1d6c0fd2db583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 02/19] fix: unsize must record the end offset of each element,
 not its start

---
 src/inner/aligned.rs   | 2 +-
 src/inner/unaligned.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index fc921db..9021eb1 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -661,7 +661,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSize::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSize::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 242b3a0..b347aaf 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1052,7 +1052,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 metadata,
                 // SAFETY: can't overflow, as otherwise allocation would be overflowing
                 end_offset: unsafe {
-                    ValidSizeUnaligned::new_unchecked(index.unchecked_mul(mem::size_of::<S>()))
+                    ValidSizeUnaligned::new_unchecked((index + 1).unchecked_mul(mem::size_of::<S>()))
                 },
             })
             .collect();
-- 
2.43.0


From ddd62337195176a40beecebf2e4b8c0efd42b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 03/19] fix: iterators must start from their current offset
 when nothing precedes the element

---
 src/inner/aligned.rs   | 4 ++--
 src/inner/unaligned.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 9021eb1..a374771 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -734,7 +734,7 @@ macro_rules! iter_ref {
                     .checked_sub(1)
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 let ElementInfo {
                     metadata,
@@ -776,7 +776,7 @@ macro_rules! iter_ref {
                     .elems_info
                     .as_slice()
                     .last()
-                    .map_or(ValidSize::ZERO, |e_i| e_i.end_offset);
+                    .map_or(self.start_offset, |e_i| e_i.end_offset);
 
                 // SAFETY: end of element can't be smaller than start
                 let size_of_val = unsafe { end_offset.unchecked_sub(start_offset) };
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index b347aaf..22a8148 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -1130,7 +1130,7 @@ macro_rules! iter_ref {
                     .and_then(|n| self.elems_info.nth(n))
                     .copied()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
@@ -1179,7 +1179,7 @@ macro_rules! iter_ref {
                     .as_slice()
                     .last()
                     // SAFETY: offset comes from the vec
-                    .map_or(ValidSizeUnaligned::ZERO, |e_i| unsafe {
+                    .map_or(self.start_offset, |e_i| unsafe {
                         e_i.end_offset.unchecked_pad_to(self.align)
                     });
 
-- 
2.43.0


From 277f5a5ca315ae819e4ab7ef3328704b8454d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 04/19] fix: realign_down must store the new offsets and read
 elements from their old position

---
 src/inner/unaligned.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 22a8148..adf4cd4 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -257,25 +257,15 @@ impl<T: ?Sized> UnalignedVecInner<T> {
         // This is a lot simpler than `realign_up`, we can do everyting in a single pass.
 
         let mut shift_back = ValidSizeUnaligned::ZERO;
-        for &[
-            ElementInfo {
-                end_offset: prev_new_end_offset,
-                ..
-            },
-            ElementInfo {
-                end_offset: old_end_offset,
-                ..
-            },
-        ] in self.elems_info.array_windows::<2>()
-        {
+        let mut old_start_offset = ValidSizeUnaligned::ZERO;
+        for ElementInfo { end_offset, .. } in self.elems_info.iter_mut() {
+            let old_end_offset = *end_offset;
+
             // SAFETY: shift must be smaller than size of allocation up to this point
             let new_end_offset = unsafe { old_end_offset.unchecked_sub(shift_back) };
 
-            // SAFETY: can't overflow, or else unshifted allocation would have overflowed
-            let new_start_offset = unsafe { prev_new_end_offset.unchecked_pad_to(new_align) };
-
             // SAFETY: shift must be smaller than size of allocation up to this point
-            let old_start_offset = unsafe { new_start_offset.unchecked_sub(shift_back) };
+            let new_start_offset = unsafe { old_start_offset.unchecked_sub(shift_back) };
 
             // SAFETY: End offset >= start offset
             let size_of_val = unsafe { new_end_offset.unchecked_sub(new_start_offset) };
@@ -289,15 +279,13 @@ impl<T: ?Sized> UnalignedVecInner<T> {
                 );
             }
 
+            *end_offset = new_end_offset;
+
             // SAFETY: pads can't overfolow as otherwise old offsets would be invalid.
             // Sub can't overflow as new_align < old_align.
-            // Add can't overflow as we can't shift more than the entire size of the allocation.
             shift_back = unsafe {
-                shift_back.unchecked_add(
-                    new_end_offset
-                        .unchecked_pad_to(old_align)
-                        .unchecked_sub(new_end_offset.unchecked_pad_to(new_align)),
-                )
+                old_start_offset = old_end_offset.unchecked_pad_to(old_align);
+                old_start_offset.unchecked_sub(new_end_offset.unchecked_pad_to(new_align))
             };
         }
     }
-- 
2.43.0


From 61158f4fde533e80b098761f2af153f82bb99fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 05/19] fix: shrinking must keep the byte capacity a multiple
 of the alignment

---
 src/inner/unaligned.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index adf4cd4..5e6fe1b 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -489,12 +489,13 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         let new_byte_capacity = cmp::max(
             // SAFETY: `old_byte_capacity` is a valid
             // `ValidSizeUnaligned`, and result of `cmp::min`
-            // can't be bigger than it
+            // can't be bigger than it, padded or not
             unsafe {
                 ValidSizeUnaligned::new_unchecked(cmp::min(
                     min_byte_capacity,
                     old_byte_capacity.get(),
                 ))
+                .unchecked_pad_to(new_align)
             },
             new_aligned_byte_len,
         );
-- 
2.43.0


From f45d14b4462ee6486c23e0eeecb4abb37da0ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 06/19] fix: raising the alignment of a vec without storage
 must be recorded

---
 src/inner/unaligned.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 5e6fe1b..46a2593 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -458,6 +458,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 }
             } else {
                 self.ptr = new_align.dangling_thin();
+                self.align = new_align;
             }
         }
         Ok(())
-- 
2.43.0


From 301b044a0b85d03b69b8269fd8d12779f7f3ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 07/19] fix: moving trailing elements must not underflow when
 the index is at the padded end

---
 src/inner/unaligned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index 46a2593..be51502 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -594,7 +594,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         // SAFETY: preconditions of function
         unsafe {
             let start_offset = self.start_offset_of_unchecked(index);
-            let how_much_to_move = self.unaligned_byte_len().unchecked_sub(start_offset);
+            let how_much_to_move = self.aligned_byte_len().unchecked_sub(start_offset);
 
             let start_ptr = self.ptr.cast::<u8>().as_ptr().add(start_offset.get());
 
@@ -681,10 +681,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
                 // SAFETY: getting pointer to element
                 let ptr_to_elem = unsafe { self.ptr.cast::<u8>().as_ptr().add(start_offset.get()) };
 
-                let unaligned_len = self.unaligned_byte_len();
+                let aligned_len = self.aligned_byte_len();
 
                 // SAFETY: by precondition of function
-                let num_bytes_to_shift = unsafe { unaligned_len.unchecked_sub(start_offset) };
+                let num_bytes_to_shift = unsafe { aligned_len.unchecked_sub(start_offset) };
 
                 let shifter_backer = ElementShifterBacker {
                     ptr_to_index: ptr_to_elem,
@@ -817,10 +817,10 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             }
         }
 
-        let unaligned_len = self.unaligned_byte_len();
+        let aligned_len = self.aligned_byte_len();
 
         // SAFETY: new end of vec can't be to the left of old start of elem at `index`
-        let how_much_to_move = unsafe { unaligned_len.unchecked_sub(start_offset) };
+        let how_much_to_move = unsafe { aligned_len.unchecked_sub(start_offset) };
 
         // SAFETY: copying elements back where they belong
         unsafe {
-- 
2.43.0


From 41fa73119aebe2482a0ff068bc93aba078574b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 08/19] fix: vecs of zero-sized sized types must not divide by
 their element size

---
 src/inner/sized.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 0c661b7..6ec35fe 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -69,6 +69,10 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         additional_bytes: usize,
         _align: (),
     ) -> Result<(), TryReserveError> {
+        if mem::size_of::<T>() == 0 {
+            return Ok(());
+        }
+
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
         let needed = additional_bytes
@@ -86,7 +90,7 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     ) {
         let min_capacity = cmp::max(
             min_capacity,
-            min_byte_capacity.div_ceil(mem::size_of::<T>()),
+            min_byte_capacity.div_ceil(cmp::max(mem::size_of::<T>(), 1)),
         );
         self.shrink_to(min_capacity);
     }
-- 
2.43.0


From 50d50b0a552cf7bbd9a855b1fc62bdd5b6170756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 09/19] fix: byte reservations must count bytes once and
 provide what was asked for

---
 src/inner/sized.rs | 6 ++----
 src/lib.rs         | 6 ++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 6ec35fe..97880a8 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -75,10 +75,8 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         // SAFETY: capacity >= len
         let free = unsafe { self.capacity().unchecked_sub(self.len()) };
-        let needed = additional_bytes
-            .saturating_add(free)
-            .div_ceil(mem::size_of::<T>());
-        Ok(self.try_reserve_exact(needed.saturating_sub(free))?)
+        let needed = additional_bytes.div_ceil(mem::size_of::<T>());
+        Ok(self.try_reserve_exact(needed.saturating_add(free))?)
     }
 
     #[inline]
diff --git a/src/lib.rs b/src/lib.rs
index 203b052..e0b124f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -660,11 +660,13 @@ impl<T: ?Sized> UnsizedVec<T> {
         additional_bytes: usize,
         align: usize,
     ) -> Result<(), TryReserveError> {
-        self.inner.try_reserve(additional)?;
+        self.inner.try_reserve_exact(additional)?;
         let align = to_align::<T>(align);
 
+        let needed_bytes = additional_bytes.saturating_sub(self.unused_byte_cap());
+
         self.inner
-            .try_reserve_additional_bytes_align(additional_bytes, align)
+            .try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
     /// Shrinks all the capacities of the vec as much as possible.
-- 
2.43.0


From 273dacfd6cf0fb0046474c8cc040aadf2db911f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 10/19] fix: a failed byte reservation must return its error
 instead of tripping an assertion

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e0b124f..2877713 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,7 +582,9 @@ impl<T: ?Sized> UnsizedVec<T> {
             .inner
             .try_reserve_additional_bytes_align(needed_bytes, align);
 
-        debug_assert!(self.byte_capacity() >= self.byte_len() + additional_bytes);
+        debug_assert!(
+            result.is_err() || self.byte_capacity() >= self.byte_len() + additional_bytes
+        );
 
         result
     }
-- 
2.43.0


From a44f22b4d386420473102be1df8cdbb8ae718ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 11/19] fix: the alignment of CStr is that of its bytes, not of
 a pointer

---
 src/marker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 4eda8c9..11ace36 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -39,5 +39,5 @@ unsafe impl Aligned for str {
 
 // SAFETY: All `CStrs`s have the same alignment
 unsafe impl Aligned for CStr {
-    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(&c"")).unwrap();
+    const ALIGN: ValidAlign = ValidAlign::new(mem::align_of_val(c"")).unwrap();
 }
-- 
2.43.0


From 533c0795ddeeeb79aa0a90af66dcb50051fd4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 12/19] fix: emplacing a slice of Copy values must copy the
 values, not the slice reference

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a624aa7..a6ffadd 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -774,7 +774,7 @@ impl<T: Copy> CopyToBuf for T {
         // SAFETY: copying value where it belongs. safe to write to
         // `buf` by preconditions of function
         unsafe {
-            ptr::copy_nonoverlapping(addr_of!(slice).cast(), buf, slice.len());
+            ptr::copy_nonoverlapping(slice.as_ptr(), buf, slice.len());
         }
     }
 }
-- 
2.43.0


From b926ddd1c0c0c252b9297fdd1fb0f04fadf187da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 13/19] fix: an emplacable made from a Vec must announce the
 layout of its elements, not of its capacity

---
 emplacable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emplacable/src/lib.rs b/emplacable/src/lib.rs
index a6ffadd..b1153b7 100644
--- a/emplacable/src/lib.rs
+++ b/emplacable/src/lib.rs
@@ -1090,7 +1090,7 @@ impl<T> IntoEmplacable<[T]> for Vec<T> {
 
             // SAFETY: we fulfill the preconditions
             let emplacer_closure = unsafe { emplacer.into_fn() };
-            emplacer_closure(layout, len, &mut |out_ptr| {
+            emplacer_closure(Layout::for_value(&**vec), len, &mut |out_ptr| {
                 if !out_ptr.is_null() {
                     // SAFETY: checked for null, copying correct number of bytes.
                     // `Vec` is in a `ManuallyDrop`, so no double drop
-- 
2.43.0


From b65b5a3b58220e45e73445d9431a599022da19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 14/19] fix: a removed element whose destructor or receiver
 unwinds must neither be dropped twice nor displace others

---
 src/inner.rs           | 27 +++++++++++++++++++++++++--
 src/inner/aligned.rs   | 14 +++++++++++++-
 src/inner/sized.rs     | 24 ++++++++++++++++++------
 src/inner/unaligned.rs | 12 +++++++++++-
 4 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 4257f49..fe486a9 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -5,7 +5,7 @@
 use core::{
     hash::Hash,
     iter::FusedIterator,
-    marker::Unsize,
+    marker::{PhantomData, Unsize},
     mem,
     panic::{RefUnwindSafe, UnwindSafe},
     ptr::NonNull,
@@ -20,7 +20,7 @@ use crate::{
     marker::Aligned,
 };
 
-use emplacable::{Emplacable, EmplacableFn, Emplacer};
+use emplacable::{Emplacable, EmplacableFn, Emplacer, EmplacerFn};
 
 mod aligned;
 mod sized;
@@ -91,6 +91,29 @@ impl<T> Size<T> for () {
     }
 }
 
+/// While an element is leaving the vec through an emplacer,
+/// ensures that it is taken out of the vec if the emplacer
+/// has already consumed it when it unwinds.
+struct RemoveOnUnwind<'a, T: ?Sized, V: UnsizedVecProvider<T>> {
+    vec: &'a mut V,
+    index: usize,
+    consumed: bool,
+    _marker: PhantomData<fn(T)>,
+}
+
+impl<T: ?Sized, V: UnsizedVecProvider<T>> Drop for RemoveOnUnwind<'_, T, V> {
+    fn drop(&mut self) {
+        if self.consumed {
+            let forgetter: &mut EmplacerFn<'_, T> = &mut |_, _, _| ();
+            // SAFETY: the element is still in the vec, and we forget it
+            unsafe {
+                self.vec
+                    .remove_into_unchecked(self.index, Emplacer::from_fn(forgetter));
+            }
+        }
+    }
+}
+
 /// Implementation of `UnsizedVec`.
 /// Different impls for for `T: ?Aligned`, `T: Aligned`,
 /// and `T: Sized`.
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index a374771..09dcdea 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -18,7 +18,9 @@ use crate::{
     unwrap_try_reserve_result,
 };
 
-use super::{AlignedVecImpl, AlignedVecProvider, TryReserveError, UnsizedVecProvider};
+use super::{
+    AlignedVecImpl, AlignedVecProvider, RemoveOnUnwind, TryReserveError, UnsizedVecProvider,
+};
 
 struct ElementInfo<T: ?Sized + Aligned> {
     /// The pointer metadata of the element.
@@ -413,12 +415,20 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
 
         // Copy element into the place
 
+        let mut remove_on_unwind = RemoveOnUnwind {
+            vec: self,
+            index,
+            consumed: false,
+            _marker: PhantomData,
+        };
+
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
         // The emplacer can choose never to run the inner closure at all! In this case, the removed value
         // is simply forgotten.
         emplacer_closure(size_of_val.as_layout(), metadata, &mut |out_ptr| {
+            remove_on_unwind.consumed = true;
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -438,6 +448,8 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
             }
         });
 
+        mem::forget(remove_on_unwind);
+
         // Now that `emplacer_closure` has run successfuly, we don't need to worry
         // about exception safety anymore.
         // FIXME elide bounds check
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 97880a8..113caa1 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -13,7 +13,9 @@ use emplacable::{Emplacable, EmplacableFn, Emplacer};
 
 use crate::unwrap_try_reserve_result;
 
-use super::{AlignedVecImpl, AlignedVecProvider, TryReserveError, UnsizedVecProvider};
+use super::{
+    AlignedVecImpl, AlignedVecProvider, RemoveOnUnwind, TryReserveError, UnsizedVecProvider,
+};
 
 impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
     type Align = ();
@@ -182,11 +184,6 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         // SAFETY: precondition of function
         let new_len = unsafe { self.len().unchecked_sub(1) };
 
-        // Set new length of vector
-
-        // SAFETY: new_len < old_len
-        unsafe { self.set_len(new_len) };
-
         // Get pointer to the element we are popping out of the vec
         // SAFETY: offset comes from vec
         let thin_ptr_to_elem = unsafe { self.as_ptr().add(index) };
@@ -196,10 +193,18 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         // Copy element into the place
 
+        let mut remove_on_unwind = RemoveOnUnwind {
+            vec: self,
+            index,
+            consumed: false,
+            _marker: PhantomData,
+        };
+
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
         emplacer_closure(Layout::new::<T>(), (), &mut |out_ptr| {
+            remove_on_unwind.consumed = true;
             if !out_ptr.is_null() {
                 // SAFETY: we are allowed to copy `size_of::<T>()` bytes into `out_ptr`,
                 // by the preconditions of `Emplacer::new`
@@ -215,6 +220,13 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
             }
         });
 
+        mem::forget(remove_on_unwind);
+
+        // Set new length of vector
+
+        // SAFETY: new_len < old_len
+        unsafe { self.set_len(new_len) };
+
         // SAFETY: copy elements back where they belong
         unsafe {
             ptr::copy(
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index be51502..f0bb699 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -21,7 +21,7 @@ use crate::{
     unwrap_try_reserve_result,
 };
 
-use super::{TryReserveError, UnsizedVecImpl, UnsizedVecProvider};
+use super::{RemoveOnUnwind, TryReserveError, UnsizedVecImpl, UnsizedVecProvider};
 
 struct ElementInfo<T: ?Sized> {
     /// The pointer metadata of the element.
@@ -776,6 +776,13 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
 
         // Copy element into the place
 
+        let mut remove_on_unwind = RemoveOnUnwind {
+            vec: self,
+            index,
+            consumed: false,
+            _marker: PhantomData,
+        };
+
         // SAFETY: we call the closure right after we unwrap it
         let emplacer_closure = unsafe { emplacer.into_fn() };
 
@@ -784,6 +791,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             unsafe { unaligned_size_of_val.as_layout_with_align_unchecked(align_of_val) },
             metadata,
             &mut |out_ptr| {
+                remove_on_unwind.consumed = true;
                 if !out_ptr.is_null() {
                     // SAFETY: we are allowed to copy `size_of_val` bytes into `out_ptr`,
                     // by the preconditions of `Emplacer::new`
@@ -801,6 +809,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             },
         );
 
+        mem::forget(remove_on_unwind);
+
         // Now that `emplacer_closure` has run successfuly, we don't need to worry
         // about exception safety anymore.
         // FIXME elide bounds check
-- 
2.43.0


From bfff697e3ee82dca9fbae92d9dfe797286b59c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 15/19] fix: adding an element through an emplacable must use
 spare capacity and grow geometrically

---
 src/inner.rs           | 24 ++++++++++++++++++++++++
 src/inner/aligned.rs   |  8 ++------
 src/inner/unaligned.rs | 12 +++---------
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index fe486a9..77ba51f 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -161,6 +161,30 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         align: Self::Align,
     ) -> Result<(), TryReserveError>;
 
+    /// Reserves room for one more element of the given size and alignment.
+    /// Like `try_reserve`, doubles the byte capacity if it can when growing it.
+    fn try_reserve_for_element(
+        &mut self,
+        size: usize,
+        align: Self::Align,
+    ) -> Result<(), TryReserveError> {
+        self.try_reserve(1)?;
+
+        let byte_cap = self.byte_capacity();
+        let needed_bytes = size.saturating_sub(byte_cap.saturating_sub(self.byte_len()));
+
+        if needed_bytes > 0
+            && byte_cap > needed_bytes
+            && self
+                .try_reserve_additional_bytes_align(byte_cap, align)
+                .is_ok()
+        {
+            return Ok(());
+        }
+
+        self.try_reserve_additional_bytes_align(needed_bytes, align)
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 09dcdea..6c7068a 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -319,9 +319,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve_for_element(layout.size(), ());
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: precondition of function
@@ -515,9 +513,7 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
                 // SAFETY: by `Emplacer::new` preconditions
                 let size_of_val = unsafe { ValidSize::<T>::new_unchecked(size_of_val.get()) };
 
-                let reserve_result = self
-                    .try_reserve(1)
-                    .and_then(|()| self.try_reserve_additional_bytes_align(layout.size(), ()));
+                let reserve_result = self.try_reserve_for_element(layout.size(), ());
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.byte_len();
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index f0bb699..d99c9a8 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -663,12 +663,8 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (unaligned_size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(
-                        unaligned_size_of_val.get(),
-                        align_of_val,
-                    )
-                });
+                let reserve_result =
+                    self.try_reserve_for_element(unaligned_size_of_val.get(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let aligned_size_of_val =
@@ -879,9 +875,7 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
             &mut |layout: Layout, metadata, inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
                 let (size_of_val, align_of_val) = decompose(layout);
 
-                let reserve_result = self.try_reserve(1).and_then(|()| {
-                    self.try_reserve_additional_bytes_align(layout.size(), align_of_val)
-                });
+                let reserve_result = self.try_reserve_for_element(layout.size(), align_of_val);
                 unwrap_try_reserve_result(reserve_result);
 
                 let start_offset = self.aligned_byte_len();
-- 
2.43.0


From 2e9e0b36c2475d550d96b8527e755476673e03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 16/19] fix: repeated extend must not reallocate every time

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2877713..29877e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1430,7 +1430,7 @@ where
             vec: &mut UnsizedVec<T>,
             iter: I,
         ) {
-            vec.reserve_exact(iter.size_hint().0);
+            vec.reserve(iter.size_hint().0);
             for emplacable in iter {
                 vec.push_with(emplacable);
             }
-- 
2.43.0


From fa126f3e7c3875f105a162e98d2a67e55d19eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 17/19] fix: shrink_to must also shrink vecs of sized types

---
 src/inner.rs           | 3 +++
 src/inner/aligned.rs   | 5 +++++
 src/inner/sized.rs     | 5 +++++
 src/inner/unaligned.rs | 5 +++++
 src/lib.rs             | 6 +-----
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/inner.rs b/src/inner.rs
index 77ba51f..f9e22d2 100644
--- a/src/inner.rs
+++ b/src/inner.rs
@@ -185,6 +185,9 @@ pub(super) trait UnsizedVecProvider<T: ?Sized> {
         self.try_reserve_additional_bytes_align(needed_bytes, align)
     }
 
+    /// Shrinks the element capacity only.
+    fn shrink_to(&mut self, min_capacity: usize);
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/inner/aligned.rs b/src/inner/aligned.rs
index 6c7068a..412721f 100644
--- a/src/inner/aligned.rs
+++ b/src/inner/aligned.rs
@@ -206,6 +206,11 @@ impl<T: ?Sized + Aligned> UnsizedVecProvider<T> for AlignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index 113caa1..b1cf8b5 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -81,6 +81,11 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
         Ok(self.try_reserve_exact(needed.saturating_add(free))?)
     }
 
+    #[inline]
+    fn shrink_to(&mut self, min_capacity: usize) {
+        self.shrink_to(min_capacity);
+    }
+
     #[inline]
     fn shrink_capacity_bytes_align_to(
         &mut self,
diff --git a/src/inner/unaligned.rs b/src/inner/unaligned.rs
index d99c9a8..5a37cb4 100644
--- a/src/inner/unaligned.rs
+++ b/src/inner/unaligned.rs
@@ -464,6 +464,11 @@ impl<T: ?Sized> UnsizedVecProvider<T> for UnalignedVecInner<T> {
         Ok(())
     }
 
+    #[inline]
+    fn shrink_to(&mut self, min_capacity: usize) {
+        self.elems_info.shrink_to(min_capacity);
+    }
+
     fn shrink_capacity_bytes_align_to(
         &mut self,
         min_capacity: usize,
diff --git a/src/lib.rs b/src/lib.rs
index 29877e4..de271e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -691,11 +691,7 @@ impl<T: ?Sized> UnsizedVec<T> {
     /// [`shrink_capacity_bytes_to`]: UnsizedVec::shrink_capacity_bytes_to
     #[inline]
     pub fn shrink_to(&mut self, min_capacity: usize) {
-        self.inner.shrink_capacity_bytes_align_to(
-            min_capacity,
-            usize::MAX,
-            to_align::<T>(1 << (usize::BITS - 1)),
-        );
+        self.inner.shrink_to(min_capacity);
     }
 
     /// Shrinks the elementwise and byte capacities of the vector with
-- 
2.43.0


From 96f0d9313c2c08208ff99a7c075e41cc70eaf4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 18/19] fix: insert_with into a vec of a sized type grows by
 one element at a time

Every insertion into a full vec reserved exactly one more element, so a run
of insertions at the end reallocated each time and cost quadratic memory
traffic, unlike insert, push and the other element types.
---
 src/inner/sized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inner/sized.rs b/src/inner/sized.rs
index b1cf8b5..3f630c2 100644
--- a/src/inner/sized.rs
+++ b/src/inner/sized.rs
@@ -148,7 +148,7 @@ impl<T> UnsizedVecProvider<T> for ::alloc::vec::Vec<T> {
 
         let emplacer_closure =
             &mut move |_, (), inner_closure: &mut dyn FnMut(*mut PhantomData<T>)| {
-                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve_exact(self, 1);
+                let reserve_result = <Self as UnsizedVecProvider<T>>::try_reserve(self, 1);
                 unwrap_try_reserve_result(reserve_result);
 
                 // SAFETY: by precondition of function
-- 
2.43.0


From 9a8ae6da52574b23719f86e72c24fcb6b39744dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 19/19] fix: a vec of slices of zero-sized elements loses their
 lengths

The length of a slice was recomputed from its size, which says nothing for
zero-sized elements: it was read back as 0 and no element was ever dropped.
Store the slice's own metadata, as for str.
---
 src/helper.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 626647a..939de3e 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -1,7 +1,7 @@
 pub(crate) mod valid_align;
 pub(crate) mod valid_size;
 
-use core::{alloc::Layout, hash::Hash, mem, ptr::Pointee};
+use core::{alloc::Layout, hash::Hash, ptr::Pointee};
 
 use crate::marker::Aligned;
 
@@ -17,13 +17,6 @@ impl<T> MetadataFromSize for T {
     fn from_size(_: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {}
 }
 
-impl<T> MetadataFromSize for [T] {
-    fn from_size(size: ValidSizeUnaligned) -> <Self as Pointee>::Metadata {
-        debug_assert!(size.get() != 0 || size == ValidSizeUnaligned::ZERO);
-        size.get().checked_div(mem::size_of::<T>()).unwrap_or(0)
-    }
-}
-
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub(crate) struct FullMetadataRemainder<T: Copy + Send + Sync + Ord + Hash + Unpin>(T);
 
-- 
2.43.0

