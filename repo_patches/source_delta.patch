From 9c1fc8a27fcd8c05513be407b3c36e27a3622f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 01/22] fix: VecVoid::push must move every chunk of the element

Only the first alignment sized chunk of the pushed value was stored, so pushing
a value of any type larger than its alignment (String, [f32; 3], ...) panicked.
---
 src/vec_void.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..a49f798 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -263,14 +263,19 @@ impl VecVoid {
     #[inline]
     pub(crate) fn push(&mut self, val: &[MaybeUninit<u8>]) {
         fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
+            let size = buf.elem.size;
+            assert_eq!(val.len(), buf.elem.num_bytes());
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    // SAFETY: T here is one of the T# so it's copy. The
-                    // following is effectively a move and doesn't rely on the
-                    // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
+                    // SAFETY: An element consists of `size` chunks of type `T`, which is one of
+                    // the T# so it's copy. The following is effectively a move and doesn't rely
+                    // on the "actual" type being Copy.
+                    let orig_len = v.len();
+                    v.reserve(size);
+                    let dst = v.as_mut_ptr().add(orig_len) as *mut MaybeUninit<u8>;
+                    std::ptr::copy_nonoverlapping(val.as_ptr(), dst, val.len());
+                    v.set_len(orig_len + size);
                 });
             }
         }
-- 
2.43.0


From 63997baa04a232425ff34a18a7970b03f3391022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 02/22] fix: keep the capacity a whole number of elements when
 growing

Vec's amortized growth of the underlying chunk vector can produce a capacity which
is not a multiple of the element size in chunks (e.g. [u8; 3] or [u16; 3]), which
made push, push_cloned, append and reserve panic.
---
 src/vec_void.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index a49f798..be0a448 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -113,6 +113,23 @@ impl VecVoid {
         v
     }
 
+    /// Reserve space for `additional` more elements, each occupying `size` items of `v`.
+    ///
+    /// In contrast to `Vec::reserve`, this function ensures that the capacity of `v` remains a
+    /// multiple of `size`, so that it always corresponds to a whole number of elements.
+    #[inline]
+    fn reserve_elements<T>(v: &mut Vec<T>, additional: usize, size: usize) {
+        let required = additional
+            .checked_mul(size)
+            .and_then(|n| n.checked_add(v.len()))
+            .expect("capacity overflow");
+        if required > v.capacity() {
+            // Both of these are multiples of `size`. Doubling ensures amortized growth.
+            let new_cap = required.max(v.capacity() * 2);
+            v.reserve_exact(new_cap - v.len());
+        }
+    }
+
     /// Converts a typed `Vec<T>` into a `VecVoid`.
     ///
     /// If the given `Vec<T>` has no capacity, this function allocates capacity for (at least) a single element
@@ -218,7 +235,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    VecVoid::reserve_elements(v, additional, size);
                 })
             };
         }
@@ -245,7 +262,10 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|target: &mut Vec<T>| {
+                    let size = other.elem.size;
+                    let additional = other.len;
                     other.apply_aligned_unchecked(|source: &mut Vec<T>| {
+                        VecVoid::reserve_elements(target, additional, size);
                         target.append(source);
                     });
                 });
@@ -272,7 +292,7 @@ impl VecVoid {
                     // the T# so it's copy. The following is effectively a move and doesn't rely
                     // on the "actual" type being Copy.
                     let orig_len = v.len();
-                    v.reserve(size);
+                    VecVoid::reserve_elements(v, 1, size);
                     let dst = v.as_mut_ptr().add(orig_len) as *mut MaybeUninit<u8>;
                     std::ptr::copy_nonoverlapping(val.as_ptr(), dst, val.len());
                     v.set_len(orig_len + size);
@@ -304,6 +324,7 @@ impl VecVoid {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
+                    VecVoid::reserve_elements(v, len.saturating_sub(orig_len / size), size);
                     v.resize_with(len * size, Default::default);
                     let byte_slice = std::slice::from_raw_parts_mut(
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
-- 
2.43.0


From 1fda3b641e74b73f83f6cbf6d194c235f1694852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 03/22] fix: keep the vector intact when a manipulation of it
 unwinds

A panic inside VecVoid::apply_* (an out of range rotation, capacity overflow or a
panicking user Clone in push_cloned) left behind an empty vector of unit type, which
then panicked again on drop. The new element is also exposed only once initialized.
---
 src/vec_void.rs | 49 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index be0a448..864d6c0 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -192,12 +192,23 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let orig_elem = self.elem;
-        let mut v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid value can be safely ignored
-        let _ = std::mem::replace(self, VecVoid::from_vec_override(v, orig_elem));
-        out
+        // Writes the vector back when dropped, so that `buf` remains valid even if `f` panics.
+        struct WriteBack<'a, T: 'static> {
+            buf: &'a mut VecVoid,
+            elem: ElemInfo,
+            v: Vec<T>,
+        }
+        impl<'a, T: 'static> Drop for WriteBack<'a, T> {
+            fn drop(&mut self) {
+                let v = std::mem::take(&mut self.v);
+                // Overwritten default VecVoid value can be safely ignored
+                *self.buf = unsafe { VecVoid::from_vec_override(v, self.elem) };
+            }
+        }
+        let elem = self.elem;
+        let v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
+        let mut guard = WriteBack { buf: self, elem, v };
+        f(&mut guard.v) // May allocate/deallocate
     }
 
     /// Apply a function to this vector as if it was a `Vec<T>` where `T` is
@@ -207,11 +218,20 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let mut v = std::mem::take(self).into_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid can be safely ignored.
-        let _ = std::mem::replace(self, VecVoid::from_vec(v));
-        out
+        // Writes the vector back when dropped, so that `buf` remains valid even if `f` panics.
+        struct WriteBack<'a, T: 'static> {
+            buf: &'a mut VecVoid,
+            v: Vec<T>,
+        }
+        impl<'a, T: 'static> Drop for WriteBack<'a, T> {
+            fn drop(&mut self) {
+                // Overwritten default VecVoid can be safely ignored.
+                *self.buf = VecVoid::from_vec(std::mem::take(&mut self.v));
+            }
+        }
+        let v = std::mem::take(self).into_vec_unchecked::<T>();
+        let mut guard = WriteBack { buf: self, v };
+        f(&mut guard.v) // May allocate/deallocate
     }
 
     #[inline]
@@ -325,12 +345,15 @@ impl VecVoid {
                     // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
                     VecVoid::reserve_elements(v, len.saturating_sub(orig_len / size), size);
-                    v.resize_with(len * size, Default::default);
+                    // Initialize the new element before it becomes a part of the vector, so that
+                    // it is never exposed if `init` panics.
                     let byte_slice = std::slice::from_raw_parts_mut(
-                        (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
+                        v.as_mut_ptr().add(orig_len) as *mut MaybeUninit<u8>,
                         num_bytes,
                     );
                     init(byte_slice);
+                    v.set_len(orig_len + size);
+                    v.resize_with(len * size, Default::default);
                 });
             }
         }
-- 
2.43.0


From 50ef6976044b206fbf881650885cc90930ba1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 04/22] fix: don't drop elements twice if one panics in
 VecDyn::clear or resize

The elements were dropped while still being a part of the vector.
---
 src/vec_dyn.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..32c7907 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -49,7 +49,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
-    mem::ManuallyDrop,
+    mem::{ManuallyDrop, MaybeUninit},
     slice,
 };
 
@@ -257,12 +257,28 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     #[inline]
     pub fn clear(&mut self) {
         // Drop all elements manually.
-        unsafe {
-            let VecCopy { data, vtable, .. } = &mut *self.data;
-            for elem_bytes in data.byte_chunks_mut() {
-                vtable.drop_fn()(elem_bytes);
-            }
-            data.clear();
+        unsafe { self.truncate(0) };
+    }
+
+    /// Drop all elements past the first `new_len` ones.
+    ///
+    /// # Safety
+    ///
+    /// `new_len` must be at most `self.len()`.
+    #[inline]
+    unsafe fn truncate(&mut self, new_len: usize) {
+        let VecCopy { data, vtable, .. } = &mut *self.data;
+        // Give up the trailing elements before dropping them, so that they are not dropped again
+        // if one of them panics while being dropped.
+        let num_trailing = data.len() - new_len;
+        data.truncate(new_len);
+        let num_bytes = data.elem.num_bytes();
+        let trailing = slice::from_raw_parts_mut(
+            (data.ptr as *mut MaybeUninit<u8>).add(new_len * num_bytes),
+            num_trailing * num_bytes,
+        );
+        for elem_bytes in trailing.chunks_exact_mut(num_bytes) {
+            vtable.drop_fn()(elem_bytes);
         }
     }
 
@@ -682,16 +698,7 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
                 self.data.push_as(value.clone());
             }
         } else {
-            // Drop trailing elements manually.
-            unsafe {
-                let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut().skip(new_len) {
-                    vtable.drop_fn()(elem_bytes);
-                }
-            }
-
-            // Truncate data
-            self.data.data.truncate(new_len);
+            unsafe { self.truncate(new_len) };
         }
         Some(self)
     }
-- 
2.43.0


From 9014992d75a2a1968b8ff2506d60570d86c049a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 05/22] fix: containers of different lengths are not equal

VecDyn, Slice and SliceMut compared equal if one was a prefix of the other.
---
 src/slice.rs   | 13 ++++++-------
 src/vec_dyn.rs |  8 +++++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..3cb7437 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,11 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +347,7 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.reborrow() == other.reborrow()
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 32c7907..c48dd7c 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,11 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
-- 
2.43.0


From dda78bd2ae991a93e3e8ca02144463366dad5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 06/22] fix: VecDyn::into_vec must drop the elements if the
 type doesn't match

They were leaked.
---
 src/vec_dyn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index c48dd7c..ed4dd30 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -367,6 +367,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // Let self be dropped normally if the types don't match.
+        self.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From 6c97d269ffd43181fcb532f6e93af9b366a26e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 07/22] fix: VecDyn::push must deallocate the boxed value with
 its own alignment

---
 src/vec_dyn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index ed4dd30..87e1382 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -452,8 +452,11 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
-            self.data.data.push(&*bytes);
+            let (bytes, _, alignment, _) = value.into_raw_parts();
+            // The bytes must be deallocated with the alignment they were allocated with.
+            let mut bytes = ManuallyDrop::new(bytes);
+            self.data.data.push(&**bytes);
+            bytes.drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From 7667705c49ca271470d3f6a949e37e080b8082a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 08/22] fix: downcasting a value to a wrong type must not leak
 it

---
 src/value.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index b527308..98a5db7 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -367,15 +367,15 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        if !self.is::<T>() {
+            // Let self be dropped normally.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        let output = if s.is::<T>() {
-            // This is safe since we check that self.bytes represents a `T`.
-            Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) })
-        } else {
-            None
-        };
+        // This is safe since we check that self.bytes represents a `T`.
+        let output = Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) });
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
@@ -390,15 +390,15 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        if !self.is::<T>() {
+            // Let self be dropped normally.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
         // This is safe since we check that self.bytes represent a `T`.
-        let output = if s.is::<T>() {
-            unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) }
-        } else {
-            None
-        };
+        let output = unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) };
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
-- 
2.43.0


From 51f0ac56c9802d23adab5c38a03a779db0515ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 09/22] fix: SmallValue::try_new must drop a value it cannot
 store

---
 src/value.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 98a5db7..17ab3e6 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -116,12 +116,19 @@ impl<V: HasDrop> SmallValue<V> {
     {
         // Prevent drop of value when it goes out of scope.
         let val = ManuallyDrop::new(value);
-        val.try_into_usize().map(|usized_value| Value {
-            bytes: ManuallyDrop::new(usized_value),
-            type_id: TypeId::of::<T>(),
-            alignment: std::mem::align_of::<T>(),
-            vtable: ManuallyDrop::new(Ptr::new(V::build_vtable())),
-        })
+        match val.try_into_usize() {
+            Some(usized_value) => Some(Value {
+                bytes: ManuallyDrop::new(usized_value),
+                type_id: TypeId::of::<T>(),
+                alignment: std::mem::align_of::<T>(),
+                vtable: ManuallyDrop::new(Ptr::new(V::build_vtable())),
+            }),
+            None => {
+                // The value is not going to be stored, so drop it after all.
+                let _ = ManuallyDrop::into_inner(val);
+                None
+            }
+        }
     }
     /// This function will panic if the given type does not fit into a `usize`.
     #[inline]
-- 
2.43.0


From 3ed7c1eaae0286554ff6381126e9cec4648481fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 10/22] fix: an untyped slice must not outlive the slice it is
 created from

Slice::from_slice and SliceCopy::from_slice produced a slice of any lifetime.
---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 3cb7437..c29f7d2 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -47,7 +47,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..b8fe26a 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0


From 22d941548fb17225588b3f71827b8f2e24d3877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 11/22] fix: SendVTable and SyncVTable must only admit Send and
 Sync types

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 79db2c4..8249d37 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -202,13 +202,13 @@ impl<T: DropBytes + HashBytes> VTable<T> for HashVTable {
     }
 }
 
-impl<T: DropBytes> VTable<T> for SendVTable {
+impl<T: DropBytes + Send> VTable<T> for SendVTable {
     fn build_vtable() -> Self {
         SendVTable(T::drop_bytes)
     }
 }
 
-impl<T: DropBytes> VTable<T> for SyncVTable {
+impl<T: DropBytes + Sync> VTable<T> for SyncVTable {
     fn build_vtable() -> Self {
         SyncVTable(T::drop_bytes)
     }
-- 
2.43.0


From 3322273a6dcc6d44cd24f8b64f23ab2df05392af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 12/22] fix: shared slices and value references are Send only
 if elements are Sync

Otherwise elements such as Cell, which are Send but not Sync, could be accessed
from multiple threads simultaneously.
---
 src/slice.rs |  3 ++-
 src/value.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index c29f7d2..dc86155 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -329,7 +329,8 @@ where
     }
 }
 
-unsafe impl<'a, V: ?Sized + HasDrop + HasSend> Send for Slice<'a, V> {}
+// Just like `&[T]`, a shared slice is only `Send` if its elements are `Sync`.
+unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Send for Slice<'a, V> {}
 unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Sync for Slice<'a, V> {}
 
 /*
diff --git a/src/value.rs b/src/value.rs
index 17ab3e6..49d535b 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -417,8 +417,8 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
 }
 
 macro_rules! impl_value_ref_traits {
-    ($value_ref:ident : $($maybe_drop:ident)*) => {
-        unsafe impl<'a, V: ?Sized + HasSend $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
+    ($value_ref:ident [Send if $has_send:ident] : $($maybe_drop:ident)*) => {
+        unsafe impl<'a, V: ?Sized + $has_send $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
         unsafe impl<'a, V: ?Sized + HasSync $( + $maybe_drop)*> Sync for $value_ref<'a, V> {}
 
         impl<'a, V: ?Sized + HasHash $( + $maybe_drop)*> Hash for $value_ref<'a, V> {
@@ -455,8 +455,9 @@ macro_rules! impl_value_ref_traits {
 }
 
 // Impl value ref traits for CopyValue types.
-impl_value_ref_traits!(CopyValueMut:);
-impl_value_ref_traits!(CopyValueRef:);
+// Just like `&T`, a shared value reference is only `Send` if the value it refers to is `Sync`.
+impl_value_ref_traits!(CopyValueMut [Send if HasSend]:);
+impl_value_ref_traits!(CopyValueRef [Send if HasSync]:);
 
 /// A generic value reference into a buffer.
 #[derive(Clone)]
@@ -470,7 +471,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueRef: HasDrop);
+impl_value_ref_traits!(ValueRef [Send if HasSync]: HasDrop);
 
 impl<'a, V: HasDrop> ValueRef<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
@@ -630,7 +631,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueMut: HasDrop);
+impl_value_ref_traits!(ValueMut [Send if HasSend]: HasDrop);
 
 impl<'a, V: HasDrop> ValueMut<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
-- 
2.43.0


From 6e1ee7cfeaaa8c046e3ec790ca45d64e9423e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 13/22] fix: a Value is Eq only if the contained type is Eq

---
 src/value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value.rs b/src/value.rs
index 49d535b..1acb437 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -355,7 +355,7 @@ impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Partial
     }
 }
 
-impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Eq for Value<B, V> {}
+impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasEq> Eq for Value<B, V> {}
 
 impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasHash> Hash for Value<B, V> {
     #[inline]
-- 
2.43.0


From 9939c0ac899cdcb594ce7ba4a6e99e1f88203b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 14/22] fix: inclusive ranges must include the whole last
 element when scaled

Subslicing by an inclusive range produced only the first byte of the last element.
---
 src/index_slice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..6cb504b 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -43,14 +43,16 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        // The end is included, so include all the indices it is scaled to.
+        self.start() * scale..=(self.end() + 1) * scale - 1
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        // The end is included, so include all the indices it is scaled to.
+        self.end = (self.end + 1) * scale - 1;
         self
     }
 }
-- 
2.43.0


From 110a919202294aa42bdab8ce6df284d7662192b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 15/22] fix: check element indices in release builds too

Untyped element access was only bounds checked in debug builds (VecCopy::get_ref and
get_mut read out of bounds in release), and scaling an index by the element size could
wrap around and address an unrelated element.
---
 src/index_slice.rs | 24 ++++++++++++++++++------
 src/lib.rs         |  2 ++
 src/slice.rs       |  4 ++--
 src/slice_copy.rs  | 22 ++++++++++++----------
 src/vec_copy.rs    |  8 ++++----
 src/vec_dyn.rs     |  4 ++--
 src/vec_void.rs    |  5 +++--
 7 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 6cb504b..5f4eff1 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -1,5 +1,15 @@
 use std::ops;
 
+/// Scale the given index.
+///
+/// # Panics
+///
+/// This function panics if the scaled index overflows.
+#[inline]
+pub(crate) fn scale_index(i: usize, scale: usize) -> usize {
+    i.checked_mul(scale).expect("index out of range")
+}
+
 /// A helper trait to scale a standard Rust range by a given scale.
 ///
 /// This allows us to use all of Rust's range types for indexing out `Slice`s.
@@ -10,8 +20,8 @@ pub trait ScaleRange {
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = scale_index(self.start, scale);
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -19,7 +29,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -27,7 +37,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = scale_index(self.start, scale);
         self
     }
 }
@@ -44,7 +54,8 @@ impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
         // The end is included, so include all the indices it is scaled to.
-        self.start() * scale..=(self.end() + 1) * scale - 1
+        let end = self.end().checked_add(1).expect("index out of range");
+        scale_index(*self.start(), scale)..=scale_index(end, scale) - 1
     }
 }
 
@@ -52,7 +63,8 @@ impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
         // The end is included, so include all the indices it is scaled to.
-        self.end = (self.end + 1) * scale - 1;
+        let end = self.end.checked_add(1).expect("index out of range");
+        self.end = scale_index(end, scale) - 1;
         self
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..0f01820 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,6 +227,8 @@ pub(crate) trait ElementBytesMut: ElementBytes {
             return;
         }
         let element_size = self.element_size();
+        let len = self.bytes().len() / element_size;
+        assert!(i < len && j < len);
         let r_rng = self.index_byte_range(0);
         if i < j {
             let l_rng = self.index_byte_range(i);
diff --git a/src/slice.rs b/src/slice.rs
index dc86155..c1bc733 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -245,7 +245,7 @@ impl<'a, V: ?Sized + HasDrop> Slice<'a, V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get(&self, i: usize) -> ValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         unsafe {
@@ -612,7 +612,7 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get(&self, i: usize) -> ValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         unsafe {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index b8fe26a..4332a15 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,7 +279,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(scale_index(chunk_size, elem.num_bytes()))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -290,7 +290,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at(mid * elem.num_bytes());
+            let (l, r) = data.split_at(scale_index(mid, elem.num_bytes()));
             (
                 SliceCopy::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopy::from_raw_parts(r, elem, vtable.as_ref()),
@@ -301,7 +301,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
     /// Get a immutable value reference to the element at index `i`.
     #[inline]
     pub fn get(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         unsafe {
@@ -624,7 +624,8 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
-        self.data.rotate_left(mid * self.element_size());
+        let mid = scale_index(mid, self.element_size());
+        self.data.rotate_left(mid);
     }
 
     /// Rotates the slice in-place such that the first `self.len() - k` elements of the slice move
@@ -642,7 +643,8 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
-        self.data.rotate_right(k * self.element_size());
+        let k = scale_index(k, self.element_size());
+        self.data.rotate_right(k);
     }
 
     /*
@@ -687,7 +689,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(scale_index(chunk_size, elem.num_bytes()))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,7 +700,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(scale_index(chunk_size, elem.num_bytes()))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -709,7 +711,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at_mut(mid * elem.num_bytes());
+            let (l, r) = data.split_at_mut(scale_index(mid, elem.num_bytes()));
             (
                 SliceCopyMut::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopyMut::from_raw_parts(r, elem, vtable.as_ref()),
@@ -720,7 +722,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// Get a immutable value reference to the element at index `i`.
     #[inline]
     pub fn get(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         unsafe {
@@ -736,7 +738,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// Get a mutable value reference to the element at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let element_type_id = self.element_type_id();
         let element_bytes = self.index_byte_range(i);
 
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..e155933 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
@@ -869,7 +869,7 @@ impl VecVoid {
     /// Get a `const` reference to the byte slice of the `i`'th element of the buffer.
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let element_size = self.element_size();
         &self.bytes()[i * element_size..(i + 1) * element_size]
     }
@@ -882,7 +882,7 @@ impl VecVoid {
     /// arbitrarily, which may potentially produce malformed values.
     #[inline]
     pub unsafe fn get_bytes_mut(&mut self, i: usize) -> &mut [MaybeUninit<u8>] {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         self.index_byte_slice_mut(i)
     }
 }
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 87e1382..628d54e 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -496,7 +496,7 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get(&self, i: usize) -> ValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         unsafe {
@@ -530,7 +530,7 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> ValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // Safety is guaranteed here by the value API.
         let Self { data, .. } = self;
         let element_type_id = data.element_type_id();
diff --git a/src/vec_void.rs b/src/vec_void.rs
index 864d6c0..6de2063 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -4,6 +4,7 @@
 use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
 
 use crate::elem::*;
+use crate::index_slice::scale_index;
 
 /// A decomposition of a `Vec` into a void pointer, a length and a capacity.
 ///
@@ -368,7 +369,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_left(n * size);
+                    v.rotate_left(scale_index(n, size));
                 });
             }
         }
@@ -383,7 +384,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_right(n * size);
+                    v.rotate_right(scale_index(n, size));
                 });
             }
         }
-- 
2.43.0


From b076133d93cddaad2295a7be4be32ded64d6a694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 16/22] fix: EqVTable must only admit Eq types

---
 src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traits.rs b/src/traits.rs
index 8249d37..504525f 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -190,7 +190,7 @@ impl<T: DropBytes + PartialEqBytes> VTable<T> for PartialEqVTable {
     }
 }
 
-impl<T: DropBytes + PartialEqBytes> VTable<T> for EqVTable {
+impl<T: DropBytes + PartialEqBytes + Eq> VTable<T> for EqVTable {
     fn build_vtable() -> Self {
         EqVTable(T::drop_bytes, T::eq_bytes)
     }
-- 
2.43.0


From bc4c78650ec7783d2b58af9379de75ca435d2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 17/22] fix: iterators over untyped slices and vectors must not
 be Send or Sync when their items are not

---
 src/slice.rs   | 58 ++++++++++++++++++++++++++++++--------------------
 src/value.rs   | 28 ++++++++++++++++++++++++
 src/vec_dyn.rs |  8 +++----
 3 files changed, 67 insertions(+), 27 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index c1bc733..3dfb9f9 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -206,14 +206,14 @@ impl<'a, V: ?Sized + HasDrop> Slice<'a, V> {
     /// ```
     #[inline]
     pub fn iter(&self) -> impl Iterator<Item = ValueRef<V>> {
-        self.data.byte_chunks().map(move |bytes| unsafe {
+        Items::new(self.data.byte_chunks().map(move |bytes| unsafe {
             ValueRef::from_raw_parts(
                 bytes,
                 self.element_type_id(),
                 self.data.elem.alignment,
                 self.data.vtable.as_ref(),
             )
-        })
+        }))
     }
 
     // TODO: Determine if we can instead implement IntoIterator or explain why not and silence the clippy warning.
@@ -223,17 +223,21 @@ impl<'a, V: ?Sized + HasDrop> Slice<'a, V> {
         V: Clone,
     {
         let SliceCopy { data, elem, vtable } = self.data;
-        data.chunks_exact(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Items::new(
+            data.chunks_exact(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueRef::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
+                }),
+        )
     }
 
     #[inline]
     pub fn chunks_exact(&self, chunk_size: usize) -> impl Iterator<Item = Slice<V>> {
-        self.data
-            .chunks_exact(chunk_size)
-            .map(|data| Slice { data })
+        Items::new(
+            self.data
+                .chunks_exact(chunk_size)
+                .map(|data| Slice { data }),
+        )
     }
 
     #[inline]
@@ -570,10 +574,12 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
             elem,
             ref vtable,
         } = self.data;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
-            })
+        Items::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())
+                }),
+        )
     }
 
     // TODO: Determine if we can instead implement IntoIterator or explain why not and silence the clippy warning.
@@ -583,24 +589,30 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
         V: Clone,
     {
         let SliceCopyMut { data, elem, vtable } = self.data;
-        data.chunks_exact_mut(elem.num_bytes())
-            .map(move |bytes| unsafe {
-                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
-            })
+        Items::new(
+            data.chunks_exact_mut(elem.num_bytes())
+                .map(move |bytes| unsafe {
+                    ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.clone())
+                }),
+        )
     }
 
     #[inline]
     pub fn chunks_exact(&self, chunk_size: usize) -> impl Iterator<Item = Slice<V>> {
-        self.data
-            .chunks_exact(chunk_size)
-            .map(|data| Slice { data })
+        Items::new(
+            self.data
+                .chunks_exact(chunk_size)
+                .map(|data| Slice { data }),
+        )
     }
 
     #[inline]
     pub fn chunks_exact_mut(&mut self, chunk_size: usize) -> impl Iterator<Item = SliceMut<V>> {
-        self.data
-            .chunks_exact_mut(chunk_size)
-            .map(|data| SliceMut { data })
+        Items::new(
+            self.data
+                .chunks_exact_mut(chunk_size)
+                .map(|data| SliceMut { data }),
+        )
     }
 
     #[inline]
diff --git a/src/value.rs b/src/value.rs
index 1acb437..8755b95 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -8,6 +8,7 @@
 use std::any::{Any, TypeId};
 use std::fmt;
 use std::hash::{Hash, Hasher};
+use std::marker::PhantomData;
 use std::mem::{ManuallyDrop, MaybeUninit};
 
 // At the time of this writing, there is no evidence that there is a significant benefit in sharing
@@ -860,6 +861,33 @@ impl<'a, V: Any + Clone> From<CopyValueRef<'a, V>> for ValueRef<'a, (DropFn, V)>
     }
 }
 
+/// An iterator of untyped values or slices, which can be sent to or shared with another thread only
+/// if its items can.
+pub(crate) struct Items<I: Iterator>(I, PhantomData<I::Item>);
+
+impl<I: Iterator> Items<I> {
+    #[inline]
+    pub(crate) fn new(iter: I) -> Self {
+        Items(iter, PhantomData)
+    }
+}
+
+impl<I: Iterator> Iterator for Items<I> {
+    type Item = I::Item;
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        self.0.next()
+    }
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
+    #[inline]
+    fn nth(&mut self, n: usize) -> Option<Self::Item> {
+        self.0.nth(n)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 628d54e..18ee08c 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -517,14 +517,14 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     #[inline]
     pub fn iter(&self) -> impl Iterator<Item = ValueRef<V>> {
         let VecCopy { data, vtable } = &*self.data;
-        data.byte_chunks().map(move |bytes| unsafe {
+        Items::new(data.byte_chunks().map(move |bytes| unsafe {
             ValueRef::from_raw_parts(
                 bytes,
                 data.elem.type_id,
                 data.elem.alignment,
                 vtable.as_ref(),
             )
-        })
+        }))
     }
 
     /// Get a mutable reference to a value stored in this container at index `i`.
@@ -567,9 +567,9 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         let element_type_id = data.elem.type_id;
         let element_alignment = data.elem.alignment;
         unsafe {
-            data.byte_chunks_mut().map(move |bytes| {
+            Items::new(data.byte_chunks_mut().map(move |bytes| {
                 ValueMut::from_raw_parts(bytes, element_type_id, element_alignment, vtable)
-            })
+            }))
         }
     }
 
-- 
2.43.0


From 20e54f3e2c593cfc9d3f5b1249387decf0f342be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:31 +0000
Subject: [PATCH 18/22] fix: SendVTable and SyncVTable must carry the
 capability they require

---
 src/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traits.rs b/src/traits.rs
index 504525f..7966949 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -243,6 +243,10 @@ impl_has_drop!(
     SyncVTable
 );
 
+// `SendVTable` and `SyncVTable` only admit types that are `Send` and `Sync` respectively.
+unsafe impl HasSend for SendVTable {}
+unsafe impl HasSync for SyncVTable {}
+
 impl HasClone for CloneVTable {
     fn clone_fn(&self) -> &CloneFn {
         &self.1
-- 
2.43.0


From cbfa66426db267f0b20cad5b1f2e3ddc70070854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:15 +0000
Subject: [PATCH 19/22] fix: swapping an element with itself must check its
 index too

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f01820..9f19049 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,12 +223,12 @@ pub(crate) trait ElementBytesMut: ElementBytes {
     /// If `i` is the same as `j` this function does nothing.
     #[inline]
     fn swap(&mut self, i: usize, j: usize) {
-        if i == j {
-            return;
-        }
         let element_size = self.element_size();
         let len = self.bytes().len() / element_size;
         assert!(i < len && j < len);
+        if i == j {
+            return;
+        }
         let r_rng = self.index_byte_range(0);
         if i < j {
             let l_rng = self.index_byte_range(i);
-- 
2.43.0


From 2314b9288afd512e4ef38e58be1418e94a3f23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:40 +0000
Subject: [PATCH 20/22] fix: dync_trait must offer the capabilities implied by
 Eq

---
 dync-derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index dc373ad..7cb1c7b 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -428,6 +428,8 @@ pub fn dync_trait(
 
     fill_trait_map_from_item_trait(&item_trait, &mut trait_map);
 
+    flatten_inheritance(&item_trait, &mut trait_map);
+
     fill_drop_for_inheritance(&mut trait_map);
 
     //fill_inherited_impls(&mut impls, &config, &trait_inheritance);
-- 
2.43.0


From 63a93c65ba5f60b3c17e7d6f4fd7f65910e4b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 21/22] fix: keep the capacity a whole number of elements in
 VecVoid::clone_from

---
 src/vec_void.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 6de2063..6efa894 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -68,7 +68,14 @@ impl Clone for VecVoid {
                     elem: source.elem,
                 };
                 let src = ManuallyDrop::new(src.into_aligned_vec_unchecked::<T>());
-                out.apply_aligned_unchecked(|out: &mut Vec<T>| out.clone_from(&src))
+                let size = out.elem.size;
+                out.apply_aligned_unchecked(|out: &mut Vec<T>| {
+                    // `Vec::clone_from` does not necessarily preserve a whole number of elements
+                    // in the capacity when it needs to grow.
+                    out.clear();
+                    VecVoid::reserve_elements(out, source.len, size);
+                    out.clone_from(&src)
+                })
             }
         }
         eval_align!(self.elem.alignment; clone_from::<_>(self, source))
-- 
2.43.0


From 5111d4a1ad16d237f5b57eb3caabc22b1b94e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:05 +0000
Subject: [PATCH 22/22] fix: from_dyn must drop the contents when the table has
 another type

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9f19049..c060c0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,8 +91,14 @@ macro_rules! from_dyn {
                 let (data, vtable) = vec.into_raw_parts();
                 // If vtables were shared with Rc, we would use this:
                 //let updated_vtable: std::rc::Rc<V> = vtable.downcast_rc().ok().unwrap();
-                let updated_vtable: Box<V> = vtable.downcast().ok().unwrap();
-                $vec::from_raw_parts(data, updated_vtable)
+                match vtable.downcast() {
+                    Ok(updated_vtable) => $vec::from_raw_parts(data, updated_vtable),
+                    Err(vtable) => {
+                        // Make sure that the contents are dropped.
+                        ::std::mem::drop($vec::from_raw_parts(data, vtable));
+                        panic!("from_dyn: the virtual function table has a different type")
+                    }
+                }
             }
         }
 
-- 
2.43.0

