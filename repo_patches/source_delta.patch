From 4c44d6812829357d4d61242bd4c83a314147d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 01/46] fix: ScopePtr::alloc must not drop the uninitialized
 memory it writes to

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..4880b36 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,10 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // SAFETY: memory was just allocated for this value. It is not initialized yet and so
+        // should not be dropped by the assignment.
+        unsafe { ptr::write(ptr.ptr.as_ptr(), value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From bcceb232d34866c6dacf7d761a8ad8effd670e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 02/46] fix: ScopePtr::into_inner must not drop the moved out
 value and free the memory twice

---
 src/ptr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptr.rs b/src/ptr.rs
index 4880b36..03071a3 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -205,6 +205,8 @@ impl<T> ScopePtr<T> {
         unsafe {
             let v = ptr::read(self.ptr.as_ptr());
             self.dealloc();
+            // Value was moved out and memory is deallocated already.
+            mem::forget(self);
             v
         }
     }
-- 
2.43.0


From a3803fbe0e4df0958bb2bc50b86a30f366be37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 03/46] fix: never pass zero-sized requests to the allocators

---
 src/ptr.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 03071a3..156ccb7 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -190,7 +190,12 @@ impl<T> ScopePtr<T> {
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
         trace!("alloc with {:?}", &layout);
-        let mem = unsafe { alloc.alloc(layout) as *mut T };
+        let mem = if layout.size() == 0 {
+            // Allocators should never be asked for zero bytes.
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc.alloc(layout) as *mut T }
+        };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
             let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
@@ -244,8 +249,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // There is no allocation for zero-sized values.
+        if layout.size() != 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
@@ -273,12 +281,21 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
-        let ptr = self.alloc.realloc(
-            self.ptr.as_ptr() as _,
-            // SAFETY: we already constructed such Layout before to allocate - it will not fail.
-            Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
-        );
+        // SAFETY: we already constructed such Layout before to allocate - it will not fail.
+        let layout = Layout::array::<T>(self.len()).unwrap_unchecked();
+        let new_size = new_capacity * size_of::<T>();
+        let ptr = if new_size == 0 {
+            // Nothing to hold anymore. Reallocation to zero bytes is not allowed.
+            self.dealloc();
+            NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else if layout.size() == 0 {
+            // Nothing was allocated yet.
+            self.alloc
+                .alloc(Layout::from_size_align_unchecked(new_size, layout.align()))
+        } else {
+            self.alloc
+                .realloc(self.ptr.as_ptr() as _, layout, new_size)
+        };
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
         } else {
-- 
2.43.0


From 741659e143284e2528209ac9622a50c0e44aa3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 04/46] fix: ScopePtr::realloc_array reports capacity overflow
 instead of wrapping the byte size

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 156ccb7..2d98155 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, transmute};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -283,7 +283,9 @@ impl<T> ScopePtr<[T]> {
         trace!("realloc array");
         // SAFETY: we already constructed such Layout before to allocate - it will not fail.
         let layout = Layout::array::<T>(self.len()).unwrap_unchecked();
-        let new_size = new_capacity * size_of::<T>();
+        let new_size = Layout::array::<T>(new_capacity)
+            .map_err(|_| CapacityOverflow)?
+            .size();
         let ptr = if new_size == 0 {
             // Nothing to hold anymore. Reallocation to zero bytes is not allowed.
             self.dealloc();
-- 
2.43.0


From f51d653fccc887e131ac3efba6ceed9aed48d340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 05/46] fix: Env::spawn must install a reference to the new
 scope, not the bytes of its value

---
 src/scope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..97595ab 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -137,8 +137,9 @@ impl Env {
             // SAFETY: we definitely know the lifetime will be valid during scope execution.
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
+            let new_scope_ref: &mut dyn Scope = &mut new_scope;
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
+            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope_ref));
 
             let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
-- 
2.43.0


From fc00a1131c2ab952352d3b9db3b379ddb3e6e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 06/46] fix: Env::spawn restores the previous scope when the
 function panics

---
 src/scope.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 97595ab..42559ff 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -137,14 +137,32 @@ impl Env {
             // SAFETY: we definitely know the lifetime will be valid during scope execution.
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
+
+            /// Gives up execution to previous scope, also if the function panics.
+            struct Restore<'env> {
+                env: &'env mut Env,
+                prev: Option<ScopedMut<dyn Scope>>,
+            }
+            impl Drop for Restore<'_> {
+                fn drop(&mut self) {
+                    if let Some(prev) = self.prev.take() {
+                        self.env.cur = prev;
+                    }
+                }
+            }
+
             let new_scope_ref: &mut dyn Scope = &mut new_scope;
             // SAFETY: new scope will survive scope execution by definition.
             self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope_ref));
-
-            let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
             // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
+            let restore = Restore {
+                prev: Some(prev.unsafe_into()),
+                env: self,
+            };
+
+            let t = f(&mut new_scope);
+            drop(restore);
             t
         }
     }
-- 
2.43.0


From e2de0d3c7835169ebaaaf3fe2ed5f7a5b3709daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 07/46] fix: Vec::with_marker keeps the requested marker

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..90fa36a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From 1ebe222d88604644923cb36c6cb78db71ab6f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 08/46] fix: Vec::leak must not drop the elements and memory of
 the leaked slice

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 90fa36a..79abf51 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -314,7 +314,9 @@ impl<T: 'static> Vec<T> {
     pub fn leak(mut self) -> &'static mut [T] {
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        let slice = unsafe { impose_lifetime_mut(self.as_mut_slice()) };
+        mem::forget(self);
+        slice
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From 2dd26fff23ee0200efc972d3b4561eefaeebd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 09/46] fix: Vec::dealloc_without_drop must not run the
 destructor of Vec afterwards

---
 src/vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec.rs b/src/vec.rs
index 79abf51..744bdfd 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -323,6 +323,7 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn dealloc_without_drop(mut self) {
         unsafe { self.ptr.dealloc() };
+        mem::forget(self);
     }
 
     #[inline]
-- 
2.43.0


From f32def3b82ac9d9d14e873711af0884fa5923e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 10/46] fix: Vec::swap_remove of the last element must not copy
 overlapping memory as nonoverlapping

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 744bdfd..8cfe4fb 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -373,10 +373,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. They are the same for the last element.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From 27d8ac9fc7b88e0fe769f2e935d7720583e1a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 11/46] fix: Vec::into_boxed_slice keeps the length for
 zero-sized elements

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 8cfe4fb..30343d0 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -390,7 +390,8 @@ impl<T: 'static> Vec<T> {
         // capacity.
         self.shrink_to_fit();
 
-        let access = unsafe { self.ptr.clone() };
+        // Zero-sized elements do not have capacity so set the length explicitly.
+        let access = unsafe { self.ptr.clone().cast::<T>().cast_to_slice(self.len()) };
         // Avoid normal Drop of Vec.
         mem::forget(self);
 
-- 
2.43.0


From 43675fec33bd76c3cfb62634e42e6191bcdbaee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 12/46] fix: Vec::split_off moves the tail: set lengths of both
 parts

---
 src/vec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 30343d0..755f889 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -409,7 +409,12 @@ impl<T: 'static> Vec<T> {
             // SAFETY: we checked above that `at` is within array range.
             let at_ptr = unsafe { self.get_unchecked(at) };
 
-            unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            unsafe {
+                copy_nonoverlapping(at_ptr, vec_ptr, count);
+                // Elements are moved to the new Vec.
+                vec.set_len(count);
+                self.set_len(at);
+            }
             vec
         }
     }
-- 
2.43.0


From 74272d2a2fe9c67cd0d3af90c8933bd6374e493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 13/46] fix: drain checks the range against the original length
 before hiding the elements

---
 src/vec.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 755f889..17ae795 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -541,13 +541,15 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        assert!(start <= end && end <= original_len);
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
@@ -558,8 +560,8 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
             vec_ptr: vec,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            slice: unsafe { &vec.as_slice_with_len(original_len)[start..end] },
+            original_len,
         }
     }
 
-- 
2.43.0


From 50ba9bd73a40ff5215db0fbb1a3cf9e488c77b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 14/46] fix: dropping Drain moves the whole tail over the gap

---
 src/vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 17ae795..eef5ee2 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -581,10 +581,11 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
+            let vec_start = vec.as_slice_with_len_mut(self.original_len).as_mut_ptr();
+            let slice_start: *mut T = vec_start.add(self.start);
+            let slice_end = vec_start.add(self.end);
             let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            ptr::copy(slice_end, slice_start, self.original_len - self.end);
 
             // Restore valid length of Vec.
             vec.set_len(self.original_len - count);
-- 
2.43.0


From dcaea11574c48336d86c44b52c38907b91c11f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 15/46] fix: Drain::next_back keeps the start of the remaining
 slice

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index eef5ee2..668b5b1 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -619,7 +619,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From 7f917ec559a6f4fce02f4e62e5f2f6f1247a326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 16/46] fix: retain and dedup must not skip the second element

---
 src/vec.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 668b5b1..1520187 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -742,7 +742,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -779,11 +779,10 @@ impl<'a, T: 'static> RetainIter<'a, T> {
     /// Care should be taken to forget the element in `read` and only use one stored
     /// in `write` after copying.
     unsafe fn copy(&mut self) {
-        debug_assert_ne!(self.read, self.write);
-
         let read: *const T = self.get_unchecked(self.read);
         let write: *mut T = self.get_unchecked_mut(self.write);
-        ptr::copy_nonoverlapping(read, write, 1);
+        // `read` and `write` are the same until some element gets discarded.
+        ptr::copy(read, write, 1);
     }
 
     /// Increment `len` in controlled `vec` to indicate processed element.
-- 
2.43.0


From 56b4f1be5837e3be8ac52a00162383186105cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 17/46] fix: dedup_by compares with the kept element at its new
 position

---
 src/vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 1520187..886cedc 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -831,7 +831,9 @@ impl<'a, T: 'static> RetainIter<'a, T> {
                 iter.discard_next();
             } else {
                 iter.keep_next();
-                keeped = tested;
+                // Element was moved from `tested` to the last written position.
+                let last = iter.write - 1;
+                keeped = unsafe { iter.get_unchecked_mut(last) };
             }
         }
     }
-- 
2.43.0


From bcbe46cbb0ad143ef7bc80e26bc93aab45597846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 18/46] fix: Vec::from a slice clones the elements instead of
 panicking

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 886cedc..aea5c53 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1005,7 +1005,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From e3207a24fd7cc654bd42ecdba61b2d0240553a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 19/46] fix: IntoIter::size_hint accounts for the elements
 already taken from the front

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index aea5c53..0e1499b 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1108,7 +1108,8 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 311f99a664bff39a6fabcefe2111586f14dc0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 20/46] fix: IntoIter::next_back must not return elements
 already taken from the front

---
 src/vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 0e1499b..1df4b30 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1115,7 +1115,11 @@ impl<T> Iterator for IntoIter<T> {
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        if self.vec.len() > self.index {
+            self.vec.pop()
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 31428fda7dbe148e95ec5615bc348eb040c86858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 21/46] fix: IntoIter::as_slice must not subtract the taken
 elements twice

---
 src/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 1df4b30..91f75ae 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1151,7 +1151,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1159,7 +1159,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From d53f0b0904b11df8ccced471c37c5f0532959aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 22/46] fix: Vec::try_reserve and try_reserve_exact report
 capacity overflow instead of panicking

---
 src/vec.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 91f75ae..b3c46a6 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -191,7 +191,10 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn try_reserve_exact(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let required_cap = self.len.overflow_guarded_add(additional);
+        let required_cap = self
+            .len
+            .checked_add(additional)
+            .ok_or(ArrayAllocError::CapacityOverflow)?;
         if self.capacity() < required_cap {
             self.grow_exact(required_cap).map_err(|e| e.into())
         } else {
@@ -206,7 +209,10 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let required_cap = self.len.overflow_guarded_add(additional);
+        let required_cap = self
+            .len
+            .checked_add(additional)
+            .ok_or(ArrayAllocError::CapacityOverflow)?;
         if self.capacity() < required_cap {
             self.grow_amortized(required_cap).map_err(|e| e.into())
         } else {
-- 
2.43.0


From c0d05eb701199e5e1f8063dc71f8c1f4e9aa6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 23/46] fix: growing an empty Vec uses the allocator of the
 scope it was created in

---
 src/vec.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index b3c46a6..3f7ce85 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -237,12 +237,9 @@ impl<T: 'static> Vec<T> {
         debug_assert!(self.capacity() < new_capacity);
 
         trace!("grow from {} to {}", self.capacity(), new_capacity);
-        if self.capacity() == 0 {
-            *self = Vec::try_with_capacity_and_marker(new_capacity, self.ptr.marker())?;
-            Ok(())
-        } else {
-            unsafe { self.ptr.realloc_array(new_capacity) }
-        }
+        // Unallocated Vec uses allocator selected on creation too. The current scope might be
+        // an inner one which this Vec outlives.
+        unsafe { self.ptr.realloc_array(new_capacity) }
     }
 
     #[cold]
-- 
2.43.0


From a21dda4ecbcbb93ca1235203eccaf890d6be7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 24/46] fix: Vec::clear must not drop elements twice when a
 destructor panics

---
 src/vec.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 3f7ce85..a27ebd6 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -271,15 +271,8 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
-        // SAFETY: length is for sure less than or equal to the capacity here.
-        unsafe { self.set_len(0) };
+        // Decreases length before dropping, so no element gets dropped twice if Drop panics.
+        self.truncate(0)
     }
 
     #[inline]
-- 
2.43.0


From cb338f6610b7731594c7388d05c60a75093f4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 25/46] fix: SmallVec::insert on stack checks the index and may
 insert after the last element

---
 src/small_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..7dc9028 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -194,9 +194,11 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     }
 
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
-        debug_assert!(self.len() >= index);
+        assert!(self.len() >= index);
+        assert!(!self.is_full());
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        // SAFETY: index is within the array. It may be the place after the last element.
+        let write = (self.slice.as_mut_ptr() as *mut T).add(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
-- 
2.43.0


From bdc1f93392ece26fda0da30364552cff09656af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 26/46] fix: SmallVec::remove on stack must not read past the
 last element

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 7dc9028..169398b 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -221,7 +221,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From 9e4e9e82d9a67622574a58375084c60f0d656a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 27/46] fix: SmallVec::truncate on stack drops the truncated
 elements

---
 src/small_vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 169398b..3804765 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -252,11 +252,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
-                unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
-                    drop_in_place(to_drop);
-                }
+            unsafe {
+                let dropped = (self.slice.as_mut_ptr() as *mut T).add(len);
+                drop_in_place(ptr::slice_from_raw_parts_mut(dropped, old_len - len));
             }
         }
     }
-- 
2.43.0


From 8a87d3726ac80e9d176d09f84a91ffc0c0fde51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:16 +0000
Subject: [PATCH 28/46] fix: SmallVec::swap_remove of the last element must not
 copy overlapping memory as nonoverlapping

---
 src/small_vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 3804765..04c9935 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -267,9 +267,10 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             let remove: *mut T = self.get_unchecked_mut(index);
             let value = ptr::read(remove);
 
-            // Copy last element in place of removed one.
-            let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            // Copy last element in place of removed one. These are the same for the last element.
+            let last_index = self.len() - 1;
+            let last: *const T = self.get_unchecked(last_index);
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
-- 
2.43.0


From 605e6f6a462f7bfd7bd97e918e0577c9505c26fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 29/46] fix: SmallVec::resize and resize_with move to heap when
 the new length does not fit the stack

---
 src/small_vec.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 04c9935..4bc2c22 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -375,7 +375,6 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -405,9 +404,9 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     where
         T: Clone,
     {
-        if len > N {
-            // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
+        if len > self.len() {
+            // Move to heap if needed to be able to store all new elements.
+            self.reserve_exact(len - self.len());
         }
 
         use Storage::*;
@@ -417,6 +416,20 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        if len > self.len() {
+            // Move to heap if needed to be able to store all new elements.
+            self.reserve_exact(len - self.len());
+        }
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From 35058367a738123cc1b71002ba3b9829946e0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 30/46] fix: fallible SmallVec reservations report errors
 instead of panicking

---
 src/small_vec.rs | 14 +++++++++++---
 src/vec.rs       |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 4bc2c22..88bf4c7 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -457,7 +457,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let reserve = old_vec
+                    .len()
+                    .checked_add(additional)
+                    .ok_or(ArrayAllocError::CapacityOverflow)?;
+                let reserve = usize::max(reserve, Vec::<T>::MIN_NON_ZERO_CAP);
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
@@ -472,7 +476,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional).map_err(|e| e.0)?,
         }
         Ok(())
     }
@@ -481,7 +485,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         use Storage::*;
         match &mut self.storage {
             Stack(_) => {
-                if self.len().overflow_guarded_add(additional) > self.capacity() {
+                let required_cap = self
+                    .len()
+                    .checked_add(additional)
+                    .ok_or(ArrayAllocError::CapacityOverflow)?;
+                if required_cap > self.capacity() {
                     self.try_move_to_heap_and_reserve_exact(additional)
                         .map_err(|e| e.into())
                 } else {
diff --git a/src/vec.rs b/src/vec.rs
index a27ebd6..a266256 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -876,7 +876,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-pub struct TryReserveError(ArrayAllocError);
+pub struct TryReserveError(pub(crate) ArrayAllocError);
 
 impl From<ArrayAllocError> for TryReserveError {
     fn from(e: ArrayAllocError) -> Self {
-- 
2.43.0


From ced7140fc62cd4224d5987ee8387f8efc677cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 31/46] fix: SmallVec::try_reserve adds to the length, not to
 the capacity

---
 src/small_vec.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 88bf4c7..cbcef48 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -11,7 +11,7 @@ use core::slice;
 use crate::boxed::Box;
 use crate::scope::AllocMarker;
 use crate::vec::{
-    DrainInner, OverflowGuardedAdd, ResizeWith, ResizeWithFn, ResizeWithVal, RetainIter,
+    DrainInner, ResizeWith, ResizeWithFn, ResizeWithVal, RetainIter,
     TryReserveError, Vec, Vecx, impl_drain,
 };
 use crate::ArrayAllocError;
@@ -502,11 +502,12 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
-        let new_capacity = self.capacity().overflow_guarded_add(additional);
-        let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
-
-        let reserve = new_capacity - self.capacity();
-        self.try_reserve_exact(reserve)
+        use Storage::*;
+        match &mut self.storage {
+            // Moving to heap ensures minimal non-zero capacity.
+            Stack(_) => self.try_reserve_exact(additional),
+            Heap(vec) => vec.try_reserve(additional),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 6851a36dbbcefe4fa1c1480860ff80697a250c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 32/46] fix: SmallVec::from an array that fits the stack must
 not lose the elements

---
 src/small_vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index cbcef48..a4dcd8f 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -957,7 +957,7 @@ impl<T: Clone + 'static, const N: usize> From<&mut [T]> for SmallVec<T, N> {
 impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N> {
     fn from(slice: [T; L]) -> Self {
         if L <= N {
-            let mut vec = StackVec::new();
+            let mut vec = StackVec::<T, N>::new();
             let slice = slice.map(MaybeUninit::new);
             // SAFETY: we checked that slice is smaller than target StackVec and will fit.
             unsafe {
@@ -965,7 +965,8 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     &slice as *const MaybeUninit<T>,
                     &mut vec.slice as *mut MaybeUninit<T>,
                     L,
-                )
+                );
+                vec.set_len(L);
             };
             SmallVec {
                 storage: Storage::Stack(vec),
-- 
2.43.0


From d65249c189e8a2307274098e83829bcb1877e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 33/46] fix: SmallVec::split_off at the length gives an empty
 vector

---
 src/small_vec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index a4dcd8f..90384c0 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -649,7 +649,9 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
-        let slice = &mut self[at] as *mut T;
+        assert!(at <= self.len());
+
+        let slice = unsafe { self.as_mut_ptr().add(at) };
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
         unsafe {
-- 
2.43.0


From 1d9b87be3d38b81c9225a4d861be4aaef99e0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 34/46] fix: dropping the last Rc drops the value and releases
 the memory

---
 src/rc.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..3c199a8 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -160,16 +160,17 @@ impl Rc<dyn core::any::Any + 'static> {
 
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
-        if Rc::strong_count(self) == 1 {
+        if self.inner().dec_strong() == 1 {
+            // Value may own `Weak`s to this `RcBox`. Hold one more to not deallocate it too early.
+            self.inner().inc_weak();
+
             // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
-        } else {
-            self.inner().dec_strong();
-        }
+            unsafe { drop_in_place(self.as_mut()) }
 
-        if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
-            // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+            if self.inner().dec_weak() == 1 {
+                // Nothing refers to RcBox now so drop it.
+                unsafe { ManuallyDrop::drop(&mut self.0) }
+            }
         }
     }
 }
-- 
2.43.0


From 0899296b3850a92e33c8aed529d66dd96efe947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 35/46] fix: dropping the last rc::Weak after the value is gone
 releases the memory

---
 src/rc.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 3c199a8..d898e70 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -344,12 +344,11 @@ impl<T: ?Sized> Default for Weak<T> {
 
 impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
-        if let Some(v) = self.inner() {
-            let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
-                unsafe {
-                    drop_in_place(&mut self.0);
-                }
+        if let Some(ptr) = &mut self.0 {
+            let weak = ptr.dec_weak();
+            if weak == 1 && ptr.is_dealloc() {
+                // Nothing refers to RcBox now so drop it.
+                unsafe { ManuallyDrop::drop(ptr) };
             }
         }
     }
-- 
2.43.0


From a119c4b11b4b5763484bad8f2d05f9d14e66803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 36/46] fix: Rc::try_unwrap moves the value out and releases
 the memory

---
 src/rc.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index d898e70..6fae63c 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -6,7 +6,7 @@ use core::cell::Cell;
 use core::cmp::Ordering;
 use core::fmt::Formatter;
 use core::hash::{Hash, Hasher};
-use core::mem::ManuallyDrop;
+use core::mem::{self, ManuallyDrop};
 use core::ptr::drop_in_place;
 use core::{fmt, ptr};
 
@@ -118,9 +118,17 @@ impl<T: 'static> Rc<T> {
         ))
     }
 
-    pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
+    pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
             let val = unsafe { ptr::read(&this.0.val) };
+            // Indicate that RcBox does not own the value anymore.
+            this.inner().set_zero_strong();
+            if Rc::weak_count(&this) == 0 {
+                // Nothing refers to RcBox now so drop it.
+                unsafe { ManuallyDrop::drop(&mut this.0) };
+            }
+            // The value is moved out so normal Drop should not run.
+            mem::forget(this);
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From 1d0eb57f4cd309e703360ee6c5670bbaad6c5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 37/46] fix: Rc::make_mut must not drop the data moved out of
 the box left to Weaks

---
 src/rc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 6fae63c..192e537 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -142,11 +142,12 @@ impl<T: 'static> Rc<T> {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
-                let data = unsafe { ptr::read(this.as_ref()) };
+                let new = Rc::new(unsafe { ptr::read(this.as_ref()) });
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                // Weak pointers own the old RcBox now so it should not be dropped here.
+                unsafe { ptr::write(this, new) };
             }
         } else {
             let clone = this.as_ref().clone();
-- 
2.43.0


From d6aaf2f142c89b2f7533834766ff3637f60aaf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 38/46] fix: Rc::downcast keeps the reference owned by the
 original Rc

---
 src/rc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 192e537..7c41a36 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -160,7 +160,9 @@ impl<T: 'static> Rc<T> {
 impl Rc<dyn core::any::Any + 'static> {
     pub fn downcast<T: core::any::Any>(self) -> Result<Rc<T>, Self> {
         if (*self).is::<T>() {
-            unsafe { Ok(Rc(ManuallyDrop::new(self.0.clone().cast()))) }
+            let ptr = unsafe { self.0.clone().cast() };
+            mem::forget(self);
+            Ok(Rc(ManuallyDrop::new(ptr)))
         } else {
             Err(self)
         }
-- 
2.43.0


From 224949a49192ee824fc91a11a04a65956a6578a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 39/46] fix: Arc::downgrade must not spin on the stale counter
 value

---
 src/arc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..a9e207c 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -260,8 +260,9 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From 632577448f70da31ebaeb22a630e8053ce131afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 40/46] fix: dropping arc::Weak releases its reference and the
 last reference frees the memory

---
 src/arc.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index a9e207c..39283be 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,8 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // All strong references collectively hold one weak reference. If `weak` is equal
+    // to usize::MAX then the counter is locked.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -140,7 +142,7 @@ impl<T: 'static> Arc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
+            weak: AtomicUsize::new(1),
             data: data.into(),
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
@@ -177,7 +179,7 @@ impl<T: 'static> Arc<T> {
         let mut weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
@@ -221,7 +223,7 @@ impl<T: 'static> Arc<T> {
 }
 
 impl<T> Arc<T> {
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this
             .inner()
             .strong
@@ -236,10 +238,9 @@ impl<T> Arc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
-            // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            // Release the weak reference of strong ones. If nothing refers to the ArcInner
+            // no more then this releases the memory.
+            drop(Weak(ManuallyDrop::new(this.0.clone())));
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -271,8 +272,8 @@ impl<T: ?Sized> Arc<T> {
     pub fn weak_count(this: &Self) -> usize {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
-        // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        // count was 0 just before taking the lock. One is held by strong references.
+        cnt.get().map_or(0, |count| count - 1)
     }
 
     #[inline]
@@ -322,7 +323,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -333,7 +334,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -348,14 +349,13 @@ impl<T: ?Sized> Arc<T> {
     // Non-inlined part of `drop`.
     #[inline(never)]
     unsafe fn drop_slow(&mut self) {
+        // Release the weak reference of strong ones afterwards. This releases
+        // the memory if Weaks are not alive.
+        let _weak = Weak(ManuallyDrop::new(self.0.clone()));
+
         // Destroy the data at this time, even though we must not free the box
         // allocation itself (there might still be weak pointers lying around).
         drop_in_place(Self::get_mut_unchecked(self));
-
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
     }
 }
 
@@ -541,6 +541,17 @@ impl<T: ?Sized> Drop for Arc<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Weak<T> {
+    fn drop(&mut self) {
+        if self.0.weak.fetch_sub(1, Release) == 1 {
+            // Synchronize with all the other references released. See `Drop` of `Arc`.
+            core::sync::atomic::fence(Acquire);
+
+            unsafe { ManuallyDrop::drop(&mut self.0) }
+        }
+    }
+}
+
 impl<'env, T: ?Sized + 'env> Envelop<'env> for Arc<T> {
     type Send = Arc<T>;
 
-- 
2.43.0


From 1a0c7c4b037113f88319d410697919b82b706fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 41/46] fix: Arc::make_mut must not drop the data moved out of
 the box left to Weaks

---
 src/arc.rs | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 39283be..7789846 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -175,8 +175,8 @@ impl<T: 'static> Arc<T> {
     where
         T: Clone,
     {
-        let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let strong = this.inner().load_strong(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
             if weak == 1 {
@@ -186,30 +186,18 @@ impl<T: 'static> Arc<T> {
             } else {
                 // Disassociate present weak pointers from the data.
 
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
-                let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
-
-                // Set strong to zero to indicate ArcInner does not own any data no more.
-                match strong.try_set_zero(Acquire) {
-                    Ok(_) => {
-                        // Move out the data.
-                        let data = unsafe { ptr::read(this.as_ref()) };
-                        // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
-                    }
-                    Err(_) => {
-                        // Probably, `Arc` was cloned before we have disassociated.
-                        // Need to create a new Arc instead without decrementing and clone the
-                        // data.
-                        let clone = this.as_ref().clone();
-                        *this = Arc::new(clone);
-                    }
+                // Move the data to a new Arc. No other thread can make a strong reference from
+                // Weaks. If allocation fails the data is left as it was.
+                let new = Arc::new(unsafe { ptr::read(this.as_ref()) });
+
+                unsafe {
+                    // Release the weak reference of strong ones afterwards. If all the Weaks
+                    // get dropped in other threads this will deallocate ArcInner.
+                    let _weak_struct = Weak(ManuallyDrop::new(this.0.clone()));
+
+                    // Set strong to zero to indicate ArcInner does not own any data no more.
+                    this.inner().strong.store(0, Release);
+                    ptr::write(this, new);
                 }
             }
         } else {
-- 
2.43.0


From 14529e176d985712441583b7baa384c963a3fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 42/46] fix: Urc drops the data with the last strong reference
 and releases the memory with the last one

---
 src/urc.rs | 231 +++++++++++++++++++++++------------------------------
 1 file changed, 102 insertions(+), 129 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..27397d7 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,7 +10,6 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
 use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
@@ -91,6 +90,16 @@ impl<T: ?Sized> Fence<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Fence<T> {
+    fn drop(&mut self) {
+        if self.is_strong() {
+            unsafe { Master::release_strong(&mut self.master) }
+        } else {
+            unsafe { Master::release_weak(&mut self.master) }
+        }
+    }
+}
+
 impl<T> Fence<T> {
     /// Create `Urc` for this `Fence`.
     pub fn into_urc(self) -> Urc<T> {
@@ -109,6 +118,7 @@ struct Master<T: ?Sized> {
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// All strong fences collectively hold one more.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -116,6 +126,39 @@ struct Master<T: ?Sized> {
     data: MaybeDropped<T>,
 }
 
+impl<T: ?Sized> Master<T> {
+    /// Release the reference of a strong `Fence`.
+    ///
+    /// # Safety
+    /// Master should not be accessed through this reference afterwards.
+    unsafe fn release_strong(this: &mut ManuallyDrop<ScopePtr<Self>>) {
+        if this.strong_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop the data as this was the only strong Fence");
+            core::sync::atomic::fence(Acquire);
+
+            // Destroy the data at this time, even though we must not free the box
+            // allocation itself (there might still be weak pointers lying around).
+            drop_in_place(MaybeDropped::as_mut(&mut this.data));
+
+            // Release the Master if weak Fences are not alive.
+            Self::release_weak(this);
+        }
+    }
+
+    /// Release the reference of a weak `Fence`.
+    ///
+    /// # Safety
+    /// Master should not be accessed through this reference afterwards.
+    unsafe fn release_weak(this: &mut ManuallyDrop<ScopePtr<Self>>) {
+        if this.weak_fence.fetch_sub(1, Release) == 1 {
+            trace!("Will drop Master as this was the only Fence");
+            core::sync::atomic::fence(Acquire);
+
+            ManuallyDrop::drop(this);
+        }
+    }
+}
+
 pub struct Urc<T: ?Sized + 'static> {
     /// A fence of this Urc.
     fence: ManuallyDrop<ScopePtr<Fence<T>>>,
@@ -125,10 +168,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -166,8 +206,7 @@ impl<T: ?Sized> Urc<T> {
         this.fence().inc_weak();
         unsafe {
             Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
+                fence: ManuallyDrop::new(this.fence.clone()),
             }
         }
     }
@@ -187,11 +226,6 @@ impl<T: ?Sized> Urc<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn fence_mut(&mut self) -> &mut Fence<T> {
-        &mut self.fence
-    }
-
     #[inline]
     pub fn try_into_fence(mut this: Self) -> Result<ScopePtr<Fence<T>>, Self> {
         if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {
@@ -218,7 +252,7 @@ impl<T> Urc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let master = Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
+            weak_fence: 1.into(),
             data: data.into(),
         };
         let fence = Fence {
@@ -256,6 +290,11 @@ impl<T> Urc<T> {
     }
 
     pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -267,24 +306,16 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
+            // Fence becomes a weak one and takes the weak reference of strong fences.
+            this.fence().dec_strong();
+
             // If nothing refers to the Fence no more then release it.
             if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
                 ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
             }
 
             // Prevent normal Drop execution - we already managed resources here.
@@ -309,61 +340,36 @@ impl<T> Urc<T> {
         // Move out the data to another completely new Master.
         macro_rules! move_out(
             () => {{
-                let data = unsafe { ptr::read(this.as_ref()) };
-                // Set strong to zero to indicate this Fence/Master
-                // does not own any data no more.
-                this.fence_mut().strong.set(0);
-                this.master_mut().strong_fence.store(0, Release);
+                // If allocation fails the data is left as it was.
+                let new = Self::new(unsafe { ptr::read(this.as_ref()) });
 
-                *this = Self::new(data);
-                unsafe { Urc::get_mut_unchecked(this) }
-            }};
-        );
-
-        if this.master().strong_fence.load(Acquire) == 1 {
-            // This is the only thread that has strong references.
-
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
+                // Set strong to zero to indicate this Fence/Master
+                // does not own any data no more. Fence becomes a weak one and takes the
+                // weak reference of strong fences.
+                this.fence().dec_strong();
+                this.master().strong_fence.store(0, Release);
+
+                unsafe {
+                    // If nothing refers to the Fence no more then release it.
+                    if this.fence().weak_count() == 0 {
+                        ManuallyDrop::drop(&mut this.fence);
                     }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
+                    ptr::write(this, new);
+                    Urc::get_mut_unchecked(this)
                 }
-            } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
-                    }
-                };
+            }};
+        );
 
-                move_out!()
-            }
+        if this.is_unique() {
+            // There are no other references at all.
+            unsafe { Urc::get_mut_unchecked(this) }
+        } else if this.fence().strong_count() == 1
+            && this.master().strong_fence.load(Acquire) == 1
+        {
+            // This is the only strong reference. Disassociate weak pointers from the data.
+            // Master will not get deallocated by the other threads during this process as
+            // strong fences hold a weak reference.
+            move_out!()
         } else {
             clone!()
         }
@@ -395,26 +401,14 @@ impl<T> Urc<T> {
     /// the underlying data.
     #[inline]
     fn is_unique(&self) -> bool {
-        // See 'Arc' impl of the same function for more details.
-
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(0, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
-        } else {
-            false
-        }
+        // Since there is only one strong Fence then only this thread owns the data
+        // so it is safe to proceed without locking. New weak Fences cannot appear as
+        // only strong ones can become weak. This was counted in `weak_fence` before
+        // `strong_fence` was decremented.
+        self.master().strong_fence.load(Acquire) == 1
+            && self.master().weak_fence.load(Acquire) == 1
+            && self.fence().strong_count() == 1
+            && self.fence().weak_count() == 0
     }
 }
 
@@ -443,11 +437,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -496,29 +485,22 @@ impl<T: ?Sized> Clone for Urc<T> {
 impl<T: ?Sized> Drop for Urc<T> {
     fn drop(&mut self) {
         trace!("Dropping Urc");
-        if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
+        if Urc::fence_strong_count(self) != 1 {
+            // There are still other strong references.
+            // Just decrement the counter and keep the Fence.
+            self.fence().dec_strong()
+        } else if Urc::fence_weak_count(self) == 0 {
             // The fence is no more referenced so drop it.
             trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
             unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
-
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
-                }
-            }
         } else {
-            // There are still either other strong or some weak references.
-            // Just decrement the counter and keep the Fence.
-            self.fence().dec_strong()
+            // Only weak references are left so the Fence becomes a weak one.
+            // Weaks may be owned by the data itself, so the Fence should not be accessed
+            // after the strong reference is released.
+            let mut master = ManuallyDrop::new(unsafe { self.fence.master.clone() });
+            self.fence().dec_strong();
+            master.weak_fence.fetch_add(1, Relaxed);
+            unsafe { Master::release_strong(&mut master) };
         }
     }
 }
@@ -527,16 +509,7 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
-            }
+            unsafe { ManuallyDrop::drop(&mut self.fence) };
         } else {
             // There are still either some strong or other weak references.
             // Just decrement the counter and keep the Fence.
-- 
2.43.0


From b607dedb2275664637b99231c81325b3f5dfc41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 43/46] fix: Rc and Arc drop the value if the allocation for it
 fails

---
 src/arc.rs | 15 +++++++++++----
 src/ptr.rs | 12 ++++++++++++
 src/rc.rs  | 14 ++++++++++----
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 7789846..5f35fb6 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -140,12 +140,18 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let inner = ArcInner {
+        Self::try_new_with(move || data)
+    }
+
+    /// The data is taken only if allocation succeeds.
+    #[inline]
+    fn try_new_with(data: impl FnOnce() -> T) -> Result<Self, AllocError> {
+        let inner = || ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(1),
-            data: data.into(),
+            data: data().into(),
         };
-        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
+        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc_with(
             inner,
             AllocSelector::new::<T>(),
         )?)))
@@ -188,7 +194,8 @@ impl<T: 'static> Arc<T> {
 
                 // Move the data to a new Arc. No other thread can make a strong reference from
                 // Weaks. If allocation fails the data is left as it was.
-                let new = Arc::new(unsafe { ptr::read(this.as_ref()) });
+                let data: *const T = this.as_ref();
+                let new = Arc::try_new_with(|| unsafe { ptr::read(data) }).unwrap();
 
                 unsafe {
                     // Release the weak reference of strong ones afterwards. If all the Weaks
diff --git a/src/ptr.rs b/src/ptr.rs
index 2d98155..0b0a193 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -186,6 +186,18 @@ impl<T> ScopePtr<T> {
         Ok(ptr)
     }
 
+    /// The same as `alloc` but the value is created only when the memory for it is allocated.
+    /// The function should not panic.
+    pub(crate) fn alloc_with(
+        value: impl FnOnce() -> T,
+        selector: AllocSelector,
+    ) -> Result<Self, AllocError> {
+        let ptr = Self::alloc_layout(Layout::new::<T>(), selector)?;
+        // SAFETY: memory was just allocated for this value.
+        unsafe { ptr::write(ptr.ptr.as_ptr(), value()) };
+        Ok(ptr)
+    }
+
     /// Allocate memory using given `Layout` and `AllocQuery`.
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
diff --git a/src/rc.rs b/src/rc.rs
index 7c41a36..3ce594e 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,13 +108,18 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
-        let b = RcBox {
+        Self::new_with(move || val)
+    }
+
+    /// The value is taken only if allocation succeeds.
+    fn new_with(val: impl FnOnce() -> T) -> Self {
+        let b = || RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
-            val: val.into(),
+            val: val().into(),
         };
         Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
+            ScopePtr::alloc_with(b, AllocSelector::new::<T>()).unwrap(),
         ))
     }
 
@@ -142,7 +147,8 @@ impl<T: 'static> Rc<T> {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
-                let new = Rc::new(unsafe { ptr::read(this.as_ref()) });
+                let data: *const T = this.as_ref();
+                let new = Rc::new_with(|| unsafe { ptr::read(data) });
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-- 
2.43.0


From 06cf3c464978e4e382bde29df244649805a01622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 44/46] fix: Urc drops the data and releases the memory if an
 allocation for it fails

---
 src/urc.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 27397d7..fa23f1a 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -250,23 +250,31 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let master = Master {
+        Self::try_new_with(move || data)
+    }
+
+    /// The data is taken only if all allocations succeed.
+    fn try_new_with(data: impl FnOnce() -> T) -> Result<Self, AllocError> {
+        // Allocate all the memory before taking the data.
+        let mut fence: ScopePtr<MaybeUninit<Fence<T>>> =
+            ScopePtr::alloc_with(MaybeUninit::uninit, AllocSelector::new::<T>())?;
+        let master = || Master {
             strong_fence: 1.into(),
             weak_fence: 1.into(),
-            data: data.into(),
+            data: data().into(),
         };
-        let fence = Fence {
+        let master = ScopePtr::alloc_with(master, AllocSelector::new::<Master<T>>())?;
+
+        let data = unsafe { Scoped::unsafe_from(&master.data).unsafe_into() };
+        fence.write(Fence {
             strong: 1.into(),
             weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
-        };
-        let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
-        let urc = Urc {
-            fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>())?),
-            data,
-        };
+            master: ManuallyDrop::new(master),
+        });
+        // SAFETY: fence was just initialized.
+        let fence = ManuallyDrop::new(unsafe { fence.cast() });
 
-        Ok(urc)
+        Ok(Urc { fence, data })
     }
 
     #[inline]
@@ -341,7 +349,8 @@ impl<T> Urc<T> {
         macro_rules! move_out(
             () => {{
                 // If allocation fails the data is left as it was.
-                let new = Self::new(unsafe { ptr::read(this.as_ref()) });
+                let data: *const T = this.as_ref();
+                let new = Self::try_new_with(|| unsafe { ptr::read(data) }).unwrap();
 
                 // Set strong to zero to indicate this Fence/Master
                 // does not own any data no more. Fence becomes a weak one and takes the
-- 
2.43.0


From d0265ad8cdb1260df5fe93bc4e0788908872c0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 45/46] fix: String must not read uninitialized bytes as
 initialized ones

---
 src/string.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 14cf0d3..164d5d9 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -1,5 +1,5 @@
 use core::slice;
-use core::{char::decode_utf16, convert::Infallible, mem::MaybeUninit, ptr, str::Utf8Error};
+use core::{char::decode_utf16, convert::Infallible, ptr, str::Utf8Error};
 
 use crate::{
     scope::AllocMarker,
@@ -126,7 +126,7 @@ impl String {
             1 => self.vec.push(ch as u8),
             _ => self
                 .vec
-                .extend_from_slice(ch.encode_utf8(&mut unsafe { uninit_bits() }).as_bytes()),
+                .extend_from_slice(ch.encode_utf8(&mut utf8_buf()).as_bytes()),
         }
     }
 
@@ -172,7 +172,7 @@ impl String {
     pub fn insert(&mut self, idx: usize, ch: char) {
         assert!(self.is_char_boundary(idx));
 
-        let mut bits = unsafe { uninit_bits() };
+        let mut bits = utf8_buf();
         let bits = ch.encode_utf8(&mut bits).as_bytes();
         unsafe { self.insert_bytes(idx, bits) };
     }
@@ -411,7 +411,7 @@ impl core::fmt::Debug for String {
 
 impl From<char> for String {
     fn from(ch: char) -> Self {
-        let mut bytes = unsafe { uninit_bits() };
+        let mut bytes = utf8_buf();
         let bytes = ch.encode_utf8(&mut bytes).as_bytes();
         let vec = Vec::from(bytes);
         String { vec }
@@ -657,8 +657,6 @@ impl core::fmt::Write for String {
     }
 }
 
-unsafe fn uninit_bits() -> [u8; 4] {
-    MaybeUninit::<[MaybeUninit<u8>; 4]>::uninit()
-        .assume_init()
-        .map(|v| v.assume_init())
+fn utf8_buf() -> [u8; 4] {
+    [0; 4]
 }
-- 
2.43.0


From 8bd0bd3d5df4761f63671b2c07aa7a67adcb0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 46/46] fix: String::extend asks the iterator no further once
 it has ended

---
 src/string.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 164d5d9..cfe4b95 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -504,8 +504,9 @@ impl Extend<String> for String {
 
         // Use already allocated String if current one is not.
         if self.capacity() == 0 {
-            if let Some(s) = iter.next() {
-                self.vec = s.vec;
+            match iter.next() {
+                Some(s) => self.vec = s.vec,
+                None => return,
             }
         }
 
-- 
2.43.0

