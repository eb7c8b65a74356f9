From 72dfaad1a162cf0ebb12f936052221d508709338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 01/15] fix: split uninitialized memory at byte offsets

Pointer arithmetic for byte offsets was done on pointers to the element
type. Splitting a typed region at a byte produced a tail too far behind it,
possibly out of bounds, and splitting untyped memory for a stricter alignment
failed, or returned a tail that aliases the head.
---
 without-alloc/src/uninit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..6080d92 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -559,7 +559,8 @@ impl UninitView<'_, ()> {
     ///
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
-        let align = self.ptr.as_ptr()
+        // Offsets are in bytes, the pointer to `()` has no stride at all.
+        let align = (self.ptr.as_ptr() as *mut u8)
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
@@ -626,7 +627,8 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        // The offset is in bytes, not in elements of type `T`.
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
-- 
2.43.0


From 530f4a43464bb6f203d25fd951e9f0edc90569b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 02/15] fix: initialize the level of a heap allocated MemBump

MemBump::new took memory from the global allocator without writing the index
of consumed bytes, so the first use read an uninitialized value.
---
 static-alloc/src/unsync/bump.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..b0248bc 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,8 +128,10 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
-        let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
-        unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
+        let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity) as *mut MemBump;
+        // The memory is uninitialized but the header must be valid.
+        unsafe { ptr::addr_of_mut!((*ptr).index).write(Cell::new(0)) };
+        unsafe { alloc::boxed::Box::from_raw(ptr) }
     }
 }
 
-- 
2.43.0


From eab000fafe66b0ea4edafb62289e8239d866e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 03/15] fix: account for alignment when reacquiring an
 allocation

get_unchecked returned the unaligned location of the level, and not the
location of the allocation that had been performed at that level, when its
type required padding.
---
 static-alloc/src/unsync/bump.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index b0248bc..59d9840 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -395,7 +395,9 @@ impl MemBump {
         debug_assert!(level.0 < self.capacity());
         let ptr = self.data_ptr().as_ptr();
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let start = ptr.add(level.0);
+        // The level does not include the padding that was inserted for alignment.
+        let alloc = start.add(start.align_offset(mem::align_of::<V>())) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From 06f3617c360933edf3424e17a185ab27ef78f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 04/15] fix: allocate zero-sized values from an unsynchronized
 allocator

Typed allocations of zero-sized types and empty arrays panicked, unlike those
of the synchronized allocator. In particular Alloca could not be run with a
length of zero.
---
 static-alloc/src/unsync/bump.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 59d9840..0e86424 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -320,6 +320,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -335,6 +339,14 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let observed = self.level();
+            if observed != level {
+                return Err(Failure::Mismatch { observed });
+            }
+            return Ok(Allocation::for_zst(observed));
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -460,7 +472,11 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
+        // An empty array, or one of zero-sized elements, needs no memory.
+        let raw = match layout.size() {
+            0 => NonNull::<T>::dangling(),
+            _ => self.alloc(layout).ok_or(Failure::Exhausted)?.cast(),
+        };
         let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
-- 
2.43.0


From 43bca515a2e6a0c5583dc76660fb842fac99d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 05/15] fix: check the length of an Alloca for overflow

Alloca::new(usize::MAX) panicked, or with overflow checks disabled returned an
instance that panics when run, instead of returning None.
---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From c3921e3af38a4fe86e3f2fbe6755460fae7afa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 06/15] fix: account for padding in an over-aligned
 unsync::Bump

The slice view of the allocator assumed that the data immediately follows the
header. For storage with a stricter alignment than usize the view was too
short, which failed a debug assertion, or the allocator could not provide an
allocation of the very type it is sized for. In particular ExitStack::set
reached an unreachable!() with over-aligned memory.
---
 static-alloc/src/unsync/bump.rs | 43 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0e86424..b5f05cc 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -64,10 +64,17 @@ use crate::leaked::LeakBox;
 /// ```
 #[repr(C)]
 pub struct Bump<T> {
+    /// The content, including padding in front of over-aligned data that is part of the memory as
+    /// seen through `MemBump`.
+    _inner: UnsafeCell<BumpInner<T>>,
+}
+
+#[repr(C)]
+struct BumpInner<T> {
     /// The index used in allocation.
     _index: Cell<usize>,
     /// The backing storage for raw allocated data.
-    _data: UnsafeCell<MaybeUninit<T>>,
+    _data: MaybeUninit<T>,
     // Warning: when changing the data layout, you must change `MemBump` as well.
 }
 
@@ -105,8 +112,10 @@ impl<T> Bump<T> {
     /// All allocations coming from the allocator will need to be initialized manually.
     pub fn uninit() -> Self {
         Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::uninit()),
+            _inner: UnsafeCell::new(BumpInner {
+                _index: Cell::new(0),
+                _data: MaybeUninit::uninit(),
+            }),
         }
     }
 
@@ -114,10 +123,20 @@ impl<T> Bump<T> {
     ///
     /// The caller can rely on all allocations to be zeroed.
     pub fn zeroed() -> Self {
-        Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::zeroed()),
-        }
+        // Safety: zero bytes are a valid index, and anything is valid for the data. This also covers
+        // the padding between the two.
+        unsafe { MaybeUninit::zeroed().assume_init() }
+    }
+
+    /// The number of bytes behind the header, up to the end of the data.
+    ///
+    /// This includes padding in front of the data if its alignment is larger than the header's.
+    fn data_len() -> usize {
+        let header = MemBump::header_layout();
+        let (layout, _) = header
+            .extend(Layout::new::<T>())
+            .expect("This is the layout of `Self`, except for tail padding");
+        layout.size() - header.size()
     }
 }
 
@@ -585,14 +604,13 @@ impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, Self::data_len());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_layout.size(), mem::size_of_val(bump));
         bump
     }
 }
@@ -600,14 +618,13 @@ impl<T> ops::Deref for Bump<T> {
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
         let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, Self::data_len());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_layout.size(), mem::size_of_val(bump));
         bump
     }
 }
-- 
2.43.0


From 177bd86f1b2c3d3311fb3b500648abdc8768a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 07/15] fix: shorten the slice pointer when splitting an
 uninitialized slice

The head kept a pointer to the whole slice, so that references created from it
covered the elements of the tail as well.
---
 without-alloc/src/uninit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 6080d92..25b1265 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -832,6 +832,10 @@ impl<'a, T> UninitView<'a, [T]> {
         self.len = bytes;
 
         let base = self.ptr.as_ptr() as *mut u8;
+        // The pointer must no longer refer to elements that are in the tail.
+        let head = ptr::slice_from_raw_parts_mut(base as *mut T, self.capacity());
+        self.ptr = ptr::NonNull::new(head).unwrap();
+
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
-- 
2.43.0


From 3a1134b620f5264e9476b7a1949ead71cc4d9e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 08/15] fix: return exactly the copied elements from copy_slice

The returned slice was empty for zero-sized types, and longer than the source,
with an uninitialized tail, if the allocator provided a larger allocation.
---
 without-alloc/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..355c3f2 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,9 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
-            // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            // SAFETY: this is a copy of `slice` which is initialized. Note that the uninitialized
+            // slice might have a different length, if the allocation is larger or for a ZST.
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From 704d7b76da116e626c42f342e2a4b542f0099314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 09/15] fix: respect the alignment of zero-sized values in
 copy_dst

A dangling pointer for the unit type was used, which is not aligned for types
with a stricter alignment.
---
 without-alloc/src/alloc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 355c3f2..17b8070 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -225,7 +225,12 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            None => {
+                // A well-aligned address is enough for a value without any size.
+                let dangling = core::ptr::null_mut::<u8>().wrapping_add(layout.align());
+                let dangling = core::ptr::NonNull::new(dangling).unwrap();
+                Uninit::from_memory(dangling, 0)
+            }
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From 183d936d729c7b275851893c210494d45a99a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 10/15] fix: keep the memory of an Rc reserved while dropping
 the value

The implicit weak reference was given up before the value was dropped. A value
that owns the last Weak to its own allocation could unwrap that, and overwrite
the memory it is placed in during its drop.
---
 without-alloc/src/rc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..5edee23 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -521,11 +521,13 @@ impl<T> Drop for Rc<'_, T> {
         self.dec_strong();
         // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
-
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
             }
+
+            // Only now, the value itself may own a `Weak`. It must not be able to reuse the memory
+            // while the value is being dropped.
+            self.dec_weak();
         }
     }
 }
-- 
2.43.0


From 7c419eb497689f86e92272513682676b6b4202a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 11/15] fix: stop filling a Result when its container is full

The implementation pulled items one by one and lost all those that the full
container did not accept, and it never returned for an infinite iterator.
---
 fill/src/fill.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..db48967 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -179,17 +179,20 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
-                },
-            };
-        };
+        // The container decides how many items to pull.
+        let mut err = None;
+        container.fill(core::iter::from_fn(|| match iter.next() {
+            None => None,
+            Some(Ok(ok)) => Some(ok),
+            Some(Err(failure)) => {
+                err = Some(failure);
+                None
+            },
+        }).fuse());
 
-        *self = Err(err);
+        if let Some(err) = err {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From 23737453709056287497978a2613f9c44b6edf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 12/15] fix: drop remaining pinned values when a drop panics

The guard against unwinding did not own the rest of the chain while a value was
being dropped, so a panic skipped all others although they had been pinned.
---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..0918438 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // The rest of the chain must be dropped even if dropping this value panics.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From 0210699ccc787b8eb10fa21b9d2ed7154bdb0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 13/15] hook: contracts for the verifier

Pre- and postconditions, frames and a loop invariant on the allocators, on views of uninitialized
memory and on the vector, all behind cfg(verif_contracts).
---
 static-alloc/src/bump.rs                  |  34 +++++
 static-alloc/src/bump/contracts.rs        | 151 ++++++++++++++++++++++
 static-alloc/src/lib.rs                   |   2 +
 static-alloc/src/unsync/bump.rs           |  28 ++++
 static-alloc/src/unsync/bump/contracts.rs |  36 ++++++
 static-alloc/src/unsync/mod.rs            |   2 +
 without-alloc/src/fixed_vec.rs            |  11 ++
 without-alloc/src/fixed_vec/contracts.rs  |  11 ++
 without-alloc/src/lib.rs                  |   2 +
 without-alloc/src/uninit.rs               |  41 ++++++
 without-alloc/src/uninit/contracts.rs     | 114 ++++++++++++++++
 11 files changed, 432 insertions(+)
 create mode 100644 static-alloc/src/bump/contracts.rs
 create mode 100644 static-alloc/src/unsync/bump/contracts.rs
 create mode 100644 without-alloc/src/fixed_vec/contracts.rs
 create mode 100644 without-alloc/src/uninit/contracts.rs

diff --git a/static-alloc/src/bump.rs b/static-alloc/src/bump.rs
index dcbcfc0..22df161 100644
--- a/static-alloc/src/bump.rs
+++ b/static-alloc/src/bump.rs
@@ -18,6 +18,11 @@ use atomic_polyfill::{AtomicUsize, Ordering};
 use crate::leaked::LeakBox;
 use alloc_traits::{AllocTime, LocalAlloc, NonZeroLayout};
 
+#[cfg(verif_contracts)]
+pub mod contracts;
+#[cfg(verif_contracts)]
+use contracts::address;
+
 /// Allocator drawing from an inner, statically sized memory resource.
 ///
 /// The type parameter `T` is used only to annotate the required size and alignment of the region
@@ -348,6 +353,8 @@ impl<T> Bump<T> {
     /// *bytes += *other;
     /// // ------------- immutable borrow later used here
     /// ```
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.state() == old(self.state()).up_to(0)))]
     pub fn reset(&mut self) {
         *self.consumed.get_mut() = 0;
     }
@@ -360,6 +367,9 @@ impl<T> Bump<T> {
     /// This function will panic if the requested layout has a size of `0`. For the use in a
     /// `GlobalAlloc` this is explicitely forbidden to request and would allow any behaviour but we
     /// instead strictly check it.
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Some(p) => old(self.state()).placed(self.state(), layout, address(*p)), None => old(self.state()).exhausted(self.state(), layout, old(self.state().used)) }))]
     pub fn alloc(&self, layout: Layout) -> Option<NonNull<u8>> {
         Some(self.try_alloc(layout)?.ptr)
     }
@@ -372,6 +382,9 @@ impl<T> Bump<T> {
     ///
     /// # Panics
     /// This function may panic if the provided `level` is from a different slab.
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid() && level.0 <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).precise(self.state(), layout, level.0, r)))]
     pub fn alloc_at(&self, layout: Layout, level: Level)
         -> Result<Allocation, Failure>
     {
@@ -390,6 +403,9 @@ impl<T> Bump<T> {
     /// bound by the lifetime of the reference to the allocator.
     ///
     /// [`Uninit`]: ../uninit/struct.Uninit.html
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).general(self.state(), layout, r)))]
     pub fn get_layout(&self, layout: Layout)
         -> Option<Allocation<'_>>
     {
@@ -405,6 +421,9 @@ impl<T> Bump<T> {
     /// this allocation with the preceding or succeeding one.
     ///
     /// [`Uninit`]: ../uninit/struct.Uninit.html
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid() && at.0 <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).precise(self.state(), layout, at.0, r)))]
     pub fn get_layout_at(&self, layout: Layout, at: Level)
         -> Result<Allocation<'_>, Failure>
     {
@@ -432,6 +451,9 @@ impl<T> Bump<T> {
     ///
     /// assert_eq!(**cell_ref, 0xff);
     /// ```
+    #[cfg_attr(verif_contracts, kani::requires(self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).general(self.state(), Layout::new::<V>(), r)))]
     pub fn get<V>(&self) -> Option<Allocation<V>> {
         if mem::size_of::<V>() == 0 {
             return Some(self.zst_fake_alloc());
@@ -452,6 +474,9 @@ impl<T> Bump<T> {
     /// See [`get`] for usage.
     ///
     /// [`get`]: #method.get
+    #[cfg_attr(verif_contracts, kani::requires(self.state().valid() && level.0 <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).precise(self.state(), Layout::new::<V>(), level.0, r)))]
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
         if mem::size_of::<V>() == 0 {
             let fake = self.zst_fake_alloc();
@@ -558,6 +583,9 @@ impl<T> Bump<T> {
         Level(self.consumed.load(Ordering::SeqCst))
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).general(self.state(), layout, r)))]
     fn try_alloc(&self, layout: Layout)
         -> Option<Allocation<'_>>
     {
@@ -580,6 +608,9 @@ impl<T> Bump<T> {
     ///
     /// # Panics
     /// This function panics if `expect_consumed` is larger than `length`.
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid() && expect_consumed <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).precise(self.state(), layout, expect_consumed, r)))]
     fn try_alloc_at(&self, layout: Layout, expect_consumed: usize)
         -> Result<Allocation<'_>, Failure>
     {
@@ -773,6 +804,9 @@ impl<T> Bump<T> {
     /// ## Panics
     /// This function panics if either argument exceeds the byte length of the underlying memory.
     /// It also panics if the expected value is larger than the new value.
+    #[cfg_attr(verif_contracts, kani::requires(expect_consumed <= new_consumed && new_consumed <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.consumed.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).bumped(self.state(), expect_consumed, new_consumed, r)))]
     fn bump(&self, expect_consumed: usize, new_consumed: usize) -> Result<(), usize> {
         assert!(expect_consumed <= new_consumed);
         assert!(new_consumed <= mem::size_of::<T>());
diff --git a/static-alloc/src/bump/contracts.rs b/static-alloc/src/bump/contracts.rs
new file mode 100644
index 0000000..85f4eff
--- /dev/null
+++ b/static-alloc/src/bump/contracts.rs
@@ -0,0 +1,151 @@
+//! Specifications of the allocators, only compiled for the verifier (`--cfg verif_contracts`).
+use super::*;
+
+/// What the effect of any operation of an allocator depends on.
+#[derive(Clone, Copy, PartialEq)]
+pub struct State {
+    /// Address of the memory that is handed out.
+    pub base: usize,
+    /// Its number of bytes.
+    pub capacity: usize,
+    /// The fill level.
+    pub used: usize,
+}
+
+impl State {
+    /// The invariant of all states.
+    pub fn valid(self) -> bool {
+        self.used <= self.capacity
+    }
+
+    /// The offset of the first aligned address at or behind the offset `from`, if `layout` fits there.
+    pub fn place(self, from: usize, layout: Layout) -> Option<usize> {
+        let mask = layout.align() - 1;
+        let aligned = self.base.checked_add(from)?.checked_add(mask)? & !mask;
+        let at = aligned - self.base;
+        if at <= self.capacity && layout.size() <= self.capacity - at {
+            Some(at)
+        } else {
+            None
+        }
+    }
+
+    /// The state once everything up to the offset is used.
+    pub fn up_to(self, used: usize) -> Self {
+        State { used, ..self }
+    }
+
+    /// `layout` was placed at the address and is all that changed.
+    pub fn placed(self, now: State, layout: Layout, ptr: usize) -> bool {
+        match self.place(self.used, layout) {
+            Some(at) => ptr == self.base + at && now == self.up_to(at + layout.size()),
+            None => false,
+        }
+    }
+
+    /// Nothing changed, as `layout` does not fit behind the offset.
+    pub fn exhausted(self, now: State, layout: Layout, from: usize) -> bool {
+        now == self && self.place(from, layout).is_none()
+    }
+
+    /// Contract of requests anywhere behind the fill level.
+    pub fn general<V>(self, now: State, layout: Layout, result: &Option<Allocation<'_, V>>) -> bool {
+        match result {
+            Some(a) if layout.size() == 0 => now == self && a.level.0 == self.used,
+            Some(a) => self.placed(now, layout, address(a.ptr)) && a.level.0 == now.used,
+            None => self.exhausted(now, layout, self.used),
+        }
+    }
+
+    /// Contract of requests at a precise level.
+    pub fn precise<V>(self, now: State, layout: Layout, at: usize, result: &Result<Allocation<'_, V>, Failure>) -> bool {
+        match result {
+            Ok(a) if layout.size() == 0 => now == self && a.level.0 == at && self.used == at,
+            Ok(a) => self.used == at && self.placed(now, layout, address(a.ptr)) && a.level.0 == now.used,
+            Err(failure) => self.refused(now, layout, at, failure),
+        }
+    }
+
+    /// Contract of a refusal at a precise level.
+    pub fn refused(self, now: State, layout: Layout, at: usize, failure: &Failure) -> bool {
+        match failure {
+            Failure::Exhausted => self.exhausted(now, layout, at),
+            Failure::Mismatch { observed } => now == self && observed.0 == self.used && self.used != at,
+        }
+    }
+
+    /// Contract of the single step that changes the fill level.
+    pub fn bumped(self, now: State, expect: usize, new: usize, result: &Result<(), usize>) -> bool {
+        match result {
+            Ok(()) => self.used == expect && now == self.up_to(new),
+            Err(observed) => now == self && *observed == self.used && self.used != expect,
+        }
+    }
+}
+
+/// The address of a pointer.
+pub fn address<V>(ptr: NonNull<V>) -> usize {
+    ptr.as_ptr() as *mut u8 as usize
+}
+
+impl<T> Bump<T> {
+    /// The state of this allocator.
+    pub fn state(&self) -> State {
+        State { base: self.storage.get() as usize, capacity: mem::size_of::<T>(), used: self.level().0 }
+    }
+}
+
+impl kani::Arbitrary for Level {
+    fn any() -> Self {
+        Level(kani::any())
+    }
+}
+
+impl kani::Arbitrary for Failure {
+    fn any() -> Self {
+        if kani::any() {
+            Failure::Exhausted
+        } else {
+            Failure::Mismatch { observed: kani::any() }
+        }
+    }
+}
+
+impl<T> kani::Arbitrary for Allocation<'_, T> {
+    fn any() -> Self {
+        let ptr = NonNull::new(kani::any::<usize>() as *mut T);
+        kani::assume(ptr.is_some());
+        Allocation { ptr: ptr.unwrap(), lifetime: Default::default(), level: kani::any() }
+    }
+}
+
+/// Functions that are not public, to be called by the harnesses of their contracts.
+pub mod private {
+    use super::*;
+
+    /// Put an allocator into any of its states.
+    pub fn any_state<T>(b: &mut Bump<T>) {
+        *b.consumed.get_mut() = kani::any();
+        kani::assume(b.state().valid());
+    }
+
+    /// The number of bytes that a level stands for.
+    pub fn level(level: Level) -> usize {
+        level.0
+    }
+
+    /// `Bump::bump`.
+    pub fn bump<T>(b: &Bump<T>, expect: usize, new: usize) -> Result<(), usize> {
+        b.bump(expect, new)
+    }
+
+    /// `Bump::try_alloc_at`.
+    pub fn try_alloc_at<T>(b: &Bump<T>, layout: Layout, at: usize) -> Result<Allocation<'_>, Failure> {
+        b.try_alloc_at(layout, at)
+    }
+
+    /// `Bump::try_alloc`.
+    pub fn try_alloc<T>(b: &Bump<T>, layout: Layout) -> Option<Allocation<'_>> {
+        b.try_alloc(layout)
+    }
+}
diff --git a/static-alloc/src/lib.rs b/static-alloc/src/lib.rs
index 8db13c2..c57326b 100644
--- a/static-alloc/src/lib.rs
+++ b/static-alloc/src/lib.rs
@@ -43,6 +43,8 @@
 // Copyright 2019,2022 Andreas Molzer
 #![no_std]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
+#![cfg_attr(verif_contracts, feature(stmt_expr_attributes, proc_macro_hygiene))]
 
 #[cfg(feature = "alloc")]
 extern crate alloc;
diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index b5f05cc..2ee0210 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -11,6 +11,11 @@ use alloc_traits::AllocTime;
 use crate::bump::{Allocation, Failure, Level};
 use crate::leaked::LeakBox;
 
+#[cfg(verif_contracts)]
+pub mod contracts;
+#[cfg(verif_contracts)]
+use contracts::address;
+
 /// A bump allocator whose storage capacity and alignment is given by `T`.
 ///
 /// This type dereferences to the generic `MemBump` that implements the allocation behavior. Note
@@ -298,6 +303,9 @@ impl MemBump {
     /// instead strictly check it.
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Some(p) => old(self.state()).placed(self.state(), layout, address(*p)), None => old(self.state()).exhausted(self.state(), layout, old(self.state().used)) }))]
     pub fn alloc(&self, layout: Layout) -> Option<NonNull<u8>> {
         Some(self.try_alloc(layout)?.ptr)
     }
@@ -310,6 +318,9 @@ impl MemBump {
     ///
     /// # Panics
     /// This function may panic if the provided `level` is from a different slab.
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid() && level.0 <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Ok(p) => old(self.state()).used == level.0 && old(self.state()).placed(self.state(), layout, address(*p)), Err(f) => old(self.state()).refused(self.state(), layout, level.0, f) }))]
     pub fn alloc_at(&self, layout: Layout, level: Level) -> Result<NonNull<u8>, Failure> {
         let Allocation { ptr, .. } = self.try_alloc_at(layout, level.0)?;
         Ok(ptr)
@@ -338,6 +349,9 @@ impl MemBump {
     /// ```
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
+    #[cfg_attr(verif_contracts, kani::requires(self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).general(self.state(), Layout::new::<V>(), r)))]
     pub fn get<V>(&self) -> Option<Allocation<V>> {
         if mem::size_of::<V>() == 0 {
             return Some(Allocation::for_zst(self.level()));
@@ -357,6 +371,9 @@ impl MemBump {
     /// access to the allocator.
     ///
     /// [`get`]: #method.get
+    #[cfg_attr(verif_contracts, kani::requires(self.state().valid() && level.0 <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).precise(self.state(), Layout::new::<V>(), level.0, r)))]
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
         if mem::size_of::<V>() == 0 {
             let observed = self.level();
@@ -510,10 +527,15 @@ impl MemBump {
     ///
     /// This requires a unique reference to the allocator hence no allocation can be alive at this
     /// point. It will reset the internal count of used bytes to zero.
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.state() == old(self.state()).up_to(0)))]
     pub fn reset(&mut self) {
         self.index.set(0)
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).general(self.state(), layout, r)))]
     fn try_alloc(&self, layout: Layout) -> Option<Allocation<'_>> {
         let consumed = self.index.get();
         match self.try_alloc_at(layout, consumed) {
@@ -525,6 +547,9 @@ impl MemBump {
         }
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(layout.size() > 0 && self.state().valid() && expect_consumed <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).precise(self.state(), layout, expect_consumed, r)))]
     fn try_alloc_at(
         &self,
         layout: Layout,
@@ -587,6 +612,9 @@ impl MemBump {
         })
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(expect <= consume && consume <= self.state().capacity))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.state()).bumped(self.state(), expect, consume, r)))]
     fn bump(&self, expect: usize, consume: usize) -> Result<(), usize> {
         debug_assert!(consume <= self.capacity());
         debug_assert!(expect <= consume);
diff --git a/static-alloc/src/unsync/bump/contracts.rs b/static-alloc/src/unsync/bump/contracts.rs
new file mode 100644
index 0000000..81d2854
--- /dev/null
+++ b/static-alloc/src/unsync/bump/contracts.rs
@@ -0,0 +1,36 @@
+//! Specifications of the allocator, only compiled for the verifier (`--cfg verif_contracts`).
+use super::*;
+pub use crate::bump::contracts::{address, State};
+
+impl MemBump {
+    /// The state of this allocator.
+    pub fn state(&self) -> State {
+        State { base: address(self.data_ptr()), capacity: self.capacity(), used: self.level().0 }
+    }
+}
+
+/// Functions that are not public, to be called by the harnesses of their contracts.
+pub mod private {
+    use super::*;
+
+    /// Put an allocator into any of its states.
+    pub fn any_state(b: &mut MemBump) {
+        b.index.set(kani::any());
+        kani::assume(b.state().valid());
+    }
+
+    /// `MemBump::bump`.
+    pub fn bump(b: &MemBump, expect: usize, new: usize) -> Result<(), usize> {
+        b.bump(expect, new)
+    }
+
+    /// `MemBump::try_alloc_at`.
+    pub fn try_alloc_at(b: &MemBump, layout: Layout, at: usize) -> Result<Allocation<'_>, Failure> {
+        b.try_alloc_at(layout, at)
+    }
+
+    /// `MemBump::try_alloc`.
+    pub fn try_alloc(b: &MemBump, layout: Layout) -> Option<Allocation<'_>> {
+        b.try_alloc(layout)
+    }
+}
diff --git a/static-alloc/src/unsync/mod.rs b/static-alloc/src/unsync/mod.rs
index e1216bc..cda0669 100644
--- a/static-alloc/src/unsync/mod.rs
+++ b/static-alloc/src/unsync/mod.rs
@@ -5,3 +5,5 @@ mod chain;
 pub use bump::{Bump, FromMemError, MemBump};
 #[cfg(all(feature="alloc", feature="nightly_chain"))]
 pub use chain::{Chain};
+#[cfg(verif_contracts)]
+pub use bump::contracts;
diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..372c973 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -6,6 +6,9 @@
 use core::{borrow, cmp, hash, iter, ops, ptr, slice};
 use crate::uninit::Uninit;
 
+#[cfg(verif_contracts)]
+pub mod contracts;
+
 /// A `Vec`-like structure that does not manage its allocation.
 ///
 /// This vector type will never (re-)allocate but it can also not free underused memory. As opposed
@@ -155,10 +158,18 @@ impl<T> FixedVec<'_, T> {
             }
         }
 
+        #[cfg(verif_contracts)]
+        let (begin, drops) = (self.uninit.as_begin_ptr(), &raw const contracts::DROPS);
         let mut ptr = self.end_mut_ptr();
         let current_length = self.length;
         let mut set_len = SetLenOnDrop { len: &mut self.length, local_len: current_length };
 
+        #[cfg_attr(verif_contracts, kani::loop_invariant(
+            set_len.local_len == current_length - kani::index
+                && ptr as usize == begin as usize + set_len.local_len * core::mem::size_of::<T>()
+                && contracts::dropped(set_len.local_len, current_length)
+        ))]
+        #[cfg_attr(verif_contracts, kani::loop_modifies(&set_len.local_len, &ptr, drops))]
         for _ in len..current_length {
             set_len.local_len -= 1;
 
diff --git a/without-alloc/src/fixed_vec/contracts.rs b/without-alloc/src/fixed_vec/contracts.rs
new file mode 100644
index 0000000..6143cee
--- /dev/null
+++ b/without-alloc/src/fixed_vec/contracts.rs
@@ -0,0 +1,11 @@
+//! Ghost state for the invariants of loops, only compiled for the verifier (`--cfg verif_contracts`).
+
+/// The index of the one element that is watched, an arbitrary one.
+pub static mut WATCHED: usize = usize::MAX;
+/// How often it was dropped.
+pub static mut DROPS: usize = 0;
+
+/// Exactly the elements from the one index up to the other were dropped, once.
+pub fn dropped(from: usize, to: usize) -> bool {
+    unsafe { DROPS == (from <= WATCHED && WATCHED < to) as usize }
+}
diff --git a/without-alloc/src/lib.rs b/without-alloc/src/lib.rs
index 2174124..ce33957 100644
--- a/without-alloc/src/lib.rs
+++ b/without-alloc/src/lib.rs
@@ -28,6 +28,8 @@
 // Copyright 2019–2020 Andreas Molzer
 #![no_std]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
+#![cfg_attr(verif_contracts, feature(stmt_expr_attributes, proc_macro_hygiene))]
 #![cfg_attr(feature = "nightly_set_ptr_value", feature(set_ptr_value))]
 
 pub mod alloc;
diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 25b1265..e6594d2 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -25,6 +25,9 @@ use core::marker::PhantomData;
 use crate::boxed::Box;
 use unsize::CoerciblePtr;
 
+#[cfg(verif_contracts)]
+pub mod contracts;
+
 /// Points to an uninitialized place but would otherwise be a valid reference.
 ///
 /// This is a `&mut`-like struct that is somewhat of a pendant to `MaybeUninit`. It makes it
@@ -142,6 +145,9 @@ impl Uninit<'_, ()> {
     /// Split so that the second part fits the layout.
     ///
     /// Return `Ok` if this is possible in-bounds and `Err` if it is not.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_layout(layout, self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
         self.view.split_layout(layout)
             .map(Self::from_presumed_mutable_view)
@@ -163,6 +169,9 @@ impl<'a> Uninit<'a, ()> {
     /// Return `Ok` if this is possible in-bounds (aligned and enough room for at least one `U`)
     /// and `Err` if it is not. The first tuple element is the `Uninit` pointing to the skipped
     /// memory.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_layout(Layout::new::<U>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_cast<U>(&mut self) -> Option<Uninit<'a, U>> {
         let split = self.split_layout(Layout::new::<U>())?;
         let cast = split.cast::<U>().unwrap();
@@ -177,6 +186,9 @@ impl<'a> Uninit<'a, ()> {
     /// The length of the slice is the arbitrary amount that fits into the tail of the allocation.
     /// Note that the length always fulfills the safety requirements for `slice::from_raw_parts`
     /// since the `Uninit` must be contained in a single allocation.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_layout(Layout::new::<[U; 0]>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_slice<U>(&mut self) -> Option<Uninit<'a, [U]>> {
         let layout = Layout::for_value::<[U]>(&[]);
         let split = self.split_layout(layout)?;
@@ -220,6 +232,9 @@ impl<'a, T> Uninit<'a, T> {
     /// Split the uninit slice at a byte boundary.
     ///
     /// Return `Ok` if the location is in-bounds and `Err` if it is out of bounds.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split(at, at >= mem::size_of::<T>() && at <= old(self.spanned()).len, self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_at_byte(&mut self, at: usize) -> Option<Uninit<'a, ()>> {
         self.view.split_at_byte(at)
             .map(Uninit::from_presumed_mutable_view)
@@ -234,6 +249,8 @@ impl<'a, T> Uninit<'a, T> {
     /// Use [`split_to_fit`] to get rid of surplus memory at the end.
     ///
     /// [`split_to_fit`]: #method.split_to_fit
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).cast(Layout::new::<U>(), contracts::unique_extents(r))))]
     pub fn cast<U>(self) -> Result<Uninit<'a, U>, Self> {
         self.view.cast()
             .map(Uninit::from_presumed_mutable_view)
@@ -245,6 +262,8 @@ impl<'a, T> Uninit<'a, T> {
     /// Return `Ok` if the current `Uninit` is suitably aligned and large enough to hold at least
     /// one `U` and `Err` if it is not. Note that the successful result points to unused remaining
     /// memory behind where the instances can be placed.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).cast(Layout::new::<[U; 0]>(), contracts::unique_extents(r)) && r.as_ref().map_or(true, |p| p.view.valid_slice())))]
     pub fn cast_slice<U>(self) -> Result<Uninit<'a, [U]>, Self> {
         self.view.cast_slice::<U>()
             .map(Uninit::from_presumed_mutable_view)
@@ -404,6 +423,9 @@ impl<'a, T> Uninit<'a, [T]> {
     /// Split the slice at an index.
     ///
     /// This is the pointer equivalent of `slice::split_at`.
+    #[cfg_attr(verif_contracts, kani::requires(self.view.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split(at.wrapping_mul(mem::size_of::<T>()), at.checked_mul(mem::size_of::<T>()).map_or(false, |b| b <= old(self.spanned()).len), self.spanned(), r.as_ref().map(|p| p.spanned())) && self.view.valid_slice() && r.as_ref().map_or(true, |p| p.view.valid_slice())))]
     pub fn split_at(&mut self, at: usize) -> Option<Self> {
         self.view.split_at(at)
             .map(Self::from_presumed_mutable_view)
@@ -558,6 +580,9 @@ impl UninitView<'_, ()> {
     /// See [`Uninit::split_layout`] for more details.
     ///
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_layout(layout, self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
         // Offsets are in bytes, the pointer to `()` has no stride at all.
         let align = (self.ptr.as_ptr() as *mut u8)
@@ -587,6 +612,9 @@ impl<'a> UninitView<'a, ()> {
     }
 
     /// Split so that the tail is aligned and valid for a `U`.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_layout(Layout::new::<U>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_cast<U>(&mut self) -> Option<UninitView<'a, U>> {
         let split = self.split_layout(Layout::new::<U>())?;
         let cast = split.cast::<U>().unwrap();
@@ -594,6 +622,9 @@ impl<'a> UninitView<'a, ()> {
     }
 
     /// Split so that the tail is aligned for a slice `[U]`.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_layout(Layout::new::<[U; 0]>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_slice<U>(&mut self) -> Option<UninitView<'a, [U]>> {
         let layout = Layout::for_value::<[U]>(&[]);
         let split = self.split_layout(layout)?;
@@ -622,6 +653,9 @@ impl<'a, T> UninitView<'a, T> {
     /// See [`Uninit::split_at_byte`] for more details.
     ///
     /// [`Uninit::split_at_byte`]: ./struct.Uninit.html#method.split_at_byte
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split(at, at >= mem::size_of::<T>() && at <= old(self.spanned()).len, self.spanned(), r.as_ref().map(|p| p.spanned()))))]
     pub fn split_at_byte(&mut self, at: usize) -> Option<UninitView<'a, ()>> {
         if self.len < at || at < mem::size_of::<T>() {
             return None;
@@ -657,6 +691,8 @@ impl<'a, T> UninitView<'a, T> {
     }
 
     /// Try to cast to an `UninitView` for a slice type.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).cast(Layout::new::<[U; 0]>(), contracts::extents(r)) && r.as_ref().map_or(true, |p| p.valid_slice())))]
     pub fn cast_slice<U>(self) -> Result<UninitView<'a, [U]>, Self> {
         let empty = Layout::for_value::<[U]>(&[]);
 
@@ -733,6 +769,8 @@ impl<'a, T: ?Sized> UninitView<'a, T> {
     }
 
     /// Try to cast to an `UninitView` for another type.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).cast(Layout::new::<U>(), contracts::extents(r))))]
     pub fn cast<U>(self) -> Result<UninitView<'a, U>, Self> {
         if !self.fits(Layout::new::<U>()) {
             return Err(self);
@@ -818,6 +856,9 @@ impl<'a, T> UninitView<'a, [T]> {
     }
 
     /// Split the slice at an index.
+    #[cfg_attr(verif_contracts, kani::requires(self.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split(at.wrapping_mul(mem::size_of::<T>()), at.checked_mul(mem::size_of::<T>()).map_or(false, |b| b <= old(self.spanned()).len), self.spanned(), r.as_ref().map(|p| p.spanned())) && self.valid_slice() && r.as_ref().map_or(true, |p| p.valid_slice())))]
     pub fn split_at(&mut self, at: usize) -> Option<Self> {
         // NOTE: Slice pointers are blocked by Rust stabilization we can not create one from a real
         // reference to slice as that would restrict us to the memory covered by the reference.
diff --git a/without-alloc/src/uninit/contracts.rs b/without-alloc/src/uninit/contracts.rs
new file mode 100644
index 0000000..5033a21
--- /dev/null
+++ b/without-alloc/src/uninit/contracts.rs
@@ -0,0 +1,114 @@
+//! Specifications of uninitialized memory, only compiled for the verifier (`--cfg verif_contracts`).
+use super::*;
+
+/// The memory that is described.
+#[derive(Clone, Copy, PartialEq)]
+pub struct Extent {
+    /// Its first address.
+    pub start: usize,
+    /// Its number of bytes.
+    pub len: usize,
+}
+
+impl Extent {
+    /// The invariant of all memory.
+    pub fn valid(self) -> bool {
+        self.start != 0 && self.len <= isize::MAX as usize && self.start.checked_add(self.len).is_some()
+    }
+
+    /// It is divided exactly at the offset.
+    pub fn divided(self, at: usize, head: Extent, tail: Extent) -> bool {
+        at <= self.len
+            && head == Extent { start: self.start, len: at }
+            && tail == Extent { start: self.start + at, len: self.len - at }
+    }
+
+    /// The offset of the first place for the layout, if it fits.
+    pub fn place(self, layout: Layout) -> Option<usize> {
+        let mask = layout.align() - 1;
+        let at = (self.start.checked_add(mask)? & !mask) - self.start;
+        if at <= self.len && layout.size() <= self.len - at {
+            Some(at)
+        } else {
+            None
+        }
+    }
+
+    /// Contract of splitting at an offset, which succeeds if `possible`.
+    pub fn split(self, at: usize, possible: bool, now: Extent, part: Option<Extent>) -> bool {
+        match part {
+            Some(part) => possible && self.divided(at, now, part),
+            None => !possible && now == self,
+        }
+    }
+
+    /// Contract of splitting for a layout.
+    pub fn split_layout(self, layout: Layout, now: Extent, part: Option<Extent>) -> bool {
+        match self.place(layout) {
+            Some(at) => self.split(at, true, now, part),
+            None => self.split(0, false, now, part),
+        }
+    }
+
+    /// Contract of casting to something of the layout.
+    pub fn cast(self, layout: Layout, result: Result<Extent, Extent>) -> bool {
+        match result {
+            Ok(it) => it == self && self.place(layout) == Some(0),
+            Err(it) => it == self && self.place(layout) != Some(0),
+        }
+    }
+}
+
+impl<T: ?Sized> UninitView<'_, T> {
+    /// The memory that is described.
+    pub fn spanned(&self) -> Extent {
+        Extent { start: self.ptr.as_ptr() as *mut u8 as usize, len: self.len }
+    }
+}
+
+impl<T> UninitView<'_, [T]> {
+    /// The slice pointer has the length that fits into the memory.
+    pub fn valid_slice(&self) -> bool {
+        let fit = self.len.checked_div(mem::size_of::<T>()).unwrap_or(usize::MAX);
+        self.spanned().valid() && self.ptr.as_ptr() as *mut T as usize % mem::align_of::<T>() == 0 && self.ptr.len() == fit
+    }
+}
+
+impl<T: ?Sized> Uninit<'_, T> {
+    /// The memory that is described.
+    pub fn spanned(&self) -> Extent {
+        self.view.spanned()
+    }
+}
+
+/// The memory of each outcome.
+pub fn extents<T: ?Sized, U: ?Sized>(result: &Result<UninitView<'_, T>, UninitView<'_, U>>) -> Result<Extent, Extent> {
+    match result {
+        Ok(it) => Ok(it.spanned()),
+        Err(it) => Err(it.spanned()),
+    }
+}
+
+/// The memory of each outcome.
+pub fn unique_extents<T: ?Sized, U: ?Sized>(result: &Result<Uninit<'_, T>, Uninit<'_, U>>) -> Result<Extent, Extent> {
+    match result {
+        Ok(it) => Ok(it.spanned()),
+        Err(it) => Err(it.spanned()),
+    }
+}
+
+impl<T> kani::Arbitrary for UninitView<'_, T> {
+    fn any() -> Self {
+        let ptr = ptr::NonNull::new(kani::any::<usize>() as *mut T);
+        kani::assume(ptr.is_some());
+        UninitView { ptr: ptr.unwrap(), len: kani::any(), lifetime: PhantomData, typed: PhantomData }
+    }
+}
+
+impl<T> kani::Arbitrary for UninitView<'_, [T]> {
+    fn any() -> Self {
+        let ptr = ptr::slice_from_raw_parts_mut(kani::any::<usize>() as *mut T, kani::any());
+        kani::assume(!ptr.is_null());
+        UninitView { ptr: ptr::NonNull::new(ptr).unwrap(), len: kani::any(), lifetime: PhantomData, typed: PhantomData }
+    }
+}
-- 
2.43.0


From 84be43ba0c3a2e771f87c6c583a1b62da6f52ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:04 +0000
Subject: [PATCH 14/15] hook: contracts of more functions for the verifier

---
 alloc-traits/src/layout.rs                |  30 ++++
 alloc-traits/src/lib.rs                   |   1 +
 static-alloc/src/bump.rs                  |   1 +
 static-alloc/src/bump/contracts.rs        |  30 ++++
 static-alloc/src/leaked.rs                |  28 ++++
 static-alloc/src/unsync/bump.rs           |   7 +
 static-alloc/src/unsync/bump/contracts.rs |  27 ++++
 static-alloc/src/unsync/chain.rs          |  35 ++++
 static-alloc/src/unsync/mod.rs            |   2 +
 without-alloc/src/boxed.rs                |   6 +
 without-alloc/src/fixed_vec.rs            |  27 ++++
 without-alloc/src/fixed_vec/contracts.rs  |  81 +++++++++-
 without-alloc/src/rc.rs                   |  49 ++++++
 without-alloc/src/rc/contracts.rs         | 187 ++++++++++++++++++++++
 without-alloc/src/uninit.rs               |  51 ++++++
 without-alloc/src/uninit/contracts.rs     |  35 ++++
 16 files changed, 596 insertions(+), 1 deletion(-)
 create mode 100644 without-alloc/src/rc/contracts.rs

diff --git a/alloc-traits/src/layout.rs b/alloc-traits/src/layout.rs
index 3f31646..10b4188 100644
--- a/alloc-traits/src/layout.rs
+++ b/alloc-traits/src/layout.rs
@@ -17,16 +17,19 @@ pub struct EmptyLayoutError;
 
 impl Layout {
     /// Create the layout for a type.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.0.size() == core::mem::size_of::<T>() && r.0.align() == core::mem::align_of::<T>()))]
     pub fn new<T>() -> Self {
         Layout(alloc::Layout::new::<T>())
     }
 
     /// Return the size of the layout.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.0.size()))]
     pub fn size(&self) -> usize {
         self.0.size()
     }
 
     /// Return the alignment of the layout.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.0.align()))]
     pub fn align(&self) -> usize {
         self.0.align()
     }
@@ -37,11 +40,13 @@ impl NonZeroLayout {
     ///
     /// This succeeds exactly if the type is not a zero-sized type. Otherwise this constructor
     /// returns `None`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Some(l) => (l.0).0.size() == core::mem::size_of::<T>() && (l.0).0.align() == core::mem::align_of::<T>() && (l.0).0.size() > 0, None => core::mem::size_of::<T>() == 0 }))]
     pub fn new<T>() -> Option<Self> {
         Self::from_layout(Layout::new::<T>())
     }
 
     /// Creates a non-empty layout if the given layout is not empty.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Some(l) => l.0 == layout && layout.0.size() > 0, None => layout.0.size() == 0 }))]
     pub fn from_layout(layout: Layout) -> Option<Self> {
         if layout.size() == 0 {
             None
@@ -51,11 +56,14 @@ impl NonZeroLayout {
     }
 
     /// Return the size of the layout.
+    #[cfg_attr(verif_contracts, kani::requires((self.0).0.size() > 0))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.get() == (self.0).0.size()))]
     pub fn size(&self) -> NonZeroUsize {
         NonZeroUsize::new(self.0.size()).unwrap()
     }
 
     /// Return the alignment of the layout.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == (self.0).0.align()))]
     pub fn align(&self) -> usize {
         self.0.align()
     }
@@ -94,3 +102,25 @@ impl convert::TryFrom<alloc::Layout> for NonZeroLayout {
         NonZeroLayout::try_from(Layout::from(layout))
     }
 }
+
+/// Any layout, only compiled for the verifier (`--cfg verif_contracts`).
+#[cfg(verif_contracts)]
+mod contracts {
+    use super::*;
+
+    impl kani::Arbitrary for Layout {
+        fn any() -> Self {
+            let layout = alloc::Layout::from_size_align(kani::any(), kani::any());
+            kani::assume(layout.is_ok());
+            Layout(layout.unwrap())
+        }
+    }
+
+    impl kani::Arbitrary for NonZeroLayout {
+        fn any() -> Self {
+            let layout: Layout = kani::any();
+            kani::assume(layout.0.size() > 0);
+            NonZeroLayout(layout)
+        }
+    }
+}
diff --git a/alloc-traits/src/lib.rs b/alloc-traits/src/lib.rs
index 9486ce0..4861360 100644
--- a/alloc-traits/src/lib.rs
+++ b/alloc-traits/src/lib.rs
@@ -18,6 +18,7 @@
 // Copyright 2019-2021 Andreas Molzer
 #![no_std]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 mod layout;
 mod local;
diff --git a/static-alloc/src/bump.rs b/static-alloc/src/bump.rs
index 22df161..85a1646 100644
--- a/static-alloc/src/bump.rs
+++ b/static-alloc/src/bump.rs
@@ -941,6 +941,7 @@ unsafe impl<T> GlobalAlloc for Bump<T> {
     }
 }
 
+#[cfg_attr(verif_contracts, kani::ensures(|r| contracts::reallocated(layout, target.get(), r)))]
 fn layout_reallocated(layout: NonZeroLayout, target: core::num::NonZeroUsize)
     -> Option<NonZeroLayout>
 {
diff --git a/static-alloc/src/bump/contracts.rs b/static-alloc/src/bump/contracts.rs
index 85f4eff..d2da585 100644
--- a/static-alloc/src/bump/contracts.rs
+++ b/static-alloc/src/bump/contracts.rs
@@ -57,6 +57,15 @@ impl State {
         }
     }
 
+    /// `layout` is at the address, which takes up nothing without a size.
+    pub fn occupied(self, now: State, layout: Layout, ptr: usize) -> bool {
+        if layout.size() == 0 {
+            now == self && ptr & (layout.align() - 1) == 0 && ptr != 0
+        } else {
+            self.placed(now, layout, ptr)
+        }
+    }
+
     /// Contract of requests at a precise level.
     pub fn precise<V>(self, now: State, layout: Layout, at: usize, result: &Result<Allocation<'_, V>, Failure>) -> bool {
         match result {
@@ -119,6 +128,22 @@ impl<T> kani::Arbitrary for Allocation<'_, T> {
     }
 }
 
+/// Whether `count` elements of a size have a layout of the alignment.
+pub fn has_layout(count: Option<usize>, size: usize, align: usize) -> bool {
+    match count.and_then(|n| n.checked_mul(size)) {
+        Some(bytes) => bytes <= isize::MAX as usize - (align - 1),
+        None => false,
+    }
+}
+
+/// Contract of changing the size of a layout.
+pub fn reallocated(layout: NonZeroLayout, size: usize, result: &Option<NonZeroLayout>) -> bool {
+    match result {
+        Some(new) => new.size().get() == size && new.align() == layout.align(),
+        None => !has_layout(Some(size), 1, layout.align()),
+    }
+}
+
 /// Functions that are not public, to be called by the harnesses of their contracts.
 pub mod private {
     use super::*;
@@ -134,6 +159,11 @@ pub mod private {
         level.0
     }
 
+    /// `layout_reallocated`.
+    pub fn layout_reallocated(layout: NonZeroLayout, target: core::num::NonZeroUsize) -> Option<NonZeroLayout> {
+        super::super::layout_reallocated(layout, target)
+    }
+
     /// `Bump::bump`.
     pub fn bump<T>(b: &Bump<T>, expect: usize, new: usize) -> Result<(), usize> {
         b.bump(expect, new)
diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index d492c36..dddda16 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -27,6 +27,7 @@ pub struct Alloca<T> {
 impl<T> Alloca<T> {
     /// Try to create a representation, that allows functions with dynamically stack-allocated
     /// slices.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Some(a) => a.len == len && contracts::paddable::<T>(len), None => !contracts::paddable::<T>(len) }))]
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
@@ -37,6 +38,8 @@ impl<T> Alloca<T> {
         })
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(contracts::paddable::<T>(self.len)))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.size() == (self.len + 1) * core::mem::size_of::<T>() && r.align() == core::mem::align_of::<T>()))]
     fn padded_layout(&self) -> Layout {
         Layout::array::<T>(self.len + 1).expect("Checked this in the constructor")
     }
@@ -109,6 +112,27 @@ impl<T> Alloca<T> {
     }
 }
 
+/// Specifications of scratch space, only compiled for the verifier (`--cfg verif_contracts`).
+#[cfg(verif_contracts)]
+pub mod contracts {
+    use super::*;
+
+    /// One more than so many elements have a layout.
+    pub fn paddable<T>(len: usize) -> bool {
+        crate::bump::contracts::has_layout(len.checked_add(1), core::mem::size_of::<T>(), core::mem::align_of::<T>())
+    }
+
+    /// `Alloca::padded_layout`.
+    pub fn padded_layout<T>(space: &Alloca<T>) -> Layout {
+        space.padded_layout()
+    }
+
+    /// Scratch space of any number of elements.
+    pub fn any_space<T>() -> Alloca<T> {
+        Alloca { marker: PhantomData, len: kani::any() }
+    }
+}
+
 /// Represents an allocation within a Bump.
 ///
 /// This is an owning pointer comparable to `Box`. It drops the contained value when it is dropped
@@ -218,6 +242,7 @@ impl<'ctx, T: ?Sized> LeakBox<'ctx, T> {
     /// };
     /// # Some(()) }
     /// ```
+    #[cfg_attr(verif_contracts, kani::ensures(|r| core::ptr::addr_eq(*r, old(this.pointer).as_ptr())))]
     pub fn into_raw(this: Self) -> *mut T {
         let this = ManuallyDrop::new(this);
         this.pointer.as_ptr()
@@ -235,6 +260,8 @@ impl<'ctx, T: ?Sized> LeakBox<'ctx, T> {
     /// reference for the lifetime `'ctx`. In particular it must be valid aligned and initialized.
     /// Dropping this `LeakBox` will drop the instance, which the caller must also guarantee to be
     /// sound.
+    #[cfg_attr(verif_contracts, kani::requires(!pointer.is_null()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| core::ptr::addr_eq(r.pointer.as_ptr(), pointer)))]
     pub unsafe fn from_raw(pointer: *mut T) -> Self {
         debug_assert!(!pointer.is_null(), "Null pointer passed to LeakBox::from_raw");
         LeakBox {
@@ -488,6 +515,7 @@ impl<'ctx, T> LeakBox<'ctx, MaybeUninit<T>> {
     ///
     /// The value must have been initialized as required by `MaybeUninit::assume_init`. Calling
     /// this when the content is not yet fully initialized causes immediate undefined behavior.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| core::ptr::addr_eq(r.pointer.as_ptr(), old(this.pointer).as_ptr())))]
     pub unsafe fn assume_init(this: Self) -> LeakBox<'ctx, T> {
         LeakBox {
             pointer: this.pointer.cast(),
diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 2ee0210..c268b6c 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -266,6 +266,7 @@ impl MemBump {
 
     /// Returns a layout for a MemBump where the length of the data field is `size`.
     /// This relies on the two functions defined above.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| contracts::whole_layout(size, r.as_ref().ok())))]
     pub(crate) fn layout_from_size(size: usize) -> Result<Layout, LayoutError> {
         let data_tail = Self::data_layout(size)?;
         let (layout, _) = Self::header_layout().extend(data_tail)?;
@@ -483,6 +484,9 @@ impl MemBump {
     /// `Bump` allocator as well.
     ///
     /// FIXME(breaking): align with sync `Bump::get` (probably rename get to bump_box).
+    #[cfg_attr(verif_contracts, kani::requires(self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Ok(b) => old(self.state()).occupied(self.state(), Layout::new::<T>(), contracts::address_of(&**b)), Err(Failure::Exhausted) => old(self.state()).exhausted(self.state(), Layout::new::<T>(), old(self.state()).used), Err(_) => false }))]
     pub fn bump_box<'bump, T: 'bump>(
         &'bump self,
     ) -> Result<LeakBox<'bump, MaybeUninit<T>>, Failure> {
@@ -503,6 +507,9 @@ impl MemBump {
     /// use a properly sized buffer instead and implement an iterative solution. (Left as an
     /// exercise to the reader, or see the examples for `without-alloc` where we use such a dynamic
     /// allocation with an inline vector as our stack).
+    #[cfg_attr(verif_contracts, kani::requires(self.state().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.index.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Ok(b) => b.len() == n && old(self.state()).occupied(self.state(), Layout::array::<T>(n).unwrap(), contracts::address_of(&**b)), Err(Failure::Exhausted) => Layout::array::<T>(n).map_or(self.state() == old(self.state()), |l| old(self.state()).exhausted(self.state(), l, old(self.state()).used)), Err(_) => false }))]
     pub fn bump_array<'bump, T: 'bump>(
         &'bump self,
         n: usize,
diff --git a/static-alloc/src/unsync/bump/contracts.rs b/static-alloc/src/unsync/bump/contracts.rs
index 81d2854..ffe3cb3 100644
--- a/static-alloc/src/unsync/bump/contracts.rs
+++ b/static-alloc/src/unsync/bump/contracts.rs
@@ -9,6 +9,22 @@ impl MemBump {
     }
 }
 
+/// The address of what is borrowed.
+pub fn address_of<V: ?Sized>(val: &V) -> usize {
+    val as *const V as *const u8 as usize
+}
+
+/// Contract of the layout of an allocator, for its memory of this size.
+pub fn whole_layout(size: usize, result: Option<&Layout>) -> bool {
+    let header = Layout::new::<usize>();
+    let padded = size.checked_add(2 * header.size() - 1).map(|bytes| bytes & !(header.size() - 1));
+    match (result, padded) {
+        (Some(layout), Some(bytes)) => layout.size() == bytes && layout.align() == header.align(),
+        (Some(_), None) => false,
+        (None, bytes) => bytes.map_or(true, |bytes| bytes > isize::MAX as usize - (header.align() - 1)),
+    }
+}
+
 /// Functions that are not public, to be called by the harnesses of their contracts.
 pub mod private {
     use super::*;
@@ -19,6 +35,17 @@ pub mod private {
         kani::assume(b.state().valid());
     }
 
+    /// Put a shared allocator into any of its states.
+    pub fn any_used(b: &MemBump) {
+        b.index.set(kani::any());
+        kani::assume(b.state().valid());
+    }
+
+    /// `MemBump::layout_from_size`.
+    pub fn layout_from_size(size: usize) -> Result<Layout, LayoutError> {
+        MemBump::layout_from_size(size)
+    }
+
     /// `MemBump::bump`.
     pub fn bump(b: &MemBump, expect: usize, new: usize) -> Result<(), usize> {
         b.bump(expect, new)
diff --git a/static-alloc/src/unsync/chain.rs b/static-alloc/src/unsync/chain.rs
index ec9c2a0..4f1fc07 100644
--- a/static-alloc/src/unsync/chain.rs
+++ b/static-alloc/src/unsync/chain.rs
@@ -16,6 +16,36 @@ use crate::bump::Failure;
 use crate::unsync::bump::MemBump;
 use crate::leaked::LeakBox;
 
+/// Specifications of chains, only compiled for the verifier (`--cfg verif_contracts`).
+#[cfg(verif_contracts)]
+pub mod contracts {
+    use super::*;
+
+    /// The number of bytes of a link with memory of the size, if it has a layout.
+    pub fn linked(size: usize) -> Option<usize> {
+        let word = core::mem::size_of::<usize>();
+        let bytes = size.checked_add(core::mem::size_of::<LinkPtr>() + 2 * word - 1)? & !(word - 1);
+        if bytes <= isize::MAX as usize - (word - 1) { Some(bytes) } else { None }
+    }
+
+    /// A chain, not by its constructor.
+    pub fn create(size: usize) -> Chain {
+        Chain { root: Cell::new(Link::alloc(size).ok()) }
+    }
+
+    /// `Link::layout_from_size`.
+    pub fn layout_from_size(size: usize) -> Result<Layout, LayoutErr> {
+        Link::layout_from_size(size)
+    }
+
+    /// Put the first memory of the chain into any state.
+    pub fn any_state(chain: &Chain) {
+        if let Some(link) = chain.root() {
+            crate::unsync::contracts::private::any_used(&link.bump);
+        }
+    }
+}
+
 /// An error representing an error while construction
 /// a [`Chain`].
 #[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
@@ -54,6 +84,7 @@ pub struct Chain {
 impl Chain {
     /// Creates a new `Chain` that has a capacity of `size`
     /// bytes.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Ok(chain) => chain.capacity() == size && chain.remaining_capacity() == size && contracts::linked(size).is_some(), Err(e) => contracts::linked(size).map_or(e.allocation_size() == size, |bytes| e.allocation_size() == bytes) }))]
     pub fn new(size: usize) -> Result<Self, TryNewError> {
         let link = Link::alloc(size).map_err(|e| TryNewError { inner: e })?;
         Ok(Chain {
@@ -92,6 +123,7 @@ impl Chain {
     /// Returns the capacity of this `Chain`.
     /// This is how many *bytes* in total can
     /// be allocated within this `Chain`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.root().map_or(0, |link| link.bump.state().capacity)))]
     pub fn capacity(&self) -> usize {
         match self.root() {
             None => 0,
@@ -102,6 +134,8 @@ impl Chain {
     /// Returns the remaining capacity of this `Chain`.
     /// This is how many more *bytes* can be allocated
     /// within this `Chain`.
+    #[cfg_attr(verif_contracts, kani::requires(self.root().map_or(true, |link| link.bump.state().valid())))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.root().map_or(0, |link| link.bump.state().capacity - link.bump.state().used)))]
     pub fn remaining_capacity(&self) -> usize {
         match self.root() {
             None => 0,
@@ -154,6 +188,7 @@ impl Link {
         &self.bump
     }
 
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Ok(layout) => Some(layout.size()) == contracts::linked(size) && layout.align() == core::mem::align_of::<usize>(), Err(_) => contracts::linked(size).is_none() }))]
     pub(crate) fn layout_from_size(size: usize) -> Result<Layout, LayoutErr> {
         Layout::new::<Cell<LinkPtr>>()
             .extend(MemBump::layout_from_size(size)?)
diff --git a/static-alloc/src/unsync/mod.rs b/static-alloc/src/unsync/mod.rs
index cda0669..f0b0f03 100644
--- a/static-alloc/src/unsync/mod.rs
+++ b/static-alloc/src/unsync/mod.rs
@@ -7,3 +7,5 @@ pub use bump::{Bump, FromMemError, MemBump};
 pub use chain::{Chain};
 #[cfg(verif_contracts)]
 pub use bump::contracts;
+#[cfg(all(verif_contracts, feature = "alloc", feature = "nightly_chain"))]
+pub use chain::contracts as chain_contracts;
diff --git a/without-alloc/src/boxed.rs b/without-alloc/src/boxed.rs
index 73207fc..ed034aa 100644
--- a/without-alloc/src/boxed.rs
+++ b/without-alloc/src/boxed.rs
@@ -97,6 +97,9 @@ unsafe impl<'a, T, U: ?Sized> CoerciblePtr<U> for Box<'a, T> {
 
 impl<'a, T> Box<'a, T> {
     /// Place `val` into a provided allocation.
+    #[cfg_attr(verif_contracts, kani::requires(into.spanned().valid() && into.spanned().place(core::alloc::Layout::new::<T>()) == Some(0)))]
+    #[cfg_attr(verif_contracts, kani::modifies((into.as_ptr())))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.inner.spanned() == old(into.spanned())))]
     pub fn new(val: T, mut into: Uninit<'a, T>) -> Self {
         into.borrow_mut().init(val);
 
@@ -108,6 +111,7 @@ impl<'a, T> Box<'a, T> {
     /// Take out the value and return the allocation.
     ///
     /// This function is the opposite of `new`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.1.spanned() == old(b.inner.spanned())))]
     pub fn take(b: Self) -> (T, Uninit<'a, T>) {
         let val = unsafe { b.inner.read() };
         (val, Self::into_raw(b))
@@ -123,6 +127,7 @@ impl<'a, T: ?Sized> Box<'a, T> {
     /// ## Safety
     /// The pointed-to location must have already been initialized via external means. This is as
     /// unsafe as `init.as_mut()`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.inner.spanned() == old(init.spanned())))]
     pub unsafe fn from_raw(init: Uninit<'a, T>) -> Self {
         Box {
             inner: init,
@@ -133,6 +138,7 @@ impl<'a, T: ?Sized> Box<'a, T> {
     ///
     /// The value stays initialized but that information is no longer statically available. If you
     /// simply want to avoid the `Drop` call, consider `ManuallyDrop` instead.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == old(b.inner.spanned())))]
     pub fn into_raw(b: Self) -> Uninit<'a, T> {
         let ptr = b.inner.as_non_null();
         let len = b.inner.size();
diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 372c973..5461465 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -208,6 +208,7 @@ impl<T> FixedVec<'_, T> {
     }
 
     /// Returns the number of elements in the vector.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.filled().length))]
     pub fn len(&self) -> usize {
         self.length
     }
@@ -217,16 +218,22 @@ impl<T> FixedVec<'_, T> {
     /// ## Safety
     /// * `new_len` must be smaller or equal `self.capacity()`
     /// * The caller must ensure that all newly referenced elements are properly initialized.
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid() && new_len <= self.capacity()))]
+    #[cfg_attr(verif_contracts, kani::modifies(&self.length))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.filled() == old(self.filled()).of_length(new_len)))]
     pub unsafe fn set_len(&mut self, new_len: usize) {
         self.length = new_len;
     }
 
     /// Returns the number of elements the vector can hold.
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.filled().capacity))]
     pub fn capacity(&self) -> usize {
         self.uninit.capacity()
     }
 
     /// Returns `true` if the vector contains no elements.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == (self.filled().length == 0)))]
     pub fn is_empty(&self) -> bool {
         self.length == 0
     }
@@ -250,6 +257,10 @@ impl<T> FixedVec<'_, T> {
     /// assert_eq!(vec.push(2), Err(2));
     ///
     /// ```
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(&self.length))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.spare()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Ok(()) => self.filled() == old(self.filled()).of_length(old(self.length).wrapping_add(1)) && self.filled().valid(), Err(_) => self.filled() == old(self.filled()) && self.filled().length == self.filled().capacity }))]
     pub fn push(&mut self, val: T) -> Result<(), T> {
         if self.length == usize::max_value() {
             return Err(val);
@@ -267,6 +278,9 @@ impl<T> FixedVec<'_, T> {
     }
 
     /// Removes the last element from a vector and returns it, or `None` if it is empty.
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(&self.length))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| match r { Some(_) => self.filled() == old(self.filled()).of_length(old(self.length).wrapping_sub(1)) && self.filled().valid(), None => self.filled() == old(self.filled()) && self.filled().length == 0 }))]
     pub fn pop(&mut self) -> Option<T> {
         if self.length == 0 {
             return None;
@@ -317,6 +331,9 @@ impl<T> FixedVec<'_, T> {
     /// assert_eq!(vec.capacity(), 8);
     /// ```
     #[must_use = "Elements in the split tail will be dropped. Prefer `truncate(at)` or `drain(at..)` if there is no other use."]
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid() && at <= self.capacity()))]
+    #[cfg_attr(verif_contracts, kani::modifies(&self.length))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.filled() == old(self.filled()).behind::<T>(at)))]
     pub fn split_borrowed(&mut self, at: usize) -> FixedVec<'_, T> {
         assert!(at <= self.capacity(), "`at` out of bounds");
         let new_uninit = self.uninit.borrow_mut().split_at(at).unwrap();
@@ -334,6 +351,9 @@ impl<T> FixedVec<'_, T> {
     ///
     /// ## Panics
     /// This method panics if `at > self.capacity()`.
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid() && at <= self.capacity()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| self.filled() == old(self.filled()).before::<T>(at) && r.filled() == old(self.filled()).behind::<T>(at)))]
     pub fn split_and_shrink_to(&mut self, at: usize) -> Self {
         assert!(at <= self.capacity(), "`at` out of bounds");
         // `self.length` is always smaller than `split_at`.
@@ -448,6 +468,8 @@ impl<'a, T> FixedVec<'a, T> {
     /// Create a `FixedVec` in a pre-allocated region.
     ///
     /// The capacity will be that of the underlying allocation.
+    #[cfg_attr(verif_contracts, kani::requires(uninit.borrow().valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.filled().length == 0 && r.filled().memory == old(uninit.spanned()) && r.filled().valid()))]
     pub fn new(uninit: Uninit<'a, [T]>) -> Self {
         FixedVec {
             uninit,
@@ -465,6 +487,8 @@ impl<'a, T> FixedVec<'a, T> {
     /// undesirable.
     ///
     /// [`Uninit::cast_slice`]: ../uninit/struct.Uninit.html#method.cast_slice
+    #[cfg_attr(verif_contracts, kani::requires(generic.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.filled().valid() && r.filled().length == 0 && r.filled().made_of(old(generic.spanned()), core::alloc::Layout::new::<[T; 0]>())))]
     pub fn from_unaligned<U: ?Sized>(generic: Uninit<'a, U>) -> Self {
         let mut uninit = generic.as_memory();
         let slice = uninit.split_slice().unwrap_or_else(Uninit::empty);
@@ -474,6 +498,9 @@ impl<'a, T> FixedVec<'a, T> {
     /// Return trailing bytes that can not be used by the `FixedVec`.
     ///
     /// This operation is idempotent.
+    #[cfg_attr(verif_contracts, kani::requires(self.filled().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| self.filled() == old(self.filled()).shrunk::<T>() && r.spanned() == old(self.filled()).behind::<T>(old(self.filled()).capacity).memory))]
     pub fn shrink_to_fit(&mut self) -> Uninit<'a, ()> {
         self.uninit.shrink_to_fit()
     }
diff --git a/without-alloc/src/fixed_vec/contracts.rs b/without-alloc/src/fixed_vec/contracts.rs
index 6143cee..fee7430 100644
--- a/without-alloc/src/fixed_vec/contracts.rs
+++ b/without-alloc/src/fixed_vec/contracts.rs
@@ -1,4 +1,7 @@
-//! Ghost state for the invariants of loops, only compiled for the verifier (`--cfg verif_contracts`).
+//! Specifications of vectors, and ghost state for the invariants of loops, only compiled for the verifier (`--cfg verif_contracts`).
+use super::*;
+use crate::uninit::contracts::Extent;
+use core::alloc::Layout;
 
 /// The index of the one element that is watched, an arbitrary one.
 pub static mut WATCHED: usize = usize::MAX;
@@ -9,3 +12,79 @@ pub static mut DROPS: usize = 0;
 pub fn dropped(from: usize, to: usize) -> bool {
     unsafe { DROPS == (from <= WATCHED && WATCHED < to) as usize }
 }
+
+/// What a vector is made of.
+#[derive(Clone, Copy, PartialEq)]
+pub struct Filled {
+    /// The memory of its elements.
+    pub memory: Extent,
+    /// The number of elements that fit.
+    pub capacity: usize,
+    /// The number of elements.
+    pub length: usize,
+    /// The invariant of the memory.
+    pub slice: bool,
+}
+
+impl Filled {
+    /// The invariant of all vectors.
+    pub fn valid(self) -> bool {
+        self.slice && self.length <= self.capacity
+    }
+
+    /// Only the length is another.
+    pub fn of_length(self, length: usize) -> Self {
+        Filled { length, ..self }
+    }
+
+    /// The elements, and places for them, before the index.
+    pub fn before<T>(self, at: usize) -> Self {
+        let len = at.wrapping_mul(core::mem::size_of::<T>());
+        let capacity = len.checked_div(core::mem::size_of::<T>()).unwrap_or(usize::MAX);
+        Filled { memory: Extent { len, ..self.memory }, capacity, length: self.length.min(at), ..self }
+    }
+
+    /// The elements, and places for them, from the index on.
+    pub fn behind<T>(self, at: usize) -> Self {
+        let from = at.wrapping_mul(core::mem::size_of::<T>());
+        let len = self.memory.len.wrapping_sub(from);
+        let memory = Extent { start: self.memory.start.wrapping_add(from), len };
+        let capacity = len.checked_div(core::mem::size_of::<T>()).unwrap_or(usize::MAX);
+        Filled { memory, capacity, length: self.length.saturating_sub(at), ..self }
+    }
+
+    /// Without the memory in which no element fits.
+    pub fn shrunk<T>(self) -> Self {
+        self.before::<T>(self.capacity)
+    }
+
+    /// Contract of finding the places for elements within the memory.
+    pub fn made_of(self, memory: Extent, layout: Layout) -> bool {
+        match memory.place(layout) {
+            Some(at) => self.memory == Extent { start: memory.start + at, len: memory.len - at },
+            None => self.memory.len == 0,
+        }
+    }
+}
+
+impl<T> FixedVec<'_, T> {
+    /// What it is made of.
+    pub fn filled(&self) -> Filled {
+        let view = self.uninit.borrow();
+        let capacity = view.spanned().len.checked_div(core::mem::size_of::<T>()).unwrap_or(usize::MAX);
+        Filled { memory: view.spanned(), capacity, length: self.length, slice: view.valid_slice() }
+    }
+
+    /// The place for the next element, if there is one.
+    pub fn spare(&self) -> *mut [core::mem::MaybeUninit<T>] {
+        let room = (self.length < self.filled().capacity) as usize;
+        ptr::slice_from_raw_parts_mut((self.uninit.as_begin_ptr() as *mut core::mem::MaybeUninit<T>).wrapping_add(self.length), room)
+    }
+}
+
+/// A vector with any number of elements, as if they were there.
+pub fn any_filled<T>(uninit: Uninit<'_, [T]>) -> FixedVec<'_, T> {
+    let vec = FixedVec { uninit, length: kani::any() };
+    kani::assume(vec.filled().valid());
+    vec
+}
diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index 5edee23..aaefb9e 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -9,6 +9,11 @@ use core::cell::Cell;
 
 use crate::uninit::{Uninit, UninitView};
 
+#[cfg(verif_contracts)]
+pub mod contracts;
+#[cfg(verif_contracts)]
+use contracts::Counts;
+
 /// A single-threaded reference-counting pointer. 'Rc' stands for 'Reference Counted'.
 ///
 /// The inherent methods are all associated functions. This means you can not call them
@@ -98,6 +103,9 @@ impl<'a, T> Rc<'a, T> {
     ///
     /// [`Rc::layout`]: #method.layout
     /// [`Bump::rc`]: ../slab/struct.Bump.html#method.rc
+    #[cfg_attr(verif_contracts, kani::requires(memory.spanned().valid() && memory.fits(Self::layout())))]
+    #[cfg_attr(verif_contracts, kani::modifies((memory.as_ptr() as *mut RcBox<T>)))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.counts() == Counts { memory: old(memory.spanned()), strong: 1, weak: 1 }))]
     pub fn new(val: T, memory: Uninit<'a, ()>) -> Self {
         assert!(memory.fits(Self::layout()), "Provided memory must fit the inner layout");
         let mut memory = memory.cast::<RcBox<T>>().unwrap();
@@ -153,6 +161,8 @@ impl<'a, T> Rc<'a, T> {
     /// let raw = Rc::into_raw(foo).ok().unwrap();
     /// // No panic. Value has not been dropped.
     /// ```
+    #[cfg_attr(verif_contracts, kani::requires(rc.counts().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(rc.counts()).taken(contracts::raw_outcome(r))))]
     pub fn into_raw(rc: Self) -> Result<Uninit<'a, T>, Self> {
         if !Rc::is_unique(&rc) {
             // Note: implicitely decrements `strong`
@@ -175,6 +185,9 @@ impl<'a, T> Rc<'a, T> {
     /// choice for potentially recovering it. Returning the memory directly is not possible since
     /// other `Weak<T>` instances may still point to it. If you are not interested in the memory
     /// you can simply drop the `Weak`.
+    #[cfg_attr(verif_contracts, kani::requires(rc.counts().owned()))]
+    #[cfg_attr(verif_contracts, kani::modifies(rc.inner().strong.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(rc.counts()).unwrapped(contracts::unwrap_outcome(r))))]
     pub fn try_unwrap(rc: Self) -> Result<(T, Weak<'a, T>), Self> {
         if Rc::strong_count(&rc) != 1 {
             return Err(rc);
@@ -210,6 +223,9 @@ impl<'a, T> Rc<'a, T> {
     ///
     /// assert_eq!(weak.weak_count(), 1);
     /// ```
+    #[cfg_attr(verif_contracts, kani::requires(rc.counts().owned() && rc.counts().weak < usize::MAX))]
+    #[cfg_attr(verif_contracts, kani::modifies(rc.inner().weak.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| rc.counts() == old(rc.counts()).weaks(1) && r.counts() == rc.counts()))]
     pub fn downgrade(rc: &Self) -> Weak<'a, T> {
         rc.inc_weak();
         Weak { inner: rc.inner }
@@ -248,11 +264,13 @@ impl<T> Rc<'_, T> {
     /// Gets the number of weak pointers to the value.
     ///
     /// Note that all `Rc` to the same value count as one weak pointer in total.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == rc.counts().weak))]
     pub fn weak_count(rc: &Self) -> usize {
         rc.inner().weak.get()
     }
 
     /// Gets the number of strong pointers to the value.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == rc.counts().strong))]
     pub fn strong_count(rc: &Self) -> usize {
         rc.inner().strong.get()
     }
@@ -261,6 +279,8 @@ impl<T> Rc<'_, T> {
     ///
     /// This method will only succeed if there are no other pointers to the same value, neither
     /// strong ones nor weak ones.
+    #[cfg_attr(verif_contracts, kani::requires(rc.counts().owned()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.is_some() == old(rc.counts()).sole()))]
     pub fn get_mut(rc: &mut Self) -> Option<&mut T> {
         if rc.is_unique() {
             Some(unsafe { &mut *rc.as_mut_ptr() })
@@ -293,6 +313,7 @@ impl<T> Rc<'_, T> {
     /// assert!( Rc::ptr_eq(&foo, &foo2));
     /// assert!(!Rc::ptr_eq(&foo, &not_foo));
     /// ```
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == (this.counts().memory.start == other.counts().memory.start)))]
     pub fn ptr_eq(this: &Self, other: &Self) -> bool {
         this.inner.as_ptr() == other.inner.as_ptr()
     }
@@ -307,6 +328,7 @@ impl<T> Rc<'_, T> {
         }
     }
 
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.counts().sole()))]
     fn is_unique(&self) -> bool {
         Rc::strong_count(self) == 1 && Rc::weak_count(self) == 1
     }
@@ -326,21 +348,33 @@ impl<T> Rc<'_, T> {
         self.inner.as_ptr() as *const T
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().strong < usize::MAX))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.inner().strong.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.counts() == old(self.counts()).strongs(1)))]
     fn inc_strong(&self) {
         let val = Self::strong_count(self) + 1;
         self.inner().strong.set(val);
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().strong > 0))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.inner().strong.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.counts() == old(self.counts()).strongs(-1)))]
     fn dec_strong(&self) {
         let val = Self::strong_count(self) - 1;
         self.inner().strong.set(val);
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().weak < usize::MAX))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.inner().weak.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.counts() == old(self.counts()).weaks(1)))]
     fn inc_weak(&self) {
         let val = Self::weak_count(self) + 1;
         self.inner().weak.set(val);
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().weak > 0))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.inner().weak.as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.counts() == old(self.counts()).weaks(-1)))]
     fn dec_weak(&self) {
         let val = Self::weak_count(self) - 1;
         self.inner().weak.set(val);
@@ -368,6 +402,9 @@ impl<'a, T> Weak<'a, T> {
     /// // This is the only one pointing at the allocation.
     /// let memory = weak.try_unwrap().ok().unwrap();
     /// ```
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().valid()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.weak().as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.counts()).reclaimed(contracts::reclaim_outcome(r))))]
     pub fn try_unwrap(self) -> Result<Uninit<'a, ()>, Self> {
         if !self.is_unique_to_rc_memory() {
             return Err(self);
@@ -405,6 +442,9 @@ impl<'a, T> Weak<'a, T> {
     /// // No more strong pointers left.
     /// assert!(weak.upgrade().is_none());
     /// ```
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().valid() && self.counts().strong < usize::MAX))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.strong().as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.counts()).upgraded(self.counts(), r.as_ref().map(|rc| rc.counts()))))]
     pub fn upgrade(&self) -> Option<Rc<'a, T>> {
         if self.strong_count() == 0 {
             None
@@ -434,6 +474,7 @@ impl<T> Weak<'_, T> {
     /// // We just destroyed the only one.
     /// assert_eq!(Weak::strong_count(&weak), 0);
     /// ```
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.counts().strong))]
     pub fn strong_count(&self) -> usize {
         self.strong().get()
     }
@@ -455,10 +496,12 @@ impl<T> Weak<'_, T> {
     /// // This is the only one pointing at the allocation.
     /// assert_eq!(Weak::weak_count(&weak), 1);
     /// ```
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.counts().weak))]
     pub fn weak_count(&self) -> usize {
         self.weak().get()
     }
 
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == (self.counts().strong == 0 && self.counts().weak == 1)))]
     fn is_unique_to_rc_memory(&self) -> bool {
         self.strong_count() == 0 && self.weak_count() == 1
     }
@@ -477,11 +520,17 @@ impl<T> Weak<'_, T> {
         unsafe { &(*self.inner.as_ptr()).strong }
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().weak < usize::MAX))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.weak().as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.counts() == old(self.counts()).weaks(1)))]
     fn inc_weak(&self) {
         let val = Weak::weak_count(self);
         self.weak().set(val + 1);
     }
 
+    #[cfg_attr(verif_contracts, kani::requires(self.counts().weak > 0))]
+    #[cfg_attr(verif_contracts, kani::modifies(self.weak().as_ptr()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.counts() == old(self.counts()).weaks(-1)))]
     fn dec_weak(&self) {
         let val = Weak::weak_count(self);
         self.weak().set(val - 1);
diff --git a/without-alloc/src/rc/contracts.rs b/without-alloc/src/rc/contracts.rs
new file mode 100644
index 0000000..33fdf1e
--- /dev/null
+++ b/without-alloc/src/rc/contracts.rs
@@ -0,0 +1,187 @@
+//! Specifications of the counters, only compiled for the verifier (`--cfg verif_contracts`).
+use super::*;
+use crate::uninit::contracts::Extent;
+
+/// Which memory is owned, and by how many.
+#[derive(Clone, Copy, PartialEq)]
+pub struct Counts {
+    /// The memory that is counted.
+    pub memory: Extent,
+    /// The number of owners of the value.
+    pub strong: usize,
+    /// The number of owners of the memory; those of the value count as one together.
+    pub weak: usize,
+}
+
+impl Counts {
+    /// The invariant seen by any owner.
+    pub fn valid(self) -> bool {
+        self.memory.valid() && self.weak > 0
+    }
+
+    /// The invariant seen by any owner of the value.
+    pub fn owned(self) -> bool {
+        self.valid() && self.strong > 0
+    }
+
+    /// There is no other owner.
+    pub fn sole(self) -> bool {
+        self.strong == 1 && self.weak == 1
+    }
+
+    /// With more, or less, owners of the value.
+    pub fn strongs(self, by: isize) -> Self {
+        Counts { strong: self.strong.wrapping_add(by as usize), ..self }
+    }
+
+    /// With more, or less, owners of the memory.
+    pub fn weaks(self, by: isize) -> Self {
+        Counts { weak: self.weak.wrapping_add(by as usize), ..self }
+    }
+
+    /// What remains without one of the owners of the value.
+    pub fn without(self) -> Self {
+        if self.strong == 1 {
+            self.strongs(-1).weaks(-1)
+        } else {
+            self.strongs(-1)
+        }
+    }
+
+    /// Contract of taking the value together with its memory.
+    pub fn taken(self, result: Result<Extent, Counts>) -> bool {
+        match result {
+            Ok(memory) => self.sole() && memory == self.memory,
+            Err(now) => !self.sole() && now == self,
+        }
+    }
+
+    /// Contract of taking only the value.
+    pub fn unwrapped(self, result: Result<Counts, Counts>) -> bool {
+        match result {
+            Ok(now) => self.strong == 1 && now == self.strongs(-1),
+            Err(now) => self.strong != 1 && now == self,
+        }
+    }
+
+    /// Contract of taking the memory once the value is gone.
+    pub fn reclaimed(self, result: Result<Extent, Counts>) -> bool {
+        let last = self.strong == 0 && self.weak == 1;
+        match result {
+            Ok(memory) => last && memory == self.memory,
+            Err(now) => !last && now == self,
+        }
+    }
+
+    /// Contract of becoming an owner of the value.
+    pub fn upgraded(self, now: Counts, result: Option<Counts>) -> bool {
+        match result {
+            Some(rc) => self.strong > 0 && now == self.strongs(1) && rc == now,
+            None => self.strong == 0 && now == self,
+        }
+    }
+}
+
+impl<T> Rc<'_, T> {
+    /// The counters.
+    pub fn counts(&self) -> Counts {
+        let it = unsafe { &*self.inner.as_ptr() };
+        Counts { memory: self.inner.spanned(), strong: it.strong.get(), weak: it.weak.get() }
+    }
+}
+
+impl<T> Weak<'_, T> {
+    /// The counters.
+    pub fn counts(&self) -> Counts {
+        let it = unsafe { &*self.inner.as_ptr() };
+        Counts { memory: self.inner.spanned(), strong: it.strong.get(), weak: it.weak.get() }
+    }
+}
+
+/// The owner of each outcome.
+pub fn raw_outcome<T>(result: &Result<Uninit<'_, T>, Rc<'_, T>>) -> Result<Extent, Counts> {
+    match result {
+        Ok(memory) => Ok(memory.spanned()),
+        Err(rc) => Err(rc.counts()),
+    }
+}
+
+/// The owner of each outcome.
+pub fn unwrap_outcome<'a, T>(result: &Result<(T, Weak<'a, T>), Rc<'a, T>>) -> Result<Counts, Counts> {
+    match result {
+        Ok((_, weak)) => Ok(weak.counts()),
+        Err(rc) => Err(rc.counts()),
+    }
+}
+
+/// The owner of each outcome.
+pub fn reclaim_outcome<T>(result: &Result<Uninit<'_, ()>, Weak<'_, T>>) -> Result<Extent, Counts> {
+    match result {
+        Ok(memory) => Ok(memory.spanned()),
+        Err(weak) => Err(weak.counts()),
+    }
+}
+
+/// Functions that are not public, to be called by the harnesses of their contracts.
+pub mod private {
+    use super::*;
+
+    /// An owner that sees any valid counters.
+    pub fn any_state<T>(rc: &Rc<'_, T>) {
+        rc.inner().strong.set(kani::any());
+        rc.inner().weak.set(kani::any());
+        kani::assume(rc.counts().valid());
+    }
+
+    /// A weak owner instead.
+    pub fn weak<'a, T>(rc: Rc<'a, T>) -> Weak<'a, T> {
+        let weak = Weak { inner: rc.inner };
+        mem::forget(rc);
+        weak
+    }
+
+    /// A look at the counters, which is not counted.
+    pub fn alias<'a, T>(rc: &Rc<'a, T>) -> Weak<'a, T> {
+        Weak { inner: rc.inner }
+    }
+
+    /// `Rc::is_unique`.
+    pub fn is_unique<T>(rc: &Rc<'_, T>) -> bool {
+        rc.is_unique()
+    }
+
+    /// `Rc::inc_strong`.
+    pub fn inc_strong<T>(rc: &Rc<'_, T>) {
+        rc.inc_strong()
+    }
+
+    /// `Rc::dec_strong`.
+    pub fn dec_strong<T>(rc: &Rc<'_, T>) {
+        rc.dec_strong()
+    }
+
+    /// `Rc::inc_weak`.
+    pub fn inc_weak<T>(rc: &Rc<'_, T>) {
+        rc.inc_weak()
+    }
+
+    /// `Rc::dec_weak`.
+    pub fn dec_weak<T>(rc: &Rc<'_, T>) {
+        rc.dec_weak()
+    }
+
+    /// `Weak::inc_weak`.
+    pub fn weak_inc_weak<T>(weak: &Weak<'_, T>) {
+        weak.inc_weak()
+    }
+
+    /// `Weak::dec_weak`.
+    pub fn weak_dec_weak<T>(weak: &Weak<'_, T>) {
+        weak.dec_weak()
+    }
+
+    /// `Weak::is_unique_to_rc_memory`.
+    pub fn is_unique_to_rc_memory<T>(weak: &Weak<'_, T>) -> bool {
+        weak.is_unique_to_rc_memory()
+    }
+}
diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index e6594d2..4329caa 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -27,6 +27,8 @@ use unsize::CoerciblePtr;
 
 #[cfg(verif_contracts)]
 pub mod contracts;
+#[cfg(verif_contracts)]
+use contracts::Extent;
 
 /// Points to an uninitialized place but would otherwise be a valid reference.
 ///
@@ -133,6 +135,7 @@ impl Uninit<'_, ()> {
     /// UB is `core::mem::MaybeUninit`.
     ///
     /// When in doubt, refactor code such that utilization of `from_maybe_uninit` is possible.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == Extent { start: ptr.as_ptr() as usize, len }))]
     pub unsafe fn from_memory(ptr: ptr::NonNull<u8>, len: usize) -> Self {
         Uninit::from_presumed_mutable_view(UninitView {
             ptr: ptr.cast(),
@@ -202,6 +205,8 @@ impl<T> Uninit<'_, T> {
     ///
     /// # Panics
     /// This method panics when the type parameter is not a zero sized type.
+    #[cfg_attr(verif_contracts, kani::requires(mem::size_of::<T>() == 0))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned().len == 0 && r.spanned().place(Layout::new::<T>()) == Some(0)))]
     pub fn invent_for_zst() -> Self {
         // SAFETY: zst is always unaliased.
         unsafe { Uninit::from_view(UninitView::invent_for_zst()) }
@@ -218,6 +223,7 @@ impl<'a, T> Uninit<'a, T> {
     }
 
     /// Create an initializable pointer to the inner bytes of a `MaybeUninit`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == contracts::extent_of(old(&raw const *mem))))]
     pub fn from_maybe_uninit(mem: &'a mut mem::MaybeUninit<T>) -> Self {
         let ptr = ptr::NonNull::new(mem.as_mut_ptr()).unwrap();
         let raw = unsafe {
@@ -273,6 +279,9 @@ impl<'a, T> Uninit<'a, T> {
     /// Split off the tail that is not required for holding an instance of `T`.
     ///
     /// This operation is idempotent.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid() && self.spanned().len >= mem::size_of::<T>()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).divided(mem::size_of::<T>(), self.spanned(), r.spanned())))]
     pub fn split_to_fit(&mut self) -> Uninit<'a, ()> {
         self.split_at_byte(mem::size_of::<T>()).unwrap()
     }
@@ -382,6 +391,7 @@ impl<'a, T> Uninit<'a, T> {
 
 impl<'a, T> Uninit<'a, [T]> {
     /// Creates a pointer to an empty slice.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned().len == 0 && r.spanned().place(Layout::new::<[T; 0]>()) == Some(0)))]
     pub fn empty() -> Self {
         Uninit::from_presumed_mutable_view(UninitView {
             ptr: {
@@ -396,6 +406,7 @@ impl<'a, T> Uninit<'a, [T]> {
     }
 
     /// Create an initializable pointer to the inner bytes of a `MaybeUninit`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == contracts::extent_of(old(&raw const *mem)) && r.view.valid_slice()))]
     pub fn from_maybe_uninit_slice(mem: &'a mut [mem::MaybeUninit<T>]) -> Self {
         let size = mem::size_of_val(mem);
         let ptr = ptr::NonNull::from(mem);
@@ -416,6 +427,8 @@ impl<'a, T> Uninit<'a, [T]> {
     }
 
     /// Calculate the theoretical capacity of a slice in the pointed-to allocation.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.spanned().elements(mem::size_of::<T>())))]
     pub fn capacity(&self) -> usize {
         self.view.capacity()
     }
@@ -438,6 +451,9 @@ impl<'a, T> Uninit<'a, [T]> {
     /// reused arbitrarily.
     ///
     /// This operation is idempotent.
+    #[cfg_attr(verif_contracts, kani::requires(self.view.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).divided(old(self.spanned()).elements(mem::size_of::<T>()).wrapping_mul(mem::size_of::<T>()), self.spanned(), r.spanned())))]
     pub fn shrink_to_fit(&mut self) -> Uninit<'a, ()> {
         Uninit::decast(self.split_at(self.capacity()).unwrap())
     }
@@ -445,6 +461,10 @@ impl<'a, T> Uninit<'a, [T]> {
     /// Split the first element from the slice.
     ///
     /// This is the pointer equivalent of `slice::split_first`.
+    #[cfg_attr(verif_contracts, kani::requires(self.view.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_first(mem::size_of::<T>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.view.valid_slice()))]
     pub fn split_first(&mut self) -> Option<Uninit<'a, T>> {
         let mut part = self.split_at(1)?;
         // Now we are the first part, but we wanted the first to be split off.
@@ -456,6 +476,10 @@ impl<'a, T> Uninit<'a, [T]> {
     /// Split the last element from the slice.
     ///
     /// This is the pointer equivalent of `slice::split_last`.
+    #[cfg_attr(verif_contracts, kani::requires(self.view.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_last(mem::size_of::<T>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.view.valid_slice()))]
     pub fn split_last(&mut self) -> Option<Uninit<'a, T>> {
         // Explicitely wrap here: If capacity is 0 then `0 < size_of::<T> ` and the split will fail.
         let split = self.capacity().wrapping_sub(1);
@@ -515,11 +539,14 @@ impl<'a, T: ?Sized> Uninit<'a, T> {
     /// Check if the view fits some layout.
     ///
     /// The `cast` to a type of the provided layout will work without error.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == (self.spanned().place(layout) == Some(0))))]
     pub fn fits(&self, layout: Layout) -> bool {
         self.view.fits(layout)
     }
 
     /// View the same uninit as untyped memory.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == old(self.spanned())))]
     pub fn as_memory(self) -> Uninit<'a, ()> {
         Uninit::decast(self)
     }
@@ -566,6 +593,7 @@ impl UninitView<'_, ()> {
     /// UB is `core::mem::MaybeUninit`.
     ///
     /// When in doubt, refactor code such that utilization of `from_maybe_uninit` is possible.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == Extent { start: ptr.as_ptr() as usize, len }))]
     pub unsafe fn from_memory(ptr: ptr::NonNull<u8>, len: usize) -> Self {
         UninitView {
             ptr: ptr.cast(),
@@ -638,6 +666,8 @@ impl<T> UninitView<'_, T> {
     ///
     /// # Panics
     /// This method panics when the type parameter is not a zero sized type.
+    #[cfg_attr(verif_contracts, kani::requires(mem::size_of::<T>() == 0))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned().len == 0 && r.spanned().place(Layout::new::<T>()) == Some(0)))]
     pub fn invent_for_zst() -> Self {
         assert_eq!(mem::size_of::<T>(), 0, "Invented ZST uninit invoked with non-ZST");
         let dangling = ptr::NonNull::<T>::dangling();
@@ -679,6 +709,7 @@ impl<'a, T> UninitView<'a, T> {
     /// This is hardly useful on its own but since `UninitView` mirrors the traversal methods of
     /// `Uninit` it can be used to get pointers to already initialized elements in an immutable
     /// context.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == contracts::extent_of(mem)))]
     pub fn from_maybe_uninit(mem: &'a mem::MaybeUninit<T>) -> Self {
         let ptr = ptr::NonNull::new(mem.as_ptr() as *mut T).unwrap();
         let raw = unsafe {
@@ -719,6 +750,9 @@ impl<'a, T> UninitView<'a, T> {
     }
 
     /// Split off the tail that is not required for holding an instance of `T`.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid() && self.spanned().len >= mem::size_of::<T>()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).divided(mem::size_of::<T>(), self.spanned(), r.spanned())))]
     pub fn split_to_fit(&mut self) -> UninitView<'a, ()> {
         self.split_at_byte(mem::size_of::<T>()).unwrap()
     }
@@ -819,6 +853,7 @@ impl<'a, T> UninitView<'a, [T]> {
     ///
     /// Note that it will **not** be a mutable empty slice which means that it would be **UB** to
     /// use it as an `Uninit`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned().len == 0 && r.spanned().place(Layout::new::<[T; 0]>()) == Some(0)))]
     pub fn empty() -> Self {
         UninitView {
             ptr: {
@@ -833,6 +868,7 @@ impl<'a, T> UninitView<'a, [T]> {
     }
 
     /// Create an view on potentially uninitialized memory bytes of a slice of `MaybeUninit`.
+    #[cfg_attr(verif_contracts, kani::ensures(|r| r.spanned() == contracts::extent_of(mem) && r.valid_slice()))]
     pub fn from_maybe_uninit_slice(mem: &'a [mem::MaybeUninit<T>]) -> Self {
         let ptr = ptr::NonNull::from(mem);
         let raw = unsafe {
@@ -849,6 +885,8 @@ impl<'a, T> UninitView<'a, [T]> {
     }
 
     /// Calculate the theoretical capacity of a slice in the pointed-to allocation.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == self.spanned().elements(mem::size_of::<T>())))]
     pub fn capacity(&self) -> usize {
         self.size()
             .checked_div(mem::size_of::<T>())
@@ -892,11 +930,18 @@ impl<'a, T> UninitView<'a, [T]> {
     /// reused arbitrarily.
     ///
     /// This operation is idempotent.
+    #[cfg_attr(verif_contracts, kani::requires(self.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).divided(old(self.spanned()).elements(mem::size_of::<T>()).wrapping_mul(mem::size_of::<T>()), self.spanned(), r.spanned())))]
     pub fn shrink_to_fit(&mut self) -> UninitView<'a, ()> {
         UninitView::decast(self.split_at(self.capacity()).unwrap())
     }
 
     /// Split the first element from the slice.
+    #[cfg_attr(verif_contracts, kani::requires(self.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_first(mem::size_of::<T>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.valid_slice()))]
     pub fn split_first(&mut self) -> Option<UninitView<'a, T>> {
         let mut part = self.split_at(1)?;
         // Now we are the first part, but we wanted the first to be split off.
@@ -906,6 +951,10 @@ impl<'a, T> UninitView<'a, [T]> {
     }
 
     /// Split the last element from the slice.
+    #[cfg_attr(verif_contracts, kani::requires(self.valid_slice()))]
+    #[cfg_attr(verif_contracts, kani::modifies(self))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| old(self.spanned()).split_last(mem::size_of::<T>(), self.spanned(), r.as_ref().map(|p| p.spanned()))))]
+    #[cfg_attr(verif_contracts, kani::ensures(|_| self.valid_slice()))]
     pub fn split_last(&mut self) -> Option<UninitView<'a, T>> {
         // Explicitely wrap here: If capacity is 0 then `0 < size_of::<T> ` and the split will fail.
         let split = self.capacity().wrapping_sub(1);
@@ -936,6 +985,8 @@ impl<'a, T: ?Sized> UninitView<'a, T> {
     /// Check if the view fits some layout.
     ///
     /// The `cast` to a type of the provided layout will work without error.
+    #[cfg_attr(verif_contracts, kani::requires(self.spanned().valid()))]
+    #[cfg_attr(verif_contracts, kani::ensures(|r| *r == (self.spanned().place(layout) == Some(0))))]
     pub fn fits(&self, layout: Layout) -> bool {
         self.ptr.as_ptr().cast::<u8>().align_offset(layout.align()) == 0
             && layout.size() <= self.len
diff --git a/without-alloc/src/uninit/contracts.rs b/without-alloc/src/uninit/contracts.rs
index 5033a21..9108ffc 100644
--- a/without-alloc/src/uninit/contracts.rs
+++ b/without-alloc/src/uninit/contracts.rs
@@ -34,6 +34,27 @@ impl Extent {
         }
     }
 
+    /// The number of elements of the size that fit.
+    pub fn elements(self, size: usize) -> usize {
+        self.len.checked_div(size).unwrap_or(usize::MAX)
+    }
+
+    /// Contract of splitting off the first element.
+    pub fn split_first(self, size: usize, now: Extent, part: Option<Extent>) -> bool {
+        match part {
+            Some(part) => self.divided(size, part, now),
+            None => size > self.len && now == self,
+        }
+    }
+
+    /// Contract of splitting off the last element, with all behind it.
+    pub fn split_last(self, size: usize, now: Extent, part: Option<Extent>) -> bool {
+        match part {
+            Some(part) => self.divided((self.elements(size) - 1).wrapping_mul(size), now, part),
+            None => size > self.len && now == self,
+        }
+    }
+
     /// Contract of splitting at an offset, which succeeds if `possible`.
     pub fn split(self, at: usize, possible: bool, now: Extent, part: Option<Extent>) -> bool {
         match part {
@@ -81,6 +102,11 @@ impl<T: ?Sized> Uninit<'_, T> {
     }
 }
 
+/// The memory of a value.
+pub fn extent_of<T: ?Sized>(val: *const T) -> Extent {
+    Extent { start: val as *const u8 as usize, len: unsafe { mem::size_of_val(&*val) } }
+}
+
 /// The memory of each outcome.
 pub fn extents<T: ?Sized, U: ?Sized>(result: &Result<UninitView<'_, T>, UninitView<'_, U>>) -> Result<Extent, Extent> {
     match result {
@@ -112,3 +138,12 @@ impl<T> kani::Arbitrary for UninitView<'_, [T]> {
         UninitView { ptr: ptr::NonNull::new(ptr).unwrap(), len: kani::any(), lifetime: PhantomData, typed: PhantomData }
     }
 }
+
+impl<'a, T: ?Sized> kani::Arbitrary for Uninit<'a, T>
+where
+    UninitView<'a, T>: kani::Arbitrary,
+{
+    fn any() -> Self {
+        Uninit::from_presumed_mutable_view(kani::any())
+    }
+}
-- 
2.43.0


From cc86c60fdbab0bd492896b4546cb07d46a2272f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:40 +0000
Subject: [PATCH 15/15] fix: do not ask an iterator again after its end when
 extending

---
 without-alloc/src/fixed_vec.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 5461465..e84e3dd 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -759,8 +759,12 @@ impl<T> iter::Extend<T> for FixedVec<'_, T> {
     fn extend<I>(&mut self, iter: I)
         where I: IntoIterator<Item=T>,
     {
-        for _spill in self.fill(iter) {
-            panic!("FixedVec memory exhausted");
+        let tail = self.fill(iter);
+        // Otherwise the iterator has ended. It might not be fused and must not be asked again.
+        if self.len() == self.capacity() {
+            for _spill in tail {
+                panic!("FixedVec memory exhausted");
+            }
         }
     }
 }
-- 
2.43.0

