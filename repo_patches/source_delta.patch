From 97cde7a370f42161bf3e86aadd06721bf8600d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:16 +0000
Subject: [PATCH 01/19] Add instrumented concurrency primitives behind
 cfg(dumpster_verif)

The sync collector now imports its atomics and locks through a hooks module.
Normal builds re-export std and parking_lot unchanged.
With --cfg dumpster_verif, each operation first calls an installable hook.
---
 dumpster/src/hooks.rs        | 243 +++++++++++++++++++++++++++++++++++
 dumpster/src/lib.rs          |  10 ++
 dumpster/src/sync/collect.rs |  12 +-
 dumpster/src/sync/mod.rs     |   8 +-
 4 files changed, 267 insertions(+), 6 deletions(-)
 create mode 100644 dumpster/src/hooks.rs

diff --git a/dumpster/src/hooks.rs b/dumpster/src/hooks.rs
new file mode 100644
index 0000000..beb42f5
--- /dev/null
+++ b/dumpster/src/hooks.rs
@@ -0,0 +1,243 @@
+/*
+    dumpster, acycle-tracking garbage collector for Rust.    Copyright (C) 2023 Clayton Ramsey.
+
+    This Source Code Form is subject to the terms of the Mozilla Public
+    License, v. 2.0. If a copy of the MPL was not distributed with this
+    file, You can obtain one at http://mozilla.org/MPL/2.0/.
+*/
+
+//! Instrumented concurrency primitives, compiled only with `--cfg dumpster_verif`.
+//!
+//! Every operation on one of these primitives first reports itself to a hook function, which a
+//! test harness can install in order to take control of the interleaving of threads.
+//! With no hook installed, the primitives behave exactly like the ones they wrap.
+
+#![allow(missing_docs, clippy::missing_docs_in_private_items, clippy::pedantic)]
+
+use std::sync::atomic::{AtomicPtr as StdAtomicPtr, Ordering as StdOrdering};
+
+/// The kind of an instrumented operation.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Op {
+    Load,
+    Store,
+    Rmw,
+    Fence,
+    Lock,
+    /// An attempt at acquiring a lock failed, and will be repeated when the hook returns.
+    Blocked,
+}
+
+/// A hook, which is given the kind of an operation and the address it operates on.
+pub type Hook = fn(Op, *const ());
+
+static HOOK: StdAtomicPtr<()> = StdAtomicPtr::new(std::ptr::null_mut());
+
+/// Install the function which will be called prior to every instrumented operation.
+pub fn set_hook(hook: Option<Hook>) {
+    HOOK.store(
+        hook.map_or(std::ptr::null_mut(), |h| h as *mut ()),
+        StdOrdering::SeqCst,
+    );
+}
+
+#[inline]
+fn hook() -> Option<Hook> {
+    let p = HOOK.load(StdOrdering::Relaxed);
+    if p.is_null() {
+        None
+    } else {
+        Some(unsafe { std::mem::transmute::<*mut (), Hook>(p) })
+    }
+}
+
+#[inline]
+fn point<T: ?Sized>(op: Op, addr: *const T) {
+    if let Some(h) = hook() {
+        h(op, addr.cast());
+    }
+}
+
+/// Replacement for [`std::sync::atomic`].
+pub mod atomic {
+    use super::{point, Op};
+    pub use std::sync::atomic::*;
+    use std::{ops::Deref, sync::atomic as std_atomic};
+
+    pub fn fence(order: Ordering) {
+        point::<()>(Op::Fence, std::ptr::null());
+        std_atomic::fence(order);
+    }
+
+    #[repr(transparent)]
+    #[derive(Debug)]
+    pub struct AtomicPtr<T>(std_atomic::AtomicPtr<T>);
+
+    impl<T> AtomicPtr<T> {
+        pub const fn new(value: *mut T) -> Self {
+            Self(std_atomic::AtomicPtr::new(value))
+        }
+        pub fn load(&self, order: Ordering) -> *mut T {
+            point(Op::Load, self);
+            self.0.load(order)
+        }
+        pub fn store(&self, value: *mut T, order: Ordering) {
+            point(Op::Store, self);
+            self.0.store(value, order);
+        }
+        pub fn swap(&self, value: *mut T, order: Ordering) -> *mut T {
+            point(Op::Rmw, self);
+            self.0.swap(value, order)
+        }
+    }
+
+    impl<T> Deref for AtomicPtr<T> {
+        type Target = std_atomic::AtomicPtr<T>;
+        fn deref(&self) -> &Self::Target {
+            point(Op::Rmw, self);
+            &self.0
+        }
+    }
+
+    #[repr(transparent)]
+    #[derive(Debug, Default)]
+    pub struct AtomicBool(std_atomic::AtomicBool);
+
+    impl AtomicBool {
+        pub const fn new(value: bool) -> Self {
+            Self(std_atomic::AtomicBool::new(value))
+        }
+        pub fn load(&self, order: Ordering) -> bool {
+            point(Op::Load, self);
+            self.0.load(order)
+        }
+        pub fn store(&self, value: bool, order: Ordering) {
+            point(Op::Store, self);
+            self.0.store(value, order);
+        }
+    }
+
+    impl Deref for AtomicBool {
+        type Target = std_atomic::AtomicBool;
+        fn deref(&self) -> &Self::Target {
+            point(Op::Rmw, self);
+            &self.0
+        }
+    }
+
+    #[repr(transparent)]
+    #[derive(Debug, Default)]
+    pub struct AtomicUsize(std_atomic::AtomicUsize);
+
+    impl AtomicUsize {
+        pub const fn new(value: usize) -> Self {
+            Self(std_atomic::AtomicUsize::new(value))
+        }
+        pub fn load(&self, order: Ordering) -> usize {
+            point(Op::Load, self);
+            self.0.load(order)
+        }
+        pub fn store(&self, value: usize, order: Ordering) {
+            point(Op::Store, self);
+            self.0.store(value, order);
+        }
+    }
+
+    /// All operations which are not defined above are read-modify-writes.
+    impl Deref for AtomicUsize {
+        type Target = std_atomic::AtomicUsize;
+        fn deref(&self) -> &Self::Target {
+            point(Op::Rmw, self);
+            &self.0
+        }
+    }
+}
+
+/// Replacement for the `parking_lot` crate.
+pub mod parking_lot {
+    use super::{hook, point, Op};
+    pub use ::parking_lot::*;
+    use std::ops::Deref;
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(::parking_lot::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            Self(::parking_lot::Mutex::new(value))
+        }
+        pub fn lock(&self) -> MutexGuard<'_, T> {
+            if hook().is_none() {
+                return self.0.lock();
+            }
+            loop {
+                point(Op::Lock, self);
+                if let Some(guard) = self.0.try_lock() {
+                    return guard;
+                }
+                point(Op::Blocked, self);
+            }
+        }
+        pub fn into_inner(self) -> T {
+            self.0.into_inner()
+        }
+        pub fn get_mut(&mut self) -> &mut T {
+            self.0.get_mut()
+        }
+    }
+
+    impl<T> Deref for Mutex<T> {
+        type Target = ::parking_lot::Mutex<T>;
+        fn deref(&self) -> &Self::Target {
+            point(Op::Lock, self);
+            &self.0
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct RwLock<T>(::parking_lot::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub const fn new(value: T) -> Self {
+            Self(::parking_lot::RwLock::new(value))
+        }
+        pub fn read(&self) -> RwLockReadGuard<'_, T> {
+            if hook().is_none() {
+                return self.0.read();
+            }
+            loop {
+                point(Op::Lock, self);
+                if let Some(guard) = self.0.try_read() {
+                    return guard;
+                }
+                point(Op::Blocked, self);
+            }
+        }
+        pub fn write(&self) -> RwLockWriteGuard<'_, T> {
+            if hook().is_none() {
+                return self.0.write();
+            }
+            loop {
+                point(Op::Lock, self);
+                if let Some(guard) = self.0.try_write() {
+                    return guard;
+                }
+                point(Op::Blocked, self);
+            }
+        }
+        pub fn into_inner(self) -> T {
+            self.0.into_inner()
+        }
+        pub fn get_mut(&mut self) -> &mut T {
+            self.0.get_mut()
+        }
+    }
+
+    impl<T> Deref for RwLock<T> {
+        type Target = ::parking_lot::RwLock<T>;
+        fn deref(&self) -> &Self::Target {
+            point(Op::Lock, self);
+            &self.0
+        }
+    }
+}
diff --git a/dumpster/src/lib.rs b/dumpster/src/lib.rs
index 205f92d..d0e8621 100644
--- a/dumpster/src/lib.rs
+++ b/dumpster/src/lib.rs
@@ -170,12 +170,22 @@ let gc1: Gc<[u8]> = Gc::new([1, 2, 3]);
 #![warn(missing_docs)]
 #![warn(clippy::missing_docs_in_private_items)]
 #![allow(clippy::multiple_crate_versions, clippy::result_unit_err)]
+#![allow(unexpected_cfgs)] // `dumpster_verif` is set by `RUSTFLAGS`
 #![cfg_attr(feature = "coerce-unsized", feature(coerce_unsized))]
 #![cfg_attr(feature = "coerce-unsized", feature(unsize))]
 #![cfg_attr(feature = "coerce-unsized", feature(strict_provenance))]
 
 mod impls;
 
+/// The concurrency primitives used by [`sync`].
+#[cfg(not(dumpster_verif))]
+mod hooks {
+    pub use parking_lot;
+    pub use std::sync::atomic;
+}
+#[cfg(dumpster_verif)]
+pub mod hooks;
+
 mod ptr;
 pub mod sync;
 pub mod unsync;
diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1affde..8b7c22a 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -14,14 +14,18 @@ use std::{
     collections::{hash_map::Entry, HashMap},
     mem::{replace, swap, take, transmute},
     ptr::{drop_in_place, NonNull},
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
 };
 
-use parking_lot::{Mutex, RwLock};
-
 use once_cell::sync::Lazy;
 
-use crate::{ptr::Erased, Collectable, Visitor};
+use crate::{
+    hooks::{
+        atomic::{AtomicPtr, AtomicUsize, Ordering},
+        parking_lot::{Mutex, RwLock},
+    },
+    ptr::Erased,
+    Collectable, Visitor,
+};
 
 use super::{default_collect_condition, CollectCondition, CollectInfo, Gc, GcBox, CURRENT_TAG};
 
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 30c61dd..96c03a9 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -38,10 +38,14 @@ use std::{
     fmt::Debug,
     ops::Deref,
     ptr::{addr_of, addr_of_mut, drop_in_place, NonNull},
-    sync::atomic::{fence, AtomicUsize, Ordering},
 };
 
-use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
+use crate::{
+    contains_gcs,
+    hooks::atomic::{fence, AtomicUsize, Ordering},
+    ptr::Nullable,
+    Collectable, Visitor,
+};
 
 use self::collect::{
     collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
-- 
2.43.0


From d344a356919595ea72abd395238f9d81de899bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:03 +0000
Subject: [PATCH 02/19] fix: release the collecting lock before dropping
 weakly-held allocations

A collection which held the last weak reference to an allocation dropped
it while still holding the collecting lock. Dropping it can drop more Gcs
and so start another collection on the same thread, which then waited for
its own lock forever.
---
 dumpster/src/sync/collect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 8b7c22a..59fc4f3 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -325,10 +325,11 @@ impl GarbageTruck {
             };
         }
         CLEANING.with(|c| c.set(false));
+        // dropping these allocations may trigger another collection, so we must not hold the lock
+        drop(collecting_guard);
         for (drop_fn, ptr) in weak_destroys {
             unsafe { drop_fn(ptr) };
         }
-        drop(collecting_guard);
     }
 }
 
-- 
2.43.0


From e205491c83d94b41a1a8f8ad730abc858fd472d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:11 +0000
Subject: [PATCH 03/19] fix: drop the live pointers of collected sync values
 normally

Dropping a Gc did nothing on a thread that was destroying garbage. Pointers
that a destructor cloned, created or took from the dying value were never
released, and a pointer that a destructor moved to a live value had already
been discounted, so its target could be freed while still in use. A
destructor that called collect() waited for its own collection forever.
---
 dumpster/src/sync/collect.rs | 24 ++++++++++++++++++------
 dumpster/src/sync/mod.rs     |  7 ++-----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 59fc4f3..5107273 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -133,9 +133,18 @@ thread_local! {
 /// Collect all allocations in the garbage truck (but not necessarily the dumpster), then await
 /// completion of the collection.
 /// Ensures that all allocations dropped on the calling thread are cleaned up
+///
+/// If the calling thread is in the middle of a collection, this does nothing but deliver the
+/// contents of the dumpster.
 pub fn collect_all_await() {
     DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    if currently_cleaning() {
+        // called by a destructor. The collection that called it is already under way
+        return;
+    }
     GARBAGE_TRUCK.collect_all();
+    // do not keep to ourselves what the destroyed values pointed to
+    with_dumpster(|d| d.deliver_to(&GARBAGE_TRUCK));
     drop(GARBAGE_TRUCK.collecting_lock.read());
 }
 
@@ -154,6 +163,11 @@ pub fn notify_dropped_gc() {
         }
     });
 
+    if currently_cleaning() {
+        // this `Gc` was owned by a value that is being destroyed by a collection on this thread
+        return;
+    }
+
     if (unsafe {
         transmute::<_, CollectCondition>(GARBAGE_TRUCK.collect_condition.load(Ordering::Relaxed))
     })(&CollectInfo { _private: () })
@@ -500,7 +514,9 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
 ) {
-    /// A visitor for decrementing the reference count of pointees.
+    /// A visitor for making pointers to other unreachable allocations null, so that dropping them
+    /// has no effect.
+    /// Pointers to reachable allocations are left to be dropped normally.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
         /// Must have been populated with reachability already.
@@ -513,11 +529,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
             T: Collectable + Send + Sync + ?Sized,
         {
             let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
-            if matches!(self.graph[&id].reachability, Reachability::Reachable) {
-                unsafe {
-                    id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
-                }
-            } else {
+            if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 96c03a9..7010b3e 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -48,8 +48,8 @@ use crate::{
 };
 
 use self::collect::{
-    collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
-    notify_created_gc, notify_dropped_gc,
+    collect_all_await, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing, notify_created_gc,
+    notify_dropped_gc,
 };
 
 /// A thread-safe garbage-collected pointer.
@@ -457,9 +457,6 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        if currently_cleaning() {
-            return;
-        }
         let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
-- 
2.43.0


From e60ef029f39d0f44244a577feb056cabb55b8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:45 +0000
Subject: [PATCH 04/19] fix: let whichever reference to a sync allocation goes
 last destroy it

Threads dropping their last pointers at the same time as each other or as a
collection could each leave destroying the allocation to somebody else, so
that it was never destroyed, or look at its header after it was freed. All
strong references together now own one weak reference, and whoever releases
the last weak reference destroys the allocation.
---
 dumpster/src/sync/collect.rs | 12 ++++++++----
 dumpster/src/sync/mod.rs     | 29 ++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 5107273..5c8f5c3 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -308,7 +308,13 @@ impl GarbageTruck {
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
                 Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
-                    || unsafe { k.0.as_ref().weak.load(Ordering::Acquire) > 1 })
+                    || unsafe {
+                        // one weak reference is ours, and the strong references share another
+                        let header_ref = k.0.as_ref();
+                        let n_expected =
+                            1 + usize::from(header_ref.strong.load(Ordering::Acquire) != 0);
+                        header_ref.weak.load(Ordering::Acquire) > n_expected
+                    })
                 .then_some(k),
             })
             .collect::<Vec<_>>();
@@ -326,9 +332,7 @@ impl GarbageTruck {
                     destroy_fn(node.ptr, &ref_graph);
                 },
                 Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
-                        && header_ref.strong.load(Ordering::Acquire) == 0
-                    {
+                    if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
                         // mark to be cleaned up later
                         // no real synchronization loss to storing the guard because we had the last
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 7010b3e..5c9c427 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -109,7 +109,7 @@ where
     /// allocation itself must still be valid.
     strong: AtomicUsize,
     /// The "weak" count, which is the number of references to this allocation stored in to-collect
-    /// buffers by the collection algorithm.
+    /// buffers by the collection algorithm, plus one while the strong count is not zero.
     /// If the weak count is zero, the allocation may be destroyed.
     weak: AtomicUsize,
     /// The current generation number of the allocation.
@@ -236,7 +236,7 @@ where
         Gc {
             ptr: UnsafeCell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 strong: AtomicUsize::new(1),
-                weak: AtomicUsize::new(0),
+                weak: AtomicUsize::new(1),
                 generation: AtomicUsize::new(CURRENT_TAG.load(Ordering::Acquire)),
                 value,
             }))))),
@@ -457,7 +457,15 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
+        /// Drop and deallocate an allocation which has no references left.
+        unsafe fn destroy<T: Collectable + Send + Sync + ?Sized>(mut ptr: NonNull<GcBox<T>>) {
+            fence(Ordering::Acquire);
+            let layout = Layout::for_value(ptr.as_ref());
+            drop_in_place(ptr.as_mut());
+            dealloc(ptr.as_ptr().cast(), layout);
+        }
+
+        let Some(ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
         let box_ref = unsafe { ptr.as_ref() };
@@ -470,21 +478,20 @@ where
             0 => unreachable!("strong cannot reach zero while a Gc to it exists"),
             1 => {
                 mark_clean(box_ref);
-                if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
+                // release our own weak reference and the one shared by all strong references
+                if box_ref.weak.fetch_sub(2, Ordering::Release) == 2 {
                     // destroyed the last weak reference! we can safely deallocate this
-                    let layout = Layout::for_value(box_ref);
-                    fence(Ordering::Acquire);
-                    unsafe {
-                        drop_in_place(ptr.as_mut());
-                        dealloc(ptr.as_ptr().cast(), layout);
-                    }
+                    unsafe { destroy(ptr) };
                 }
             }
             _ => {
                 if contains_gcs(&box_ref.value).unwrap_or(true) {
                     mark_dirty(ptr);
                 }
-                box_ref.weak.fetch_sub(1, Ordering::Release);
+                if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
+                    // the other strong references were dropped while we worked
+                    unsafe { destroy(ptr) };
+                }
             }
         }
         notify_dropped_gc();
-- 
2.43.0


From 27e98bc62710fa22ebe415da6d191502b5359950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:14 +0000
Subject: [PATCH 05/19] fix: allow Gcs to be dropped after the dumpster of an
 exiting thread

A Gc kept in a thread-local variable may be dropped after the thread-local
dumpster has been destroyed. Accessing the dumpster then panicked inside a
thread-local destructor, which aborts the process.
---
 dumpster/src/sync/collect.rs   | 24 ++++++++++++++++++++----
 dumpster/src/unsync/collect.rs | 19 +++++++++++++++++++
 dumpster/src/unsync/mod.rs     | 10 +++++-----
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 5c8f5c3..f64b7d6 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -129,6 +129,22 @@ thread_local! {
     static CLEANING: Cell<bool> = const { Cell::new(false) };
 }
 
+/// Call a function with the dumpster of this thread.
+///
+/// If this thread is exiting and its dumpster is already gone, the function is given a temporary
+/// dumpster, which is delivered to the garbage truck as soon as the function returns.
+fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
+    let mut f = Some(f);
+    DUMPSTER
+        .try_with(|d| f.take().unwrap()(d))
+        .unwrap_or_else(|_| {
+            f.take().unwrap()(&Dumpster {
+                contents: RefCell::new(HashMap::new()),
+                n_drops: Cell::new(0),
+            })
+        })
+}
+
 #[allow(clippy::module_name_repetitions)]
 /// Collect all allocations in the garbage truck (but not necessarily the dumpster), then await
 /// completion of the collection.
@@ -137,7 +153,7 @@ thread_local! {
 /// If the calling thread is in the middle of a collection, this does nothing but deliver the
 /// contents of the dumpster.
 pub fn collect_all_await() {
-    DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    with_dumpster(|d| d.deliver_to(&GARBAGE_TRUCK));
     if currently_cleaning() {
         // called by a destructor. The collection that called it is already under way
         return;
@@ -156,7 +172,7 @@ pub fn collect_all_await() {
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
-    DUMPSTER.with(|dumpster| {
+    with_dumpster(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
         if dumpster.is_full() {
             dumpster.deliver_to(&GARBAGE_TRUCK);
@@ -188,7 +204,7 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     let box_ref = unsafe { allocation.as_ref() };
-    DUMPSTER.with(|dumpster| {
+    with_dumpster(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
@@ -212,7 +228,7 @@ pub(super) fn mark_clean<T>(allocation: &GcBox<T>)
 where
     T: Collectable + Send + Sync + ?Sized,
 {
-    DUMPSTER.with(|dumpster| {
+    with_dumpster(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4a969ff..1ea5754 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -36,6 +36,25 @@ thread_local! {
     };
 }
 
+/// Call a function with the dumpster of this thread.
+///
+/// If this thread is exiting and its dumpster is already gone, the function is given a temporary
+/// dumpster, which is emptied as soon as the function returns.
+pub(super) fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
+    let mut f = Some(f);
+    DUMPSTER
+        .try_with(|d| f.take().unwrap()(d))
+        .unwrap_or_else(|_| {
+            f.take().unwrap()(&Dumpster {
+                to_collect: RefCell::new(HashMap::new()),
+                n_ref_drops: Cell::new(0),
+                // nobody reads this, but it must not underflow
+                n_refs_living: Cell::new(usize::MAX / 2),
+                collect_condition: Cell::new(|_| false),
+            })
+        })
+}
+
 /// A dumpster is a collection of all the garbage that may or may not need to be cleaned up.
 /// It also contains information relevant to when a cleanup should be triggered.
 pub(super) struct Dumpster {
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index d6b49df..b5c3c4c 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{with_dumpster, Dumpster, COLLECTING, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -116,7 +116,7 @@ pub struct Gc<T: Collectable + ?Sized + 'static> {
 /// # }
 /// ```
 pub fn collect() {
-    DUMPSTER.with(Dumpster::collect_all);
+    with_dumpster(Dumpster::collect_all);
 }
 
 /// Information passed to a [`CollectCondition`] used to determine whether the garbage collector
@@ -213,7 +213,7 @@ impl<T: Collectable + ?Sized> Gc<T> {
     where
         T: Sized,
     {
-        DUMPSTER.with(Dumpster::notify_created_gc);
+        with_dumpster(Dumpster::notify_created_gc);
         Gc {
             ptr: Cell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 ref_count: Cell::new(NonZeroUsize::MIN),
@@ -472,7 +472,7 @@ impl<T: Collectable + ?Sized> Clone for Gc<T> {
                 .ref_count
                 .set(box_ref.ref_count.get().saturating_add(1));
         }
-        DUMPSTER.with(|d| {
+        with_dumpster(|d| {
             d.notify_created_gc();
             // d.mark_cleaned(self.ptr);
         });
@@ -494,7 +494,7 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-        DUMPSTER.with(|d| {
+        with_dumpster(|d| {
             let box_ref = unsafe { ptr.as_ref() };
             match box_ref.ref_count.get() {
                 NonZeroUsize::MIN => {
-- 
2.43.0


From 90e97e81a659bb8c3ec434018c3b4ac13bafe6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:45 +0000
Subject: [PATCH 06/19] fix: let destructors run by an unsync collection use
 Gcs

While garbage was being destroyed, dropping a Gc did nothing and
dereferencing any Gc panicked, even one to a live value. Pointers that a
destructor cloned or created were never released, and a pointer it moved to
a live value had already been discounted, so its target could be freed while
still in use. Dropping the map of candidates while borrowed also made
collect() panic inside a destructor.
---
 dumpster/src/unsync/collect.rs | 30 +++++++++++++++++++-----------
 dumpster/src/unsync/mod.rs     |  9 +--------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 1ea5754..7d92fd0 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -12,6 +12,7 @@ use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap, HashSet},
+    mem::take,
     num::NonZeroUsize,
     ptr::{drop_in_place, NonNull},
 };
@@ -26,7 +27,7 @@ use super::{CollectCondition, GcBox};
 
 thread_local! {
     /// Whether the current thread is running a cleanup process.
-    pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
+    static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
     pub(super) static DUMPSTER: Dumpster = Dumpster {
         to_collect: RefCell::new(HashMap::new()),
@@ -124,7 +125,12 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
 
 impl Dumpster {
     /// Collect all unreachable allocations that this dumpster is responsible for.
+    ///
+    /// Does nothing if called by a destructor while a collection is under way.
     pub fn collect_all(&self) {
+        if COLLECTING.with(Cell::get) {
+            return;
+        }
         self.n_ref_drops.set(0);
 
         unsafe {
@@ -169,10 +175,10 @@ impl Dumpster {
             };
 
             COLLECTING.with(|c| c.set(true));
-            for cleanup in self
-                .to_collect
-                .borrow_mut()
-                .drain()
+            // destructors may mark more allocations as dirty while we work
+            let to_collect = take(&mut *self.to_collect.borrow_mut());
+            for cleanup in to_collect
+                .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
@@ -210,6 +216,11 @@ impl Dumpster {
         );
         self.n_refs_living.set(old_refs_living - 1);
 
+        if COLLECTING.with(Cell::get) {
+            // this `Gc` was owned by a value that is being destroyed by a collection
+            return;
+        }
+
         // check if it's been a long time since the last time we collected all
         // the garbage.
         // if so, go and collect it all again (amortized O(1))
@@ -333,10 +344,7 @@ impl Visitor for DropAlloc<'_> {
         let ptr = gc.ptr.get().unwrap();
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
-            unsafe {
-                let cell_ref = &ptr.as_ref().ref_count;
-                cell_ref.set(NonZeroUsize::new(cell_ref.get().get() - 1).unwrap());
-            }
+            // will be dropped normally, along with its owner
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
@@ -351,8 +359,8 @@ impl Visitor for DropAlloc<'_> {
     }
 }
 
-/// Decrement the outbound reference counts for any reachable allocations which this allocation can
-/// find.
+/// Make the pointers from this allocation to other unreachable allocations null and drop those
+/// allocations.
 /// Also, drop the allocation when done.
 unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAlloc<'_>) {
     if visitor
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index b5c3c4c..7ee5cf1 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{with_dumpster, Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{with_dumpster, Dumpster, DUMPSTER};
 
 mod collect;
 #[cfg(test)]
@@ -407,10 +407,6 @@ impl<T: Collectable + ?Sized> Deref for Gc<T> {
     /// });
     /// ```
     fn deref(&self) -> &Self::Target {
-        assert!(
-            !COLLECTING.with(Cell::get),
-            "dereferencing GC to already-collected object"
-        );
         unsafe {
             &self.ptr.get().expect("dereferencing Gc to already-collected object. \
             This means a Gc escaped from a Drop implementation, likely implying a bug in your code.").as_ref().value
@@ -488,9 +484,6 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
     /// If this is the last reference which can reach the pointed-to data, the allocation that it
     /// points to will be destroyed.
     fn drop(&mut self) {
-        if COLLECTING.with(Cell::get) {
-            return;
-        }
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-- 
2.43.0


From 5844468cec48f5280b25f481dade42d1ac193927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:50 +0000
Subject: [PATCH 07/19] fix: ignore dead Gcs when tracing

A destructor run by a collection can store one of its dead pointers in a
value that lives on. The next collection which reached it panicked.
---
 dumpster/src/sync/collect.rs   |  9 +++++++--
 dumpster/src/unsync/collect.rs | 12 +++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index f64b7d6..5e4bfaa 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -436,7 +436,9 @@ impl<'a> Visitor for Dfs<'a> {
     where
         T: Collectable + Send + Sync + ?Sized,
     {
-        let ptr = unsafe { (*gc.ptr.get()).unwrap() };
+        let Some(ptr) = unsafe { *gc.ptr.get() }.as_option() else {
+            return; // a dead pointer, which escaped from a destructor
+        };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
@@ -548,7 +550,10 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         where
             T: Collectable + Send + Sync + ?Sized,
         {
-            let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
+            let Some(ptr) = unsafe { *gc.ptr.get() }.as_option() else {
+                return; // a dead pointer, which escaped from a destructor
+            };
+            let id = AllocationId::from(ptr);
             if !matches!(self.graph[&id].reachability, Reachability::Reachable) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 7d92fd0..a7e51ac 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -275,7 +275,9 @@ impl Visitor for Dfs {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return; // a dead pointer, which escaped from a destructor
+        };
         let next_id = AllocationId::from(ptr);
         match self.ref_graph.entry(next_id) {
             Entry::Occupied(ref mut o) => {
@@ -314,7 +316,9 @@ impl Visitor for Mark {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return; // a dead pointer, which escaped from a destructor
+        };
         if self.visited.insert(AllocationId::from(ptr)) {
             let _ = unsafe { ptr.as_ref().value.accept(self) };
         }
@@ -341,7 +345,9 @@ impl Visitor for DropAlloc<'_> {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return; // a dead pointer, which escaped from a destructor
+        };
         let id = AllocationId::from(ptr);
         if self.reachable.contains(&id) {
             // will be dropped normally, along with its owner
-- 
2.43.0


From 7fb118e7c912ada7b1b55803e0c88c3502d4e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:41 +0000
Subject: [PATCH 08/19] fix: discount the Gcs within collected values

Pointers between the values of a collected cycle were nulled without
lowering the number of existing Gcs, which therefore only ever grew and made
the default collection condition ever less willing to collect.
---
 dumpster/src/sync/collect.rs   | 1 +
 dumpster/src/unsync/collect.rs | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 5e4bfaa..2397113 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -558,6 +558,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
+                GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
             }
         }
 
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index a7e51ac..1d75d8d 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -172,6 +172,7 @@ impl Dumpster {
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
                 reachable: &mark.visited,
+                n_refs_living: &self.n_refs_living,
             };
 
             COLLECTING.with(|c| c.set(true));
@@ -331,6 +332,8 @@ struct DropAlloc<'a> {
     visited: HashSet<AllocationId>,
     /// The set of unreachable allocations.
     reachable: &'a HashSet<AllocationId>,
+    /// The number of references that exist, to be updated when references become null.
+    n_refs_living: &'a Cell<usize>,
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -354,6 +357,7 @@ impl Visitor for DropAlloc<'_> {
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
+        self.n_refs_living.set(self.n_refs_living.get() - 1);
         if self.visited.insert(id) {
             unsafe {
                 ptr.as_ref().value.accept(self).unwrap();
-- 
2.43.0


From be62468fff977daaf420c3f21a26506e83e40f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:05 +0000
Subject: [PATCH 09/19] fix: recover when a destructor panics during a
 collection

The flag for a running collection stayed set, so nothing was collected on
that thread any more. In the sync collector, live values examined by the
collection also stayed pinned forever.
---
 dumpster/src/sync/collect.rs   | 33 ++++++++++++++++++++++++++++-----
 dumpster/src/unsync/collect.rs | 20 ++++++++++++++++++--
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 2397113..0096c08 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -145,6 +145,23 @@ fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
         })
 }
 
+/// A guard for the time that [`CLEANING`] is set, which ends even if a destructor panics.
+struct Cleaning;
+
+impl Cleaning {
+    /// Set [`CLEANING`] until the guard is dropped.
+    fn start() -> Cleaning {
+        CLEANING.with(|c| c.set(true));
+        Cleaning
+    }
+}
+
+impl Drop for Cleaning {
+    fn drop(&mut self) {
+        CLEANING.with(|c| c.set(false));
+    }
+}
+
 #[allow(clippy::module_name_repetitions)]
 /// Collect all allocations in the garbage truck (but not necessarily the dumpster), then await
 /// completion of the collection.
@@ -338,15 +355,16 @@ impl GarbageTruck {
             mark(root_id, &mut ref_graph);
         }
 
-        CLEANING.with(|c| c.set(true));
         // set of allocations which must be destroyed because we were the last weak pointer to it
         let mut weak_destroys = Vec::new();
+        // set of allocations which were found to be unreachable
+        let mut destroys = Vec::new();
         for (id, node) in &ref_graph {
             let header_ref = unsafe { id.0.as_ref() };
             match node.reachability {
-                Reachability::Unknown { destroy_fn, .. } => unsafe {
-                    destroy_fn(node.ptr, &ref_graph);
-                },
+                Reachability::Unknown { destroy_fn, .. } => {
+                    destroys.push((destroy_fn, node.ptr));
+                }
                 Reachability::Reachable => {
                     if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
@@ -358,7 +376,12 @@ impl GarbageTruck {
                 }
             };
         }
-        CLEANING.with(|c| c.set(false));
+        // destructors may panic, so by now we must have released every reachable allocation
+        let cleaning = Cleaning::start();
+        for (destroy_fn, ptr) in destroys {
+            unsafe { destroy_fn(ptr, &ref_graph) };
+        }
+        drop(cleaning);
         // dropping these allocations may trigger another collection, so we must not hold the lock
         drop(collecting_guard);
         for (drop_fn, ptr) in weak_destroys {
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 1d75d8d..b9358f9 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -113,6 +113,23 @@ impl Cleanup {
     }
 }
 
+/// A guard for the time that [`COLLECTING`] is set, which ends even if a destructor panics.
+struct Collecting;
+
+impl Collecting {
+    /// Set [`COLLECTING`] until the guard is dropped.
+    fn start() -> Collecting {
+        COLLECTING.with(|c| c.set(true));
+        Collecting
+    }
+}
+
+impl Drop for Collecting {
+    fn drop(&mut self) {
+        COLLECTING.with(|c| c.set(false));
+    }
+}
+
 /// Apply a visitor to some erased pointer.
 ///
 /// # Safety
@@ -175,7 +192,7 @@ impl Dumpster {
                 n_refs_living: &self.n_refs_living,
             };
 
-            COLLECTING.with(|c| c.set(true));
+            let _collecting = Collecting::start();
             // destructors may mark more allocations as dirty while we work
             let to_collect = take(&mut *self.to_collect.borrow_mut());
             for cleanup in to_collect
@@ -184,7 +201,6 @@ impl Dumpster {
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
-            COLLECTING.with(|c| c.set(false));
         }
     }
 
-- 
2.43.0


From 094c1506449d386dffdab0da5babdf6b723b7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:09 +0000
Subject: [PATCH 10/19] fix: trace through poisoned locks

A collection panicked when it came across a Mutex or RwLock that was
poisoned.
---
 dumpster/src/impls.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dumpster/src/impls.rs b/dumpster/src/impls.rs
index 080c339..fac1e71 100644
--- a/dumpster/src/impls.rs
+++ b/dumpster/src/impls.rs
@@ -91,9 +91,9 @@ unsafe impl<T: Collectable + ?Sized> Collectable for Mutex<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
         self.try_lock()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
+            .or_else(|e| match e {
+                TryLockError::Poisoned(e) => Ok(e.into_inner()),
+                TryLockError::WouldBlock => Err(()),
             })?
             .deref()
             .accept(visitor)
@@ -104,9 +104,9 @@ unsafe impl<T: Collectable + ?Sized> Collectable for RwLock<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
         self.try_read()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
+            .or_else(|e| match e {
+                TryLockError::Poisoned(e) => Ok(e.into_inner()),
+                TryLockError::WouldBlock => Err(()),
             })?
             .deref()
             .accept(visitor)
-- 
2.43.0


From 0fe40582c8842c0d8f03a736286a1a3c3483d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:27 +0000
Subject: [PATCH 11/19] fix: leak unreachable values which are forever borrowed

A collection panicked when it found a cycle through a RefCell whose RefMut
had been forgotten.
---
 dumpster/src/unsync/collect.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index b9358f9..5fdd095 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -376,7 +376,9 @@ impl Visitor for DropAlloc<'_> {
         self.n_refs_living.set(self.n_refs_living.get() - 1);
         if self.visited.insert(id) {
             unsafe {
-                ptr.as_ref().value.accept(self).unwrap();
+                if ptr.as_ref().value.accept(self).is_err() {
+                    return; // forever borrowed, so it can only be leaked
+                }
                 let layout = Layout::for_value(ptr.as_ref());
                 drop_in_place(ptr.as_ptr());
                 dealloc(ptr.as_ptr().cast(), layout);
@@ -393,11 +395,15 @@ unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAl
         .visited
         .insert(AllocationId::from(ptr.specify::<GcBox<T>>()))
     {
-        ptr.specify::<GcBox<T>>()
+        if ptr
+            .specify::<GcBox<T>>()
             .as_ref()
             .value
             .accept(visitor)
-            .unwrap();
+            .is_err()
+        {
+            return; // forever borrowed, so it can only be leaked
+        }
 
         let mut_spec = ptr.specify::<GcBox<T>>().as_mut();
         let layout = Layout::for_value(mut_spec);
-- 
2.43.0


From c7d3d9ed826113652eea2f24036c3998075c3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:56 +0000
Subject: [PATCH 12/19] fix: derive Collectable for generic types and empty
 enums

Type parameters were bounded by a trait of an unrelated crate. A type
parameter named V clashed with the one of the generated method. The match
generated for an enum without variants did not compile.
---
 dumpster_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 917b1d1..f95eadb 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
     let generated = quote! {
         unsafe impl #impl_generics dumpster::Collectable for #name #ty_generics #where_clause {
             #[inline]
-            fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> std::result::Result<(), ()> {
+            fn accept<__V: dumpster::Visitor>(&self, visitor: &mut __V) -> std::result::Result<(), ()> {
                 #do_visitor
             }
         }
@@ -47,7 +47,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
 fn add_trait_bounds(mut generics: Generics) -> Generics {
     for param in &mut generics.params {
         if let GenericParam::Type(ref mut type_param) = *param {
-            type_param.bounds.push(parse_quote!(heapsize::HeapSize));
+            type_param.bounds.push(parse_quote!(dumpster::Collectable));
         }
     }
     generics
@@ -86,6 +86,8 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             }
             Fields::Unit => quote! { std::result::Result::Ok(()) },
         },
+        // a reference to an empty enum is not itself considered empty
+        Data::Enum(e) if e.variants.is_empty() => quote! {match *self {}},
         Data::Enum(e) => {
             let mut delegate_visit = TokenStream::new();
             for var in &e.variants {
-- 
2.43.0


From c4d58e033f23128502677b88259c32e7696476b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:09 +0000
Subject: [PATCH 13/19] fix: keep the provenance of erased pointers

Pointers were stored as integers and then used as pointers again, which is
undefined behaviour.
---
 dumpster/src/ptr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/ptr.rs b/dumpster/src/ptr.rs
index 0c04735..95f8e96 100644
--- a/dumpster/src/ptr.rs
+++ b/dumpster/src/ptr.rs
@@ -21,7 +21,11 @@ use std::{
 /// interpretation.
 /// We trust that all pointers (even to `?Sized` or `dyn` types) are 2 words or fewer in size.
 /// This is a hack! Like, a big hack!
-pub(crate) struct Erased([usize; 2]);
+pub(crate) struct Erased([*const (); 2]);
+
+// SAFETY: an `Erased` can only be used through unsafe code, which is responsible for upholding this.
+unsafe impl Send for Erased {}
+unsafe impl Sync for Erased {}
 
 impl Erased {
     /// Construct a new erased pointer to some data from a reference
@@ -32,7 +36,7 @@ impl Erased {
     /// `ErasedPtr`.
     /// To my knowledge, there are no pointer types with this property.
     pub fn new<T: ?Sized>(reference: NonNull<T>) -> Erased {
-        let mut ptr = Erased([0; 2]);
+        let mut ptr = Erased([std::ptr::null(); 2]);
         let ptr_size = size_of::<NonNull<T>>();
         // Extract out the pointer as raw memory
         assert!(
-- 
2.43.0


From 772b9d0af296a296bc452f4221b33e6bae0d67fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:56 +0000
Subject: [PATCH 14/19] fix: examine garbage again when it could not be judged

A sync value was presumed reachable if another thread accessed one of the
values it pointed to during the collection. Garbage spared in this way was
forgotten and never freed.
---
 dumpster/src/sync/collect.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 0096c08..09f2dff 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -80,6 +80,11 @@ struct AllocationInfo {
     /// Function for dropping the allocation when its weak and strong count hits zero.
     /// Should have the same behavior as dropping a Gc normally to a reference count of zero.
     weak_drop_fn: unsafe fn(Erased),
+    /// The function which can be used to build a reference graph.
+    dfs_fn: unsafe fn(Erased, &mut HashMap<AllocationId, AllocationInfo>),
+    /// Whether the allocation is only presumed to be reachable because one of its children was
+    /// accessed, so that it must be examined again by the next collection.
+    retry: bool,
     /// Information about this allocation's reachability.
     reachability: Reachability,
 }
@@ -366,6 +371,16 @@ impl GarbageTruck {
                     destroys.push((destroy_fn, node.ptr));
                 }
                 Reachability::Reachable => {
+                    if node.retry {
+                        let can = TrashCan {
+                            ptr: node.ptr,
+                            dfs_fn: node.dfs_fn,
+                        };
+                        if self.contents.lock().insert(*id, can).is_none() {
+                            // our weak reference now belongs to the truck
+                            continue;
+                        }
+                    }
                     if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
                         // mark to be cleaned up later
@@ -421,6 +436,8 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
+        dfs_fn: dfs::<T>,
+        retry: false,
         reachability: Reachability::Unknown {
             children: Vec::new(),
             n_unaccounted: strong_count,
@@ -469,6 +486,7 @@ impl<'a> Visitor for Dfs<'a> {
         {
             // This pointer was already tagged by this sweep, so it must have been moved by
             mark(self.current_id, self.ref_graph);
+            self.ref_graph.get_mut(&self.current_id).unwrap().retry = true;
             return;
         }
 
@@ -505,6 +523,8 @@ impl<'a> Visitor for Dfs<'a> {
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
                     weak_drop_fn: drop_weak_zero::<T>,
+                    dfs_fn: dfs::<T>,
+                    retry: false,
                     reachability: Reachability::Unknown {
                         children: Vec::new(),
                         n_unaccounted: strong_count - 1,
-- 
2.43.0


From 26173574dae1cf1d5dd01d0e35d4d972c5a1ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:48 +0000
Subject: [PATCH 15/19] fix: derive Collectable for structs written by macros

The code generated for a field took on the hygiene of the field's
tokens.  When a macro received a field's name as an argument, that code
could not see `self` or the visitor, so the derive did not compile.
Use the field's span only for locating errors.
---
 dumpster_derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index f95eadb..9d604b9 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -11,7 +11,7 @@
 #![warn(clippy::cargo)]
 #![allow(clippy::multiple_crate_versions)]
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use syn::{
     parse_macro_input, parse_quote, spanned::Spanned, Data, DeriveInput, Fields, GenericParam,
@@ -61,7 +61,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             Fields::Named(ref f) => {
                 let delegate_visit = f.named.iter().map(|f| {
                     let name = &f.ident;
-                    quote_spanned! {f.span() =>
+                    quote_spanned! {Span::call_site().located_at(f.span()) =>
                         dumpster::Collectable::accept(
                             &self.#name,
                             visitor
@@ -74,7 +74,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             Fields::Unnamed(ref f) => {
                 let delegate_visit = f.unnamed.iter().enumerate().map(|(i, f)| {
                     let index = Index::from(i);
-                    quote_spanned! {f.span() =>
+                    quote_spanned! {Span::call_site().located_at(f.span()) =>
                         dumpster::Collectable::accept(
                             &self.#index,
                             visitor
-- 
2.43.0


From 44299fd8a7ea9204a33b6ba1bb0579e5f0f11823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:15 +0000
Subject: [PATCH 16/19] fix: examine garbage again when another thread was
 holding on to it (C07)

A value whose only remaining references are its own cycle was presumed to be
reachable while another thread was in the middle of dropping a Gc to it. That
thread may already have decided that the value has no Gcs and need not be
examined, so nobody would look at the cycle again.
---
 dumpster/src/sync/collect.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 09f2dff..72cf168 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -83,7 +83,8 @@ struct AllocationInfo {
     /// The function which can be used to build a reference graph.
     dfs_fn: unsafe fn(Erased, &mut HashMap<AllocationId, AllocationInfo>),
     /// Whether the allocation is only presumed to be reachable because one of its children was
-    /// accessed, so that it must be examined again by the next collection.
+    /// accessed or because somebody else holds a weak reference to it, so that it must be examined
+    /// again by the next collection.
     retry: bool,
     /// Information about this allocation's reachability.
     reachability: Reachability,
@@ -342,16 +343,19 @@ impl GarbageTruck {
         }
 
         let root_ids = ref_graph
-            .iter()
+            .iter_mut()
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
                 Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
                     || unsafe {
                         // one weak reference is ours, and the strong references share another
                         let header_ref = k.0.as_ref();
-                        let n_expected =
-                            1 + usize::from(header_ref.strong.load(Ordering::Acquire) != 0);
-                        header_ref.weak.load(Ordering::Acquire) > n_expected
+                        let has_strong = header_ref.strong.load(Ordering::Acquire) != 0;
+                        let is_held =
+                            header_ref.weak.load(Ordering::Acquire) > 1 + usize::from(has_strong);
+                        // whoever holds it may be done without marking it as dirty
+                        v.retry = has_strong && is_held;
+                        is_held
                     })
                 .then_some(k),
             })
-- 
2.43.0


From a2db15da664840216fcf8e5fd453dd9f5741d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:34 +0000
Subject: [PATCH 17/19] fix: never mark a value as accessed by an earlier
 collection than before (C06)

Dereferencing, cloning and dropping a Gc load the number of the current
collection and then store it. If a collection began in between, the outdated
number could overwrite a newer one, and hide from the collection that the value
was being used. The collection then destroyed reachable values.
---
 dumpster/src/sync/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 5c9c427..86acfa5 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -442,7 +442,7 @@ where
         box_ref.strong.fetch_add(1, Ordering::Acquire);
         box_ref
             .generation
-            .store(CURRENT_TAG.load(Ordering::Acquire), Ordering::Release);
+            .fetch_max(CURRENT_TAG.load(Ordering::Acquire), Ordering::Release);
         notify_created_gc();
         // mark_clean(box_ref); // causes performance drops
         Gc {
@@ -473,7 +473,7 @@ where
                                                      // while we weren't looking
         box_ref
             .generation
-            .store(CURRENT_TAG.load(Ordering::Relaxed), Ordering::Release);
+            .fetch_max(CURRENT_TAG.load(Ordering::Relaxed), Ordering::Release);
         match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
             0 => unreachable!("strong cannot reach zero while a Gc to it exists"),
             1 => {
@@ -600,8 +600,9 @@ impl<T: Collectable + Send + Sync + ?Sized> Deref for Gc<T> {
         ).as_ref()
         };
         let current_tag = CURRENT_TAG.load(Ordering::Acquire);
-        self.tag.store(current_tag, Ordering::Release);
-        box_ref.generation.store(current_tag, Ordering::Release);
+        // a collection may have begun since, so never overwrite anything newer
+        self.tag.fetch_max(current_tag, Ordering::Release);
+        box_ref.generation.fetch_max(current_tag, Ordering::Release);
         &box_ref.value
     }
 }
-- 
2.43.0


From 5d19860a4286920786f05b071e3bd38abb581546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:16 +0000
Subject: [PATCH 18/19] fix: call the destructors of all garbage even if one of
 them panics (C16)

---
 dumpster/src/sync/collect.rs   | 15 +++++++++++++--
 dumpster/src/unsync/collect.rs | 28 ++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 72cf168..e9e3871 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -13,7 +13,9 @@ use std::{
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap},
     mem::{replace, swap, take, transmute},
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
     ptr::{drop_in_place, NonNull},
+    thread::panicking,
 };
 
 use once_cell::sync::Lazy;
@@ -397,14 +399,23 @@ impl GarbageTruck {
         }
         // destructors may panic, so by now we must have released every reachable allocation
         let cleaning = Cleaning::start();
+        // the first panic, which must not prevent the other destructors from being called
+        let mut panic = None;
         for (destroy_fn, ptr) in destroys {
-            unsafe { destroy_fn(ptr, &ref_graph) };
+            let result = catch_unwind(AssertUnwindSafe(|| unsafe { destroy_fn(ptr, &ref_graph) }));
+            panic = panic.or(result.err());
         }
         drop(cleaning);
         // dropping these allocations may trigger another collection, so we must not hold the lock
         drop(collecting_guard);
         for (drop_fn, ptr) in weak_destroys {
-            unsafe { drop_fn(ptr) };
+            let result = catch_unwind(AssertUnwindSafe(|| unsafe { drop_fn(ptr) }));
+            panic = panic.or(result.err());
+        }
+        if let Some(panic) = panic {
+            if !panicking() {
+                resume_unwind(panic);
+            }
         }
     }
 }
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 5fdd095..cb4a5b8 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -10,11 +10,14 @@
 
 use std::{
     alloc::{dealloc, Layout},
+    any::Any,
     cell::{Cell, RefCell},
     collections::{hash_map::Entry, HashMap, HashSet},
     mem::take,
     num::NonZeroUsize,
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
     ptr::{drop_in_place, NonNull},
+    thread::panicking,
 };
 
 use crate::{
@@ -190,6 +193,7 @@ impl Dumpster {
                 visited: dfs.visited,
                 reachable: &mark.visited,
                 n_refs_living: &self.n_refs_living,
+                panic: None,
             };
 
             let _collecting = Collecting::start();
@@ -201,6 +205,11 @@ impl Dumpster {
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
+            if let Some(panic) = decrementer.panic {
+                if !panicking() {
+                    resume_unwind(panic);
+                }
+            }
         }
     }
 
@@ -350,6 +359,21 @@ struct DropAlloc<'a> {
     reachable: &'a HashSet<AllocationId>,
     /// The number of references that exist, to be updated when references become null.
     n_refs_living: &'a Cell<usize>,
+    /// The first panic of a destructor, which must not prevent the others from being called.
+    panic: Option<Box<dyn Any + Send>>,
+}
+
+impl DropAlloc<'_> {
+    /// Drop a value, making note of it if it panics.
+    ///
+    /// # Safety
+    ///
+    /// Same as [`drop_in_place`].
+    unsafe fn drop_value<T: ?Sized>(&mut self, ptr: *mut T) {
+        if let Err(panic) = catch_unwind(AssertUnwindSafe(|| drop_in_place(ptr))) {
+            self.panic.get_or_insert(panic);
+        }
+    }
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -380,7 +404,7 @@ impl Visitor for DropAlloc<'_> {
                     return; // forever borrowed, so it can only be leaked
                 }
                 let layout = Layout::for_value(ptr.as_ref());
-                drop_in_place(ptr.as_ptr());
+                self.drop_value(ptr.as_ptr());
                 dealloc(ptr.as_ptr().cast(), layout);
             }
         }
@@ -407,7 +431,7 @@ unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAl
 
         let mut_spec = ptr.specify::<GcBox<T>>().as_mut();
         let layout = Layout::for_value(mut_spec);
-        drop_in_place(mut_spec);
+        visitor.drop_value(mut_spec);
         dealloc(std::ptr::from_mut::<GcBox<T>>(mut_spec).cast(), layout);
     }
 }
-- 
2.43.0


From 44d9b57a306faae1873f0a10b45b10db889c561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:16 +0000
Subject: [PATCH 19/19] fix: do not abort if a destructor panics at the end of
 a thread (C16)

---
 dumpster/src/unsync/collect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index cb4a5b8..7e38b0a 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -264,7 +264,8 @@ impl Dumpster {
 impl Drop for Dumpster {
     fn drop(&mut self) {
         // cleanup any leftover allocations
-        self.collect_all();
+        // a panic must not escape from the end of a thread, as that would end the whole process
+        let _ = catch_unwind(AssertUnwindSafe(|| self.collect_all()));
     }
 }
 
-- 
2.43.0

