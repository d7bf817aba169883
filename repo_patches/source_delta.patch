From 21b2a76b1618b346995aaac2fd6b9834dd1ad3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 01/21] fix: ring buffer: consumers acquire what enqueue()
 released, so dequeued & peeked contents are visible to the receiving thread

---
 src/metrics_allocator/ring_buffer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..9af6d44 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -113,17 +113,18 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     /// Might fail with [RingBufferOverflowError] if the ring buffer had cycled over the element to be dequeued.
     /// Otherwise, returns a reference (if there is some slot to dequeue) or *None* (if there isn't).
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
-        let mut head = self.head.load(Ordering::Relaxed);
+        let mut head = self.head.load(Ordering::Acquire);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            // pairs with the `Release` publication made by `enqueue()`, so the slot contents are visible to this thread
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
-                head = self.head.load(Ordering::Relaxed);
+                head = self.head.load(Ordering::Acquire);
                 continue;
             }
             if head == published_tail {
                 return Ok(None);
             }
-            match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
+            match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Acquire) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
@@ -159,8 +160,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        // `Acquire` on both: the published slots must be visible to this thread & 'head' may never be seen ahead of the tail
+        let head = self.head.load(Ordering::Acquire);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From 8887cefd27e95724acea6837c7f00c145343cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/21] fix: ring buffer: an overflow is reported by every
 later dequeue & peek of that consumer, instead of skipping the lost elements
 one by one

---
 src/metrics_allocator/ring_buffer.rs | 34 ++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 9af6d44..dce9332 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -124,12 +124,24 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
+            // an already overflowed consumer is left as is, so it will keep on reporting the error
+            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Acquire) {
+                    Ok(_) => return Err(Self::overflow_error(published_tail, head)),
+                    Err(reloaded_head) => {
+                        head = reloaded_head;
+                        continue;
+                    },
+                }
+            }
             match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Acquire) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
                     if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                        return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+                        // overflowed in the meantime: the element could not be delivered, so it remains the one to be dequeued
+                        self.head.fetch_min(head, Ordering::AcqRel);
+                        return Err(Self::overflow_error(published_tail, head));
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
                 },
@@ -161,14 +173,22 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
         // `Acquire` on both: the published slots must be visible to this thread & 'head' may never be seen ahead of the tail
-        let head = self.head.load(Ordering::Acquire);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        let mut head = self.head.load(Ordering::Acquire);
+        let mut published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        // slots already reserved are also taken into account, as they might be being overwritten right now
+        while self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+            match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Acquire) {
+                Ok(_) => return Err(Self::overflow_error(published_tail, head)),
+                Err(reloaded_head) => {
+                    head = reloaded_head;
+                    published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+                },
+            }
+        }
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
-            Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
         } else if head_index < published_tail_index {
             unsafe {
                 // sorcery to get back an array from a MaybeUninit using only const stable functions (as of Rust 1.55)
@@ -186,6 +206,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         }
     }
 
+    fn overflow_error(published_tail: u32, head: u32) -> RingBufferOverflowError {
+        RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
+    }
+
 }
 
 
-- 
2.43.0


From c6517e395491990fc51d86cbb5f57b1d4b0eb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 03/21] fix: ring buffer: the first lap no longer drops
 uninitialized memory as if it was an element

---
 src/metrics_allocator/ring_buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index dce9332..21e972a 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -63,7 +63,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        let slot = &mut mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE];
+        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+            // first lap: there is no old element there yet -- just uninitialized memory, which must not be dropped
+            unsafe { std::ptr::write(slot, element) };
+        } else {
+            *slot = element;
+        }
 
         // publish the new element for consumption
         loop {
-- 
2.43.0


From dfe58a08a013b90e7221254d0748bdee51e333b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 04/21] fix: ring buffer: a producer waits for the one still
 filling in the slot it is about to overwrite, so elements are not dropped
 twice nor uninitialized ones dropped

---
 src/metrics_allocator/ring_buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 21e972a..18a9741 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -68,6 +68,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             // first lap: there is no old element there yet -- just uninitialized memory, which must not be dropped
             unsafe { std::ptr::write(slot, element) };
         } else {
+            // further laps: the producer of the old element might still be at it, if there are more concurrent producers than slots
+            while (self.published_tail.load(Ordering::Acquire) as usize) + RING_BUFFER_SIZE <= reserved_tail as usize {
+                std::hint::spin_loop();
+            }
             *slot = element;
         }
 
-- 
2.43.0


From 5f239c5e38896df7a93c1edfafbc273a4b01bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 05/21] fix: ring buffer: 64 bit counters, so the buffer
 doesn't break after 2^32 elements

---
 src/metrics_allocator/ring_buffer.rs | 34 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 18a9741..1320411 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,7 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::*;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -19,9 +19,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicU64,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicU64,
     /// the data
     buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
 }
@@ -38,8 +38,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicU64::new(0),
+            published_tail: AtomicU64::new(0),
             buffer: MaybeUninit::uninit(),
         }
     }
@@ -47,7 +47,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicU64::new(self.published_tail.load(Ordering::Relaxed)),
             ring_buffer: self,
         }
     }
@@ -63,13 +63,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        let slot = &mut mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE];
-        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+        let slot = &mut mutable_buffer[(reserved_tail % RING_BUFFER_SIZE as u64) as usize];
+        if reserved_tail < RING_BUFFER_SIZE as u64 {
             // first lap: there is no old element there yet -- just uninitialized memory, which must not be dropped
             unsafe { std::ptr::write(slot, element) };
         } else {
             // further laps: the producer of the old element might still be at it, if there are more concurrent producers than slots
-            while (self.published_tail.load(Ordering::Acquire) as usize) + RING_BUFFER_SIZE <= reserved_tail as usize {
+            while self.published_tail.load(Ordering::Acquire) + RING_BUFFER_SIZE as u64 <= reserved_tail {
                 std::hint::spin_loop();
             }
             *slot = element;
@@ -112,7 +112,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicU64,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -135,7 +135,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 return Ok(None);
             }
             // an already overflowed consumer is left as is, so it will keep on reporting the error
-            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+            if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u64 {
                 match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Acquire) {
                     Ok(_) => return Err(Self::overflow_error(published_tail, head)),
                     Err(reloaded_head) => {
@@ -148,12 +148,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u64 {
                         // overflowed in the meantime: the element could not be delivered, so it remains the one to be dequeued
                         self.head.fetch_min(head, Ordering::AcqRel);
                         return Err(Self::overflow_error(published_tail, head));
                     }
-                    return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
+                    return Ok(Some(&array[(head % RING_BUFFER_SIZE as u64) as usize]))
                 },
                 Err(reloaded_head) => head = reloaded_head,
             }
@@ -186,7 +186,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let mut head = self.head.load(Ordering::Acquire);
         let mut published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         // slots already reserved are also taken into account, as they might be being overwritten right now
-        while self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+        while self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u64 {
             match self.head.compare_exchange(head, head, Ordering::AcqRel, Ordering::Acquire) {
                 Ok(_) => return Err(Self::overflow_error(published_tail, head)),
                 Err(reloaded_head) => {
@@ -195,8 +195,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 },
             }
         }
-        let head_index           = head as usize % RING_BUFFER_SIZE;
-        let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
+        let head_index           = (head % RING_BUFFER_SIZE as u64) as usize;
+        let published_tail_index = (published_tail % RING_BUFFER_SIZE as u64) as usize;
         if head == published_tail {
             Ok([&[],&[]])
         } else if head_index < published_tail_index {
@@ -216,7 +216,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         }
     }
 
-    fn overflow_error(published_tail: u32, head: u32) -> RingBufferOverflowError {
+    fn overflow_error(published_tail: u64, head: u64) -> RingBufferOverflowError {
         RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
     }
 
-- 
2.43.0


From 36cb736c34bb8aa5a6aef5efa717dedc6a13b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 06/21] fix: metrics allocator: requests refused by the system
 are no longer accounted for

---
 src/metrics_allocator/metrics_allocator.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..6e271e1 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -267,20 +267,30 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let ptr = self.system_allocator.alloc(layout);
+        // refused requests are not accounted for
+        if !ptr.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let ptr = self.system_allocator.alloc_zeroed(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let new_ptr = self.system_allocator.realloc(ptr, layout, new_size);
+        if !new_ptr.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        new_ptr
     }
 }
 
-- 
2.43.0


From 34b3c0e7623647782372b659b021255f04d0fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 07/21] fix: metrics allocator: used memory peaks are no longer
 missed -- nor reported inconsistently -- when other threads are
 (de)allocating while save points are taken or read

---
 src/metrics_allocator/metrics_allocator.rs | 43 +++++++++++++---------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 6e271e1..6a5ac7d 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -142,13 +142,13 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     pub fn save_point(&self) -> MetricsAllocatorSavePoint<RING_BUFFER_SIZE> {
         // add the current (min,max) to the ring buffer and start a new counter
         // the new consumer will consume any further saved_points + the current (min,max)
+        // (swapping them, so no concurrent (min,max) updates are lost)
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
         self.used_memory_ring_buffer.enqueue(SavePointRingBufferSlot {
-            min_used_memory: self.statistics.min_used_memory.load(Ordering::Relaxed),
-            max_used_memory: self.statistics.max_used_memory.load(Ordering::Relaxed),
+            min_used_memory: self.statistics.min_used_memory.swap(current_used_memory, Ordering::Relaxed),
+            max_used_memory: self.statistics.max_used_memory.swap(current_used_memory, Ordering::Relaxed),
         });
         let used_memory_ring_buffer_consumer = self.used_memory_ring_buffer.consumer();
-        self.statistics.min_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
-        self.statistics.max_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
         MetricsAllocatorSavePoint {
             metrics: MetricsAllocatorStatistics {
                 allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed),
@@ -160,7 +160,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed),
                 reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed),
                 reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed),
-                current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+                current_used_memory,
                 min_used_memory:             self.statistics.min_used_memory            .load(Ordering::Relaxed),
                 max_used_memory:             self.statistics.max_used_memory            .load(Ordering::Relaxed),
             },
@@ -171,6 +171,10 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     /// Returns the allocation statistics between now and the point in time when `save_point` was generated
     /// (with a call to [save_point()](MetricsAllocator::save_point())).
     pub fn delta_statistics(&self, save_point: &MetricsAllocatorSavePoint<RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
+        // the amount of used memory reported here is always within (min,max) -- for this & further readings, even if the thread
+        // responsible for it didn't have the time to account for it yet
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(current_used_memory);
         let mut min = usize::MAX;
         let mut max = usize::MIN;
         // compute (min,max) since the given 'save_point'
@@ -193,7 +197,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
             zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed) - save_point.metrics.zeroed_allocated_bytes,
             reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed) - save_point.metrics.reallocated_originals_bytes,
             reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed) - save_point.metrics.reallocated_news_bytes,
-            current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+            current_used_memory,
             min_used_memory:             min,
             max_used_memory:             max,
         })
@@ -203,24 +207,24 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     fn compute_alloc_metrics(&self, layout: &Layout) {
         self.statistics.allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let current_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed) + layout.size();
+        self.compute_min_and_max_used_memories(current_used_memory);
     }
 
     /// compute metrics for de-allocation
     fn compute_dealloc_metrics(&self, layout: &Layout) {
         self.statistics.deallocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.deallocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let current_used_memory = self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed) - layout.size();
+        self.compute_min_and_max_used_memories(current_used_memory);
     }
 
     /// compute metrics for zeroed allocation
     fn compute_alloc_zeroed_metrics(&self, layout: &Layout) {
         self.statistics.zeroed_allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.zeroed_allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let current_used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed) + layout.size();
+        self.compute_min_and_max_used_memories(current_used_memory);
     }
 
     /// compute metrics for re-allocation
@@ -229,16 +233,19 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         self.statistics.reallocated_originals_bytes.fetch_add(layout.size(), Ordering::Relaxed);
         self.statistics.reallocated_news_bytes.fetch_add(new_size, Ordering::Relaxed);
         if new_size > layout.size() {
-            self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            let growth = new_size-layout.size();
+            let current_used_memory = self.statistics.current_used_memory.fetch_add(growth, Ordering::Relaxed) + growth;
+            self.compute_min_and_max_used_memories(current_used_memory);
         } else if new_size < layout.size() {
-            self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            let shrinkage = layout.size()-new_size;
+            let current_used_memory = self.statistics.current_used_memory.fetch_sub(shrinkage, Ordering::Relaxed) - shrinkage;
+            self.compute_min_and_max_used_memories(current_used_memory);
         }
-        self.compute_min_and_max_used_memories();
     }
 
-    /// helper functions for metrics computation
-    fn compute_min_and_max_used_memories(&self) {
-        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+    /// helper functions for metrics computation -- `current_used_memory` must be the exact value an operation took it to,
+    /// as reloading it could miss peaks when other threads are (de)allocating as well
+    fn compute_min_and_max_used_memories(&self, current_used_memory: usize) {
         let mut min_used_memory = self.statistics.min_used_memory.load(Ordering::Relaxed);
         loop {
             if current_used_memory < min_used_memory {
-- 
2.43.0


From c4d7fd0ce64c125e439fc71ed606471ceb8a0ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 08/21] fix: complexity analysis: resources not used in any of
 the passes are O(1) -- instead of worse than exponential

---
 src/low_level_analysis/low_level_analysis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..8ca76e4 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,7 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
-    if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // also covers resources not used in any of the passes, for which the proportions bellow are not defined
+        BigOAlgorithmComplexity::O1
+    } else if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
@@ -52,7 +55,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
-    if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
+    if u1 == u2 {
+        // also covers resources not used in any of the passes, for which the proportions bellow are not defined
+        BigOAlgorithmComplexity::O1
+    } else if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
-- 
2.43.0


From f4b6512fc753f7fe175f152a6d6888675e572532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 09/21] fix: CRUD analysis: operations with 0 threads are
 skipped -- as documented -- instead of causing a division by zero

---
 src/runners/crud.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..9b1a828 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -218,6 +218,12 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                                              CRUDComplexityAnalysisError>
                                    where PassResult: Copy {
 
+    // operations with no threads to run on are disabled, just like the ones with no iterations
+    let create_iterations_per_pass = if create_threads > 0 { create_iterations_per_pass } else { 0 };
+    let   read_iterations_per_pass = if   read_threads > 0 {   read_iterations_per_pass } else { 0 };
+    let update_iterations_per_pass = if update_threads > 0 { update_iterations_per_pass } else { 0 };
+    let delete_iterations_per_pass = if delete_threads > 0 { delete_iterations_per_pass } else { 0 };
+
     let mut full_report = String::with_capacity(2048);
 
     // wrap around the original 'OUTPUT' function to capture the [full_report]
-- 
2.43.0


From 7979f7a598ebfca55d08f8b56d9884ec1d7c33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 10/21] fix: CRUD analysis: no element is left out of a pass
 when the number of threads doesn't divide the number of iterations

---
 src/runners/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..f5ec75c 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -122,11 +122,12 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
 
         // start all threads
         let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        // where the chunk of the n-th thread starts -- chunks differ by 1 element, at most, if `threads` don't divide the range evenly
+        let chunk_start = |n: i32| i32_range.start + ((i32_range.end-i32_range.start) as i64 * n as i64 / threads as i64) as i32;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
         for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
+            let chunked_range = chunk_start(n)..chunk_start(n+1);
             thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
         }
 
-- 
2.43.0


From f7152c6937a6fa016096ca8e438b87393c5b18f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 11/21] fix: CRUD analysis: calculation of the warm-up
 iterations no longer overflows for more than 42 million iterations per pass

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 9b1a828..71b0135 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -437,8 +437,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_iterations = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_iterations(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_iterations(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -464,7 +465,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_iterations(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From 8d39e85d76779ae25df2688acf33913f21764a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 12/21] fix: CRUD tests: no longer pass without running the
 algorithms: neither when there are no retries nor when retrying with just a
 few iterations

---
 src/runners/crud.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 71b0135..c9a4f15 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -46,7 +46,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
         match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
-                0 => iterations_per_pass / factor,
+                0 => (iterations_per_pass / factor).max(iterations_per_pass.min(1)),    // don't let the retry disable the operation
                 1 => iterations_per_pass - (iterations_per_pass / factor),
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // at least one attempt is always performed
+    let max_retry_attempts = max_retry_attempts.max(1);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From fa540be3caaf6b490840aaec6260f5c916861683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 13/21] fix: reports: the auxiliary space calculation no longer
 overflows when the memory figures of the first pass are not available

---
 src/low_level_analysis/types/types_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..fcfe493 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -154,8 +154,8 @@ impl BigOSpaceMeasurements {
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
     pub fn used_auxiliary_space(&self) -> usize {
-        self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before) +
-            self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before)
+        (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
+            (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
     }
 }
 impl Display for BigOSpaceMeasurements {
-- 
2.43.0


From ff3fb37ae2d9b0904f95731000b280f75e126ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 14/21] fix: reports: the sign of a pass' memory figure is no
 longer lost when more than 16MiB were already in use

---
 src/low_level_analysis/types/types_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index fcfe493..7bb18ac 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -186,8 +186,7 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0


From 8b414fc0cf4b5c89c6853eeed7244d93b10c9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 15/21] fix: reports: the number of elements after the second
 pass of set resizing algorithms no longer overflows 32 bits

---
 src/low_level_analysis/types/types_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 7bb18ac..40357b3 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -139,7 +139,7 @@ impl Display for SetResizingIteratorAlgorithmMeasurements<'_> {
                    2) {:>13}  {:>14}  {:>12}  {:>12.3?}\n",
                self.measurement_name,
                pass_1_time, pass_1_space, self.passes_info.delta_set_size,   Duration::from_secs_f64(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64),
-               pass_2_time, pass_2_space, self.passes_info.delta_set_size*2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
+               pass_2_time, pass_2_space, self.passes_info.delta_set_size as u64 * 2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
     }
 }
 
-- 
2.43.0


From 388ba02f6c77ee073b3f0881669ca0feeeeb509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 16/21] fix: features: no_report, report_stderr &
 tolerance_25_percent now prevail over the default features, instead of being
 ignored or failing to compile

---
 src/features.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features.rs b/src/features.rs
index c4d4cf0..b1da332 100644
--- a/src/features.rs
+++ b/src/features.rs
@@ -4,7 +4,7 @@
 use std::io::{stdout,stderr,Write};
 use crate::metrics_allocator::MetricsAllocator;
 
-#[cfg(any(feature = "tolerance_10_percent", not(any(feature = "tolerance_25_percent"))))]
+#[cfg(not(feature = "tolerance_25_percent"))]
 /// acceptable proportional variance (acceptable measurement errors) when analysing algorithm's time & space complexities
 pub const PERCENT_TOLERANCE: f64 = 0.10;
 
@@ -12,15 +12,15 @@ pub const PERCENT_TOLERANCE: f64 = 0.10;
 /// acceptable proportional variance (acceptable measurement errors) when analysing algorithm's time & space complexities
 pub const PERCENT_TOLERANCE: f64 = 0.25;
 
-#[cfg(feature = "report_stdout")]
+#[cfg(all(feature = "report_stdout", not(feature = "report_stderr"), not(feature = "no_report")))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = stdout_write;
 
-#[cfg(feature = "report_stderr")]
+#[cfg(all(feature = "report_stderr", not(feature = "no_report")))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = stderr_write;
 
-#[cfg(not(any(feature = "report_stdout", feature = "report_stderr")))]
+#[cfg(any(feature = "no_report", not(any(feature = "report_stdout", feature = "report_stderr"))))]
 /// Function to output an `&str` -- used to sink analysis reports -- controlled by the crate's features (stdout, stderr, no_output)
 pub const OUTPUT: fn(&str) = null_write;
 
-- 
2.43.0


From 887a86de27ffc90bbedde53b259b9297970cd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 17/21] verification hook: crate-private measurements module
 reachable under cfg(big_o_mc)

---
 src/lib.rs                                         | 8 ++++++++
 src/utils/measurements/presentable_measurements.rs | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..cc6f961 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]   // for the `big_o_mc` verification hooks
 
 
 mod api;
@@ -9,6 +10,13 @@ pub mod metrics_allocator;
 mod features;
 pub(crate) mod utils;
 
+/// Verification hook: crate-private modules
+#[cfg(big_o_mc)]
+#[doc(hidden)]
+pub mod mc_hooks {
+    pub use crate::utils::measurements;
+}
+
 // exported symbols
 pub use {
     features::{ALLOC, OUTPUT},
diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2737e5a..2706bca 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -178,6 +178,12 @@ fn custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) ->
     }
 }
 
+/// Verification hook: lets [custom_unit_per_second_measurement()] be reached from outside this module
+#[cfg(big_o_mc)]
+pub fn mc_custom_unit_per_second_measurement(value: f64, custom_unit: &'static str) -> PresentableMeasurement {
+    custom_unit_per_second_measurement(value, custom_unit)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e38d794f763271623dffa2a6631685ad29575509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 18/21] fix: chunk iterator ranges in 64 bits, as elements
 beyond 2^31 overflowed the 32 bit arithmetic

---
 src/runners/common.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index f5ec75c..4f354cf 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,9 +121,10 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
+        // (64 bits: elements of large sets are numbered beyond what fits in an `i32`)
+        let i64_range = range.end as i64 .. range.start as i64;
         // where the chunk of the n-th thread starts -- chunks differ by 1 element, at most, if `threads` don't divide the range evenly
-        let chunk_start = |n: i32| i32_range.start + ((i32_range.end-i32_range.start) as i64 * n as i64 / threads as i64) as i32;
+        let chunk_start = |n: i32| i64_range.start + (i64_range.end-i64_range.start) * n as i64 / threads as i64;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
         for n in 0..threads as i32 {
-- 
2.43.0


From cd0932f2e34ea16a093e04fc617ddfa655a6d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:14 +0000
Subject: [PATCH 19/21] fix: CRUD tests reserved memory for every attempt
 allowed, aborting when too many were

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index c9a4f15..fa88118 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -58,7 +58,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     // at least one attempt is always performed
     let max_retry_attempts = max_retry_attempts.max(1);
 
-    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
+    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::new();
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
     // the maximum acceptable create, read, update or delete 'expected_*_time_complexity'(ies)
-- 
2.43.0


From 29d19e81d30f0c591910bcda3514b2216f200abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:02 +0000
Subject: [PATCH 20/21] fix: printing measurements of the longest times
 panicked

---
 src/low_level_analysis/types/types_impl.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 40357b3..1e05394 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -48,6 +48,11 @@ impl BigOAlgorithmComplexity {
 }
 
 
+/// `secs` as a [Duration] -- the longest there is, if the rounding done by the floating point math took it beyond that
+fn duration_from_secs(secs: f64) -> Duration {
+    Duration::try_from_secs_f64(secs).unwrap_or(Duration::MAX)
+}
+
 impl<T: BigOAlgorithmMeasurements> Display for BigOAlgorithmAnalysis<T> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}\
@@ -82,11 +87,11 @@ impl Display for AlgorithmMeasurements<'_> {
 
                pass_1_time, pass_1_space, self.passes_info.pass1_n,
                pass_1_space_per_n,
-               Duration::from_secs_f64(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.pass1_n as f64),
+               duration_from_secs(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.pass1_n as f64),
 
                pass_2_time, pass_2_space, self.passes_info.pass2_n,
                pass_2_space_per_n,
-               Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.pass2_n as f64)
+               duration_from_secs(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.pass2_n as f64)
         )
     }
 }
@@ -112,11 +117,11 @@ impl Display for ConstantSetIteratorAlgorithmMeasurements<'_> {
 
                pass_1_time, pass_1_space, self.passes_info.pass_1_set_size,
                self.passes_info.repetitions,
-               Duration::from_secs_f64(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.repetitions as f64),
+               duration_from_secs(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.repetitions as f64),
 
                pass_2_time, pass_2_space, self.passes_info.pass_2_set_size,
                self.passes_info.repetitions,
-               Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.repetitions as f64),
+               duration_from_secs(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.repetitions as f64),
         )
     }
 }
@@ -138,8 +143,8 @@ impl Display for SetResizingIteratorAlgorithmMeasurements<'_> {
                    1) {:>13}  {:>14}  {:>12}  {:>12.3?}\n\
                    2) {:>13}  {:>14}  {:>12}  {:>12.3?}\n",
                self.measurement_name,
-               pass_1_time, pass_1_space, self.passes_info.delta_set_size,   Duration::from_secs_f64(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64),
-               pass_2_time, pass_2_space, self.passes_info.delta_set_size as u64 * 2, Duration::from_secs_f64(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
+               pass_1_time, pass_1_space, self.passes_info.delta_set_size,   duration_from_secs(self.time_measurements.pass_1_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64),
+               pass_2_time, pass_2_space, self.passes_info.delta_set_size as u64 * 2, duration_from_secs(self.time_measurements.pass_2_measurements.as_secs_f64() / self.passes_info.delta_set_size as f64))
     }
 }
 
-- 
2.43.0


From 213ecae2da6ba71f671976f1616886906e5440e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:02 +0000
Subject: [PATCH 21/21] fix: presenting the longest durations panicked

---
 src/utils/measurements/presentable_measurements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/measurements/presentable_measurements.rs b/src/utils/measurements/presentable_measurements.rs
index 2706bca..41afd33 100644
--- a/src/utils/measurements/presentable_measurements.rs
+++ b/src/utils/measurements/presentable_measurements.rs
@@ -34,7 +34,7 @@ impl Display for PresentableMeasurement {
             ":.2"  => write!(f, "{:.2}{}",  scaled_value, suffix),
             ":.3"  => write!(f, "{:.3}{}",  scaled_value, suffix),
             ":.3e" => write!(f, "{:.3e}{}", scaled_value, suffix),
-            ":D"   => write!(f, "{:?}",     Duration::from_secs_f64(scaled_value)),
+            ":D"   => write!(f, "{:?}",     Duration::try_from_secs_f64(scaled_value).unwrap_or(Duration::MAX)),   // rounding might go beyond the longest duration there is
             _ => panic!("Unknown format '{format}'. Please update this code")
         }
     }
-- 
2.43.0

