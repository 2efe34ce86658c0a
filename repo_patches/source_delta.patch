From 5c9da914c299979a7024b692c032a9bd3bc7fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:56 +0000
Subject: [PATCH 01/13] fix: give the key to the entry returned by sync
 or_try_insert_with on an existing key

sync::RefKeyEntrySelector::or_try_insert_with returned an Entry without key when the
entry was present, and Entry::key() panicked.
---
 src/sync/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index ce25f7c..858cd82 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1419,7 +1419,7 @@ where
         E: Send + Sync + 'static,
         Q: Equivalent<K> + ToOwned<Owned = K> + Hash + ?Sized,
     {
-        if let Some(entry) = self.get_with_hash(key, hash, false) {
+        if let Some(entry) = self.get_with_hash(key, hash, need_key) {
             return Ok(entry);
         }
 
-- 
2.43.0


From da763361ee94c28b8fa80a06bfdb47fb3edd0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:04 +0000
Subject: [PATCH 02/13] fix: treat an entry replaced at the instant it expires
 as expired when its expiration is recomputed

The duration passed to Expiry::expire_after_update (and _read) was Some(0) for
an entry whose expiration time is now. Returning it kept the old expiration
time, so that the new value was already expired.
---
 src/future/base_cache.rs | 6 +++++-
 src/sync/base_cache.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ea2b280..4b41bad 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -819,9 +819,13 @@ impl<K, V, S> BaseCache<K, V, S> {
         .flatten()
         .min();
 
+        // An entry is expired when its expiration time has come. (It is not only when
+        // the time has passed). So there is no remaining duration if it is zero.
         let current_duration = exp_time.and_then(|time| {
             let std_time = clock.to_std_instant(time);
-            std_time.checked_duration_since(current_time)
+            std_time
+                .checked_duration_since(current_time)
+                .filter(|d| !d.is_zero())
         });
 
         let duration = expiry(key, &value_entry.value, current_time, current_duration);
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce1acb7..372e647 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -689,9 +689,13 @@ impl<K, V, S> BaseCache<K, V, S> {
         .flatten()
         .min();
 
+        // An entry is expired when its expiration time has come. (It is not only when
+        // the time has passed). So there is no remaining duration if it is zero.
         let current_duration = exp_time.and_then(|time| {
             let std_time = clock.to_std_instant(time);
-            std_time.checked_duration_since(current_time)
+            std_time
+                .checked_duration_since(current_time)
+                .filter(|d| !d.is_zero())
         });
 
         let duration = expiry(key, &value_entry.value, current_time, current_duration);
-- 
2.43.0


From 9980301333a35880bc7be8a255917e26c78721b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:02 +0000
Subject: [PATCH 03/13] fix: apply invalidate_entries_if predicates to every
 entry

The scan over the write order queue consumed one node per batch without
processing it (a peek on the cursor), could start from a stale cursor left by
an earlier scan, and dropped predicates registered after the write logs had
been applied. Entries missed by the scan became visible again when the
predicates were dropped.

Now a scan begins from the front of the queue, never skips a node, and only
drops the predicates chosen before the write logs were applied.
---
 src/future/base_cache.rs  | 53 ++++++++++++++++++++++--------------
 src/future/invalidator.rs | 56 +++++++++++++++++++++++----------------
 src/sync/base_cache.rs    | 54 ++++++++++++++++++++++---------------
 src/sync/invalidator.rs   | 54 ++++++++++++++++++++++---------------
 4 files changed, 131 insertions(+), 86 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 4b41bad..d6845b9 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1,6 +1,6 @@
 use super::{
     housekeeper::Housekeeper,
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, PredicateFun, ScanState},
     key_lock::{KeyLock, KeyLockMap},
     notifier::RemovalNotifier,
     InterruptedOp, PredicateId,
@@ -1324,7 +1324,19 @@ where
             EvictionState::new(current_ec, current_ws, self.removal_notifier.as_ref());
 
         loop {
+            let mut scan_state = ScanState::NoScan;
+
             if should_process_logs {
+                // Choose the invalidation predicates to be applied in this loop before
+                // applying the write logs below. By doing so, all entries written
+                // before these predicates were registered will be in the write order
+                // queue when it is scanned.
+                if let Some(invalidator) = &self.invalidator {
+                    if !invalidator.is_empty() {
+                        scan_state = invalidator.begin_scan().await;
+                    }
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
@@ -1390,6 +1402,7 @@ where
                 if !invalidator.is_empty() {
                     self.invalidate_entries(
                         invalidator,
+                        scan_state,
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
@@ -2361,6 +2374,7 @@ where
     async fn invalidate_entries(
         &self,
         invalidator: &Invalidator<K, V, S>,
+        scan_state: ScanState,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
@@ -2368,20 +2382,25 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
-        // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
-        if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+        if scan_state == ScanState::NoScan {
+            // The predicates have been registered after the write logs were applied.
+            // Leave them for the next maintenance run.
+            eviction_state.more_entries_to_evict = true;
             return;
         }
 
+        if scan_state == ScanState::New {
+            // The cursor may have been left in the middle of the queue.
+            deqs.write_order.reset_cursor();
+        }
+
         let mut candidates = Vec::default();
         let mut len = 0;
-        let has_next;
+        let mut has_next = true;
         {
-            let iter = &mut deqs.write_order.peekable();
+            // NOTE: Taking a node from this iterator will advance the cursor of the
+            // queue. So do not take (or peek) a node without processing it.
+            let iter = &mut &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2394,28 +2413,22 @@ where
                         }
                     }
                 } else {
+                    has_next = false;
                     break;
                 }
             }
-
-            has_next = iter.peek().is_some();
-        }
-
-        if len == 0 {
-            return;
         }
 
-        let is_truncated = len == batch_size && has_next;
-        let (invalidated, is_done) = invalidator
+        // The scan is truncated if it has not reached the end of the queue. If it has
+        // reached, the predicates will be removed.
+        let is_truncated = has_next;
+        let invalidated = invalidator
             .scan_and_invalidate(self, candidates, is_truncated)
             .await;
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
         }
-        if is_done {
-            deqs.write_order.reset_cursor();
-        }
         if !invalidator.is_empty() {
             eviction_state.more_entries_to_evict = true;
         }
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5c48cd1..68b917f 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -48,6 +48,17 @@ impl<K> KeyDateLite<K> {
     }
 }
 
+/// The state of the scan over the cache entries to apply the predicates.
+#[derive(Clone, Copy, PartialEq, Eq)]
+pub(crate) enum ScanState {
+    /// There is no predicate to apply.
+    NoScan,
+    /// A new scan has begun. It must start from the front of the write order queue.
+    New,
+    /// The scan has begun in an earlier maintenance run, and should be continued.
+    Ongoing,
+}
+
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
     is_empty: AtomicBool,
@@ -79,27 +90,30 @@ impl<K, V, S> Invalidator<K, V, S> {
         self.is_empty.load(Ordering::Acquire)
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    /// Prepares the predicates to be applied by the current scan over the cache
+    /// entries.
+    ///
+    /// If there is no ongoing scan, starts a new one with all the predicates
+    /// registered so far.
+    ///
+    /// This must be called before applying the write logs. When the scan ends, these
+    /// predicates will be removed, so all entries written before they were registered
+    /// must be found in the write order queue.
+    pub(crate) async fn begin_scan(&self) -> ScanState
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
-        S: BuildHasher,
+        S: BuildHasher + Send + Sync + 'static,
     {
-        let pred_map = &self.predicates;
-
-        let removing_ids = pred_map
-            .iter()
-            .filter(|(_, pred)| pred.registered_at <= ts)
-            .map(|(id, _)| id)
-            .collect::<Vec<_>>();
-
-        for id in removing_ids {
-            let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
+        let mut predicates = self.scan_context.predicates.lock().await;
+        if !predicates.is_empty() {
+            return ScanState::Ongoing;
         }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+        *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+        if predicates.is_empty() {
+            ScanState::NoScan
+        } else {
+            ScanState::New
         }
     }
 
@@ -165,17 +179,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
-    ) -> (Vec<KvEntry<K, V>>, bool)
+    ) -> Vec<KvEntry<K, V>>
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
-        let mut predicates = self.scan_context.predicates.lock().await;
-        if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
-        }
-
+        let predicates = self.scan_context.predicates.lock().await;
         let mut invalidated = Vec::default();
         let mut newest_timestamp = None;
 
@@ -196,7 +206,7 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        invalidated
     }
 }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 372e647..df7584c 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1,5 +1,5 @@
 use super::{
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, PredicateFun, ScanState},
     key_lock::{KeyLock, KeyLockMap},
     PredicateId,
 };
@@ -1199,7 +1199,19 @@ where
             EvictionState::new(current_ec, current_ws, self.removal_notifier.as_ref());
 
         loop {
+            let mut scan_state = ScanState::NoScan;
+
             if should_process_logs {
+                // Choose the invalidation predicates to be applied in this loop before
+                // applying the write logs below. By doing so, all entries written
+                // before these predicates were registered will be in the write order
+                // queue when it is scanned.
+                if let Some(invalidator) = &self.invalidator {
+                    if !invalidator.is_empty() {
+                        scan_state = invalidator.begin_scan();
+                    }
+                }
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
@@ -1252,6 +1264,7 @@ where
                 if !invalidator.is_empty() {
                     self.invalidate_entries(
                         invalidator,
+                        scan_state,
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
@@ -2164,6 +2177,7 @@ where
     fn invalidate_entries(
         &self,
         invalidator: &Invalidator<K, V, S>,
+        scan_state: ScanState,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
@@ -2171,20 +2185,25 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
-        // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
-        if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+        if scan_state == ScanState::NoScan {
+            // The predicates have been registered after the write logs were applied.
+            // Leave them for the next maintenance run.
+            eviction_state.more_entries_to_evict = true;
             return;
         }
 
+        if scan_state == ScanState::New {
+            // The cursor may have been left in the middle of the queue.
+            deqs.write_order.reset_cursor();
+        }
+
         let mut candidates = Vec::new();
         let mut len = 0;
-        let has_next;
+        let mut has_next = true;
         {
-            let iter = &mut deqs.write_order.peekable();
+            // NOTE: Taking a node from this iterator will advance the cursor of the
+            // queue. So do not take (or peek) a node without processing it.
+            let iter = &mut &mut deqs.write_order;
 
             while len < batch_size {
                 if let Some(kd) = iter.next() {
@@ -2197,27 +2216,20 @@ where
                         }
                     }
                 } else {
+                    has_next = false;
                     break;
                 }
             }
-
-            has_next = iter.peek().is_some();
-        }
-
-        if len == 0 {
-            return;
         }
 
-        let is_truncated = len == batch_size && has_next;
-        let (invalidated, is_done) =
-            invalidator.scan_and_invalidate(self, candidates, is_truncated);
+        // The scan is truncated if it has not reached the end of the queue. If it has
+        // reached, the predicates will be removed.
+        let is_truncated = has_next;
+        let invalidated = invalidator.scan_and_invalidate(self, candidates, is_truncated);
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
         }
-        if is_done {
-            deqs.write_order.reset_cursor();
-        }
         if !invalidator.is_empty() {
             eviction_state.more_entries_to_evict = true;
         }
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index f5ff7dc..e27455e 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -48,6 +48,17 @@ impl<K> KeyDateLite<K> {
     }
 }
 
+/// The state of the scan over the cache entries to apply the predicates.
+#[derive(Clone, Copy, PartialEq, Eq)]
+pub(crate) enum ScanState {
+    /// There is no predicate to apply.
+    NoScan,
+    /// A new scan has begun. It must start from the front of the write order queue.
+    New,
+    /// The scan has begun in an earlier maintenance run, and should be continued.
+    Ongoing,
+}
+
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
     is_empty: AtomicBool,
@@ -79,27 +90,30 @@ impl<K, V, S> Invalidator<K, V, S> {
         self.is_empty.load(Ordering::Acquire)
     }
 
-    pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
+    /// Prepares the predicates to be applied by the current scan over the cache
+    /// entries.
+    ///
+    /// If there is no ongoing scan, starts a new one with all the predicates
+    /// registered so far.
+    ///
+    /// This must be called before applying the write logs. When the scan ends, these
+    /// predicates will be removed, so all entries written before they were registered
+    /// must be found in the write order queue.
+    pub(crate) fn begin_scan(&self) -> ScanState
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        let pred_map = &self.predicates;
-
-        let removing_ids = pred_map
-            .iter()
-            .filter(|(_, pred)| pred.registered_at <= ts)
-            .map(|(id, _)| id)
-            .collect::<Vec<_>>();
-
-        for id in removing_ids {
-            let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
+        let mut predicates = self.scan_context.predicates.lock();
+        if !predicates.is_empty() {
+            return ScanState::Ongoing;
         }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+        *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+        if predicates.is_empty() {
+            ScanState::NoScan
+        } else {
+            ScanState::New
         }
     }
 
@@ -165,17 +179,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
-    ) -> (Vec<KvEntry<K, V>>, bool)
+    ) -> Vec<KvEntry<K, V>>
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
-        let mut predicates = self.scan_context.predicates.lock();
-        if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
-        }
-
+        let predicates = self.scan_context.predicates.lock();
         let mut invalidated = Vec::default();
         let mut newest_timestamp = None;
 
@@ -196,7 +206,7 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        invalidated
     }
 }
 
-- 
2.43.0


From 63befd4b875e057c650eae2824e3a3493b7f20c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:06 +0000
Subject: [PATCH 04/13] fix: keep recording the policy generation of an entry
 after it wraps around

set_policy_gen ignored all values after the policy generation had reached
u16::MAX, so an entry updated more than 65535 times stayed dirty forever and
was never evicted, expired or invalidated.
---
 src/common/concurrent/entry_info.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 8791a0d..f1511a7 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -105,11 +105,9 @@ impl<K> EntryInfo<K> {
         loop {
             let current = g.load(Ordering::Acquire);
 
-            // Do not set the given value if it is smaller than the current value of
-            // `policy_gen`. Note that the current value may have been wrapped
-            // around. If the value is much larger than the current value, it is
-            // likely that the value of `policy_gen` has been wrapped around.
-            if current >= value || value.wrapping_sub(current) > u16::MAX / 2 {
+            // Do not set the given value if it is not newer than the current value of
+            // `policy_gen`. Note that generations wrap around on overflow.
+            if !Self::is_newer_gen(value, current) {
                 break;
             }
 
@@ -122,6 +120,14 @@ impl<K> EntryInfo<K> {
         }
     }
 
+    /// Returns `true` if the generation `a` is newer than the generation `b`. Since
+    /// generations wrap around on overflow, `a` is newer when it is ahead of `b` by
+    /// less than a half of the range.
+    #[inline]
+    fn is_newer_gen(a: u16, b: u16) -> bool {
+        a != b && a.wrapping_sub(b) <= u16::MAX / 2
+    }
+
     #[inline]
     pub(crate) fn policy_weight(&self) -> u32 {
         self.policy_weight.load(Ordering::Acquire)
-- 
2.43.0


From 5e4aefd339d4498cd8012e484684987ac4cf2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:31 +0000
Subject: [PATCH 05/13] fix: ignore write ops applied out of order, and keep
 the policy weight for the applied ops

Write ops of an entry can be sent to the channel in a different order than the
order of the updates on the hash map. An upsert applied after the removal of
the entry left a ghost in the policies (counted forever, taking up capacity),
and updates applied in a wrong order made the weighted size drift, because the
weight to subtract was the one of the hash map, not the one counted so far.
---
 src/common/concurrent.rs            |  5 ----
 src/common/concurrent/entry_info.rs |  6 +++++
 src/future/base_cache.rs            | 38 ++++++++++++++++++-----------
 src/sync/base_cache.rs              | 38 ++++++++++++++++++-----------
 4 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index eb8fec4..133e9d5 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -315,7 +315,6 @@ pub(crate) enum WriteOp<K, V> {
         value_entry: MiniArc<ValueEntry<K, V>>,
         /// Entry generation after the operation.
         entry_gen: u16,
-        old_weight: u32,
         new_weight: u32,
     },
     Remove {
@@ -333,13 +332,11 @@ impl<K, V> Clone for WriteOp<K, V> {
                 key_hash,
                 value_entry,
                 entry_gen,
-                old_weight,
                 new_weight,
             } => Self::Upsert {
                 key_hash: key_hash.clone(),
                 value_entry: MiniArc::clone(value_entry),
                 entry_gen: *entry_gen,
-                old_weight: *old_weight,
                 new_weight: *new_weight,
             },
             Self::Remove {
@@ -368,7 +365,6 @@ impl<K, V> WriteOp<K, V> {
         hash: u64,
         value_entry: &MiniArc<ValueEntry<K, V>>,
         entry_generation: u16,
-        old_weight: u32,
         new_weight: u32,
     ) -> Self {
         let key_hash = KeyHash::new(Arc::clone(key), hash);
@@ -377,7 +373,6 @@ impl<K, V> WriteOp<K, V> {
             key_hash,
             value_entry,
             entry_gen: entry_generation,
-            old_weight,
             new_weight,
         }
     }
diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index f1511a7..867fc95 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -120,6 +120,12 @@ impl<K> EntryInfo<K> {
         }
     }
 
+    /// Returns `true` if the given generation is newer than the policy generation.
+    #[inline]
+    pub(crate) fn is_newer_than_policy_gen(&self, gen: u16) -> bool {
+        Self::is_newer_gen(gen, self.policy_gen.load(Ordering::Acquire))
+    }
+
     /// Returns `true` if the generation `a` is newer than the generation `b`. Since
     /// generations wrap around on overflow, `a` is newer when it is ahead of `b` by
     /// less than a half of the range.
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index d6845b9..6655134 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -515,21 +515,19 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
                 op1 = Some((cnt, ins_op));
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
-                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
                 op2 = Some((cnt, old_info, upd_op));
                 entry
@@ -768,7 +766,6 @@ impl<K, V, S> BaseCache<K, V, S> {
         &self,
         value: V,
         timestamp: Instant,
-        policy_weight: u32,
         other: &ValueEntry<K, V>,
     ) -> (MiniArc<ValueEntry<K, V>>, u16) {
         let info = MiniArc::clone(other.entry_info());
@@ -777,7 +774,7 @@ impl<K, V, S> BaseCache<K, V, S> {
         let gen = info.incr_entry_gen();
         info.set_last_accessed(timestamp);
         info.set_last_modified(timestamp);
-        info.set_policy_weight(policy_weight);
+        // NOTE: `policy_weight` will be updated when the `WriteOp` is applied.
         (MiniArc::new(ValueEntry::new_from(value, info, other)), gen)
     }
 
@@ -1577,14 +1574,12 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => {
                     self.handle_upsert(
                         kh,
                         entry,
                         gen,
-                        old_weight,
                         new_weight,
                         deqs,
                         timer_wheel,
@@ -1616,7 +1611,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1625,13 +1619,24 @@ where
     ) where
         V: Clone,
     {
+        if !entry.entry_info().is_newer_than_policy_gen(gen) {
+            // A newer `WriteOp` of this entry has been already applied, or the entry
+            // has been evicted. (`WriteOp`s of the same entry can be sent in a
+            // different order than the order of the updates on the hash map)
+            if entry.is_admitted() {
+                self.update_timer_wheel(&entry, timer_wheel);
+            }
+            return;
+        }
+
         {
             let counters = &mut eviction_state.counters;
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
+                counters.saturating_sub(0, entry.policy_weight());
                 counters.saturating_add(0, new_weight);
+                entry.entry_info().set_policy_weight(new_weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1880,6 +1885,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_policy_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1991,9 +1997,10 @@ where
         } else {
             entry.unset_q_nodes();
         }
-        if let Some(g) = gen {
-            entry.entry_info().set_policy_gen(g);
-        }
+        // When `gen` is `None`, the entry has been evicted from the hash map and will
+        // never be updated.
+        let g = gen.unwrap_or_else(|| entry.entry_info().entry_gen());
+        entry.entry_info().set_policy_gen(g);
     }
 
     fn handle_remove_with_deques(
@@ -2021,6 +2028,9 @@ where
         } else {
             entry.unset_q_nodes();
         }
+        // The entry has been evicted from the hash map and will never be updated.
+        let g = entry.entry_info().entry_gen();
+        entry.entry_info().set_policy_gen(g);
     }
 
     async fn evict_expired_entries_using_timers(
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index df7584c..526d015 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -515,21 +515,19 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
                 op1 = Some((cnt, ins_op));
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
-                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
                 op2 = Some((cnt, old_info, upd_op));
                 entry
@@ -638,7 +636,6 @@ impl<K, V, S> BaseCache<K, V, S> {
         &self,
         value: V,
         timestamp: Instant,
-        policy_weight: u32,
         other: &ValueEntry<K, V>,
     ) -> (MiniArc<ValueEntry<K, V>>, u16) {
         let info = MiniArc::clone(other.entry_info());
@@ -647,7 +644,7 @@ impl<K, V, S> BaseCache<K, V, S> {
         let gen = info.incr_entry_gen();
         info.set_last_accessed(timestamp);
         info.set_last_modified(timestamp);
-        info.set_policy_weight(policy_weight);
+        // NOTE: `policy_weight` will be updated when the `WriteOp` is applied.
         (MiniArc::new(ValueEntry::new_from(value, info, other)), gen)
     }
 
@@ -1429,13 +1426,11 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => self.handle_upsert(
                     kh,
                     entry,
                     gen,
-                    old_weight,
                     new_weight,
                     deqs,
                     timer_wheel,
@@ -1465,7 +1460,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1474,13 +1468,24 @@ where
     ) where
         V: Clone,
     {
+        if !entry.entry_info().is_newer_than_policy_gen(gen) {
+            // A newer `WriteOp` of this entry has been already applied, or the entry
+            // has been evicted. (`WriteOp`s of the same entry can be sent in a
+            // different order than the order of the updates on the hash map)
+            if entry.is_admitted() {
+                self.update_timer_wheel(&entry, timer_wheel);
+            }
+            return;
+        }
+
         {
             let counters = &mut eviction_state.counters;
 
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
+                counters.saturating_sub(0, entry.policy_weight());
                 counters.saturating_add(0, new_weight);
+                entry.entry_info().set_policy_weight(new_weight);
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1715,6 +1720,7 @@ where
         counters: &mut EvictionCounters,
     ) {
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_policy_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1827,9 +1833,10 @@ where
         } else {
             entry.unset_q_nodes();
         }
-        if let Some(g) = gen {
-            entry.entry_info().set_policy_gen(g);
-        }
+        // When `gen` is `None`, the entry has been evicted from the hash map and will
+        // never be updated.
+        let g = gen.unwrap_or_else(|| entry.entry_info().entry_gen());
+        entry.entry_info().set_policy_gen(g);
     }
 
     fn handle_remove_with_deques(
@@ -1857,6 +1864,9 @@ where
         } else {
             entry.unset_q_nodes();
         }
+        // The entry has been evicted from the hash map and will never be updated.
+        let g = entry.entry_info().entry_gen();
+        entry.entry_info().set_policy_gen(g);
     }
 
     fn evict_expired_entries_using_timers(
-- 
2.43.0


From 2c9a43e6f3319bbf7b6749401bc14e297c3dc901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:22 +0000
Subject: [PATCH 06/13] fix: do not let a late thread move back last_accessed,
 last_modified or valid_after

A thread obtains the current time before it reads or writes an entry, and could
store it after another thread had stored a later one. An entry inserted after
invalidate_all became invisible, idle entries expired early, and entries
invalidated by the later of two concurrent invalidate_all calls came back.
---
 src/common/concurrent/entry_info.rs |  4 ++--
 src/common/time/atomic_time.rs      | 16 ++++++++++++++++
 src/future/base_cache.rs            |  2 +-
 src/sync/base_cache.rs              |  2 +-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 867fc95..f5c3d46 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -230,7 +230,7 @@ impl<K> AccessTime for EntryInfo<K> {
 
     #[inline]
     fn set_last_accessed(&self, timestamp: Instant) {
-        self.last_accessed.set_instant(timestamp);
+        self.last_accessed.advance_instant(timestamp);
     }
 
     #[inline]
@@ -240,6 +240,6 @@ impl<K> AccessTime for EntryInfo<K> {
 
     #[inline]
     fn set_last_modified(&self, timestamp: Instant) {
-        self.last_modified.set_instant(timestamp);
+        self.last_modified.advance_instant(timestamp);
     }
 }
diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a4870bc..ac28cb1 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -47,6 +47,22 @@ impl AtomicInstant {
         }
     }
 
+    /// Sets the `Instant` if it is unset, or is earlier than the given `instant`.
+    ///
+    /// Use this method when multiple threads may set the `Instant`. A thread may be
+    /// late to set the one it obtained, so that it must not move the time back.
+    pub(crate) fn advance_instant(&self, instant: Instant) {
+        // Ensure the `Instant` is not `u64::MAX`, which means unset.
+        debug_assert!(instant.as_nanos() != u64::MAX);
+
+        let ts = instant.as_nanos();
+        let _ = self
+            .instant
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                (current == u64::MAX || current < ts).then_some(ts)
+            });
+    }
+
     /// Sets the `Instant`.
     pub(crate) fn set_instant(&self, instant: Instant) {
         // Ensure the `Instant` is not `u64::MAX`, which means unset.
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 6655134..1b0f96f 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1120,7 +1120,7 @@ impl<K, V, S> Inner<K, V, S> {
 
     #[inline]
     fn set_valid_after(&self, timestamp: Instant) {
-        self.valid_after.set_instant(timestamp);
+        self.valid_after.advance_instant(timestamp);
     }
 
     #[inline]
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 526d015..7f9f139 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -976,7 +976,7 @@ impl<K, V, S> Inner<K, V, S> {
 
     #[inline]
     fn set_valid_after(&self, timestamp: Instant) {
-        self.valid_after.set_instant(timestamp);
+        self.valid_after.advance_instant(timestamp);
     }
 
     #[inline]
-- 
2.43.0


From b50a26b4ebd2947546688fe504db4bc63feaf962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 07/13] fix: do not miss an invalidation predicate registered
 or dropped by another thread

- The is_empty flag was set after seeing that the last predicate was removed,
  so a predicate registered in between was ignored.
- An entry was read before the predicates. Maintenance could remove the entry
  and then drop the predicate in between, so that the entry was returned.
---
 src/cht/segment.rs        |  2 +
 src/future/base_cache.rs  | 25 ++++++-----
 src/future/invalidator.rs | 94 ++++++++++++++++++++++-----------------
 src/sync/base_cache.rs    | 25 ++++++-----
 src/sync/invalidator.rs   | 94 ++++++++++++++++++++++-----------------
 5 files changed, 140 insertions(+), 100 deletions(-)

diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index 8a0bbec..ecd5f6b 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -205,6 +205,7 @@ impl<K, V, S> HashMap<K, V, S> {
     ///
     /// This method on its own is safe, but other threads can add or remove
     /// elements at any time.
+    #[cfg(test)]
     pub(crate) fn len(&self) -> usize {
         self.len.load(Ordering::Relaxed)
     }
@@ -215,6 +216,7 @@ impl<K, V, S> HashMap<K, V, S> {
     ///
     /// This method on its own is safe, but other threads can add or remove
     /// elements at any time.
+    #[cfg(test)]
     pub(crate) fn is_empty(&self) -> bool {
         self.len() == 0
     }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 1b0f96f..018b3f7 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1,6 +1,6 @@
 use super::{
     housekeeper::Housekeeper,
-    invalidator::{Invalidator, KeyDateLite, PredicateFun, ScanState},
+    invalidator::{ActivePredicates, Invalidator, KeyDateLite, PredicateFun, ScanState},
     key_lock::{KeyLock, KeyLockMap},
     notifier::RemovalNotifier,
     InterruptedOp, PredicateId,
@@ -225,6 +225,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let preds = self.inner.active_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -235,7 +237,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !preds.apply(k, entry)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -261,6 +263,7 @@ where
         }
 
         let mut now = self.current_time();
+        let preds = self.inner.active_predicates();
 
         let maybe_kv_and_op = self
             .inner
@@ -278,7 +281,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || preds.apply(k, entry)
                 {
                     // Expired or invalidated entry.
                     None
@@ -424,6 +427,7 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let preds = self.inner.active_predicates();
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -432,7 +436,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || preds.apply(k, entry)
             {
                 // Expired or invalidated entry.
                 None
@@ -1269,16 +1273,17 @@ where
         }
     }
 
-    /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
+    /// Returns the predicates set by `invalidate_entries_if` method. This must be
+    /// called before looking up the entry to be checked.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn active_predicates(&self) -> ActivePredicates<K, V>
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        self.invalidator
+            .as_ref()
+            .map(Invalidator::active_predicates)
+            .unwrap_or_default()
     }
 
     #[inline]
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 68b917f..3c9d93c 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -12,7 +12,7 @@ use async_lock::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicUsize, Ordering},
         Arc,
     },
 };
@@ -61,7 +61,10 @@ pub(crate) enum ScanState {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    /// The number of predicates in the `predicates` map. This is incremented before
+    /// a predicate is inserted to the map, and decremented after it is removed, so
+    /// the map is empty when this is zero.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -81,13 +84,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::default(),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
     /// Prepares the predicates to be applied by the current scan over the cache
@@ -140,8 +143,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -152,25 +155,23 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
-    // This method will be called by the get method of Cache.
+    /// Returns the predicates currently registered.
+    ///
+    /// This method will be called by the get method of Cache _before_ it looks up the
+    /// entry. When a predicate is dropped, the entries it has invalidated are already
+    /// removed from the hash map. So an entry found there must be checked with the
+    /// predicates obtained earlier.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn active_predicates(&self) -> ActivePredicates<K, V>
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
         if self.is_empty() {
-            false
-        } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            ActivePredicates::default()
         } else {
-            false
+            ActivePredicates(self.predicates.iter().map(|(_, v)| v).collect())
         }
     }
 
@@ -218,19 +219,6 @@ where
     K: Hash + Eq,
     S: BuildHasher + Send + Sync + 'static,
 {
-    #[inline]
-    fn do_apply_predicates<I>(predicates: I, key: &K, value: &V, ts: Instant) -> bool
-    where
-        I: Iterator<Item = Predicate<K, V>>,
-    {
-        for predicate in predicates {
-            if predicate.is_applicable(ts) && predicate.apply(key, value) {
-                return true;
-            }
-        }
-        false
-    }
-
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
@@ -268,11 +256,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
@@ -287,12 +273,7 @@ where
         if let Some(entry) = cache.cache.get(hash, |k| k == key) {
             if let Some(lm) = entry.last_modified() {
                 if lm == ts {
-                    return Self::do_apply_predicates(
-                        predicates.iter().cloned(),
-                        key,
-                        &entry.value,
-                        lm,
-                    );
+                    return do_apply_predicates(predicates, key, &entry.value, lm);
                 }
             }
         }
@@ -340,6 +321,17 @@ where
     }
 }
 
+fn do_apply_predicates<K, V>(
+    predicates: &[Predicate<K, V>],
+    key: &K,
+    value: &V,
+    ts: Instant,
+) -> bool {
+    predicates
+        .iter()
+        .any(|predicate| predicate.is_applicable(ts) && predicate.apply(key, value))
+}
+
 //
 // for testing
 //
@@ -350,6 +342,28 @@ impl<K, V, S> Invalidator<K, V, S> {
     }
 }
 
+/// The predicates to be checked against an entry found in the hash map.
+pub(crate) struct ActivePredicates<K, V>(Vec<Predicate<K, V>>);
+
+impl<K, V> Default for ActivePredicates<K, V> {
+    fn default() -> Self {
+        Self(Vec::default())
+    }
+}
+
+impl<K, V> ActivePredicates<K, V> {
+    /// Returns `true` if the entry is invalidated by any of the predicates.
+    #[inline]
+    pub(crate) fn apply(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool {
+        if self.0.is_empty() {
+            return false;
+        }
+        entry
+            .last_modified()
+            .is_some_and(|ts| do_apply_predicates(&self.0, key, &entry.value, ts))
+    }
+}
+
 struct ScanContext<K, V> {
     predicates: Mutex<Vec<Predicate<K, V>>>,
 }
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 7f9f139..5799b5d 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1,5 +1,5 @@
 use super::{
-    invalidator::{Invalidator, KeyDateLite, PredicateFun, ScanState},
+    invalidator::{ActivePredicates, Invalidator, KeyDateLite, PredicateFun, ScanState},
     key_lock::{KeyLock, KeyLockMap},
     PredicateId,
 };
@@ -199,6 +199,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let preds = self.inner.active_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -209,7 +211,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !preds.apply(k, entry)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -280,6 +282,7 @@ where
         }
 
         let mut now = self.current_time();
+        let preds = self.inner.active_predicates();
 
         let maybe_entry = self
             .inner
@@ -297,7 +300,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || preds.apply(k, entry)
                 {
                     // Expired or invalidated entry.
                     None
@@ -430,6 +433,7 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let preds = self.inner.active_predicates();
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -438,7 +442,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || preds.apply(k, entry)
             {
                 // Expired or invalidated entry.
                 None
@@ -1125,16 +1129,17 @@ where
         }
     }
 
-    /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
+    /// Returns the predicates set by `invalidate_entries_if` method. This must be
+    /// called before looking up the entry to be checked.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn active_predicates(&self) -> ActivePredicates<K, V>
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        self.invalidator
+            .as_ref()
+            .map(Invalidator::active_predicates)
+            .unwrap_or_default()
     }
 
     #[inline]
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index e27455e..51c86d5 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -12,7 +12,7 @@ use parking_lot::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicUsize, Ordering},
         Arc,
     },
 };
@@ -61,7 +61,10 @@ pub(crate) enum ScanState {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    /// The number of predicates in the `predicates` map. This is incremented before
+    /// a predicate is inserted to the map, and decremented after it is removed, so
+    /// the map is empty when this is zero.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -81,13 +84,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::default(),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
     /// Prepares the predicates to be applied by the current scan over the cache
@@ -140,8 +143,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -152,25 +155,23 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
-    // This method will be called by the get method of Cache.
+    /// Returns the predicates currently registered.
+    ///
+    /// This method will be called by the get method of Cache _before_ it looks up the
+    /// entry. When a predicate is dropped, the entries it has invalidated are already
+    /// removed from the hash map. So an entry found there must be checked with the
+    /// predicates obtained earlier.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn active_predicates(&self) -> ActivePredicates<K, V>
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
         if self.is_empty() {
-            false
-        } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            ActivePredicates::default()
         } else {
-            false
+            ActivePredicates(self.predicates.iter().map(|(_, v)| v).collect())
         }
     }
 
@@ -218,19 +219,6 @@ where
     K: Hash + Eq,
     S: BuildHasher,
 {
-    #[inline]
-    fn do_apply_predicates<I>(predicates: I, key: &K, value: &V, ts: Instant) -> bool
-    where
-        I: Iterator<Item = Predicate<K, V>>,
-    {
-        for predicate in predicates {
-            if predicate.is_applicable(ts) && predicate.apply(key, value) {
-                return true;
-            }
-        }
-        false
-    }
-
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
@@ -268,11 +256,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates.iter() {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
-            self.is_empty.store(true, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
+            }
         }
     }
 
@@ -287,12 +273,7 @@ where
         if let Some(entry) = cache.cache.get(hash, |k| k == key) {
             if let Some(lm) = entry.last_modified() {
                 if lm == ts {
-                    return Invalidator::<_, _, S>::do_apply_predicates(
-                        predicates.iter().cloned(),
-                        key,
-                        &entry.value,
-                        lm,
-                    );
+                    return do_apply_predicates(predicates, key, &entry.value, lm);
                 }
             }
         }
@@ -334,6 +315,17 @@ where
     }
 }
 
+fn do_apply_predicates<K, V>(
+    predicates: &[Predicate<K, V>],
+    key: &K,
+    value: &V,
+    ts: Instant,
+) -> bool {
+    predicates
+        .iter()
+        .any(|predicate| predicate.is_applicable(ts) && predicate.apply(key, value))
+}
+
 //
 // for testing
 //
@@ -344,6 +336,28 @@ impl<K, V, S> Invalidator<K, V, S> {
     }
 }
 
+/// The predicates to be checked against an entry found in the hash map.
+pub(crate) struct ActivePredicates<K, V>(Vec<Predicate<K, V>>);
+
+impl<K, V> Default for ActivePredicates<K, V> {
+    fn default() -> Self {
+        Self(Vec::default())
+    }
+}
+
+impl<K, V> ActivePredicates<K, V> {
+    /// Returns `true` if the entry is invalidated by any of the predicates.
+    #[inline]
+    pub(crate) fn apply(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool {
+        if self.0.is_empty() {
+            return false;
+        }
+        entry
+            .last_modified()
+            .is_some_and(|ts| do_apply_predicates(&self.0, key, &entry.value, ts))
+    }
+}
+
 struct ScanContext<K, V> {
     predicates: Mutex<Vec<Predicate<K, V>>>,
 }
-- 
2.43.0


From cc380e00f774566db45ee8c6d70f2e9d96f4c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 08/13] fix: record the write op of the closure which was
 applied to the hash map

When the insertion of a key conflicted with another thread twice, first with an
insertion and then with a removal, on_insert and on_modify had been called in
that order but the value created by on_insert was the one stored. The upsert
(and the Replaced notification) of the discarded modification were sent instead
of those of the entry in the map, leaving a ghost in the policies and counters.
---
 src/future/base_cache.rs | 39 ++++++++++++++-------------------------
 src/sync/base_cache.rs   | 38 +++++++++++++-------------------------
 2 files changed, 27 insertions(+), 50 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 018b3f7..2300912 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -46,7 +46,7 @@ use std::{
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -486,8 +486,6 @@ where
         self.retry_interrupted_ops().await;
 
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Arc::new(AtomicU8::new(0));
-        let op_cnt2 = Arc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -501,27 +499,22 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
-        // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // has to retry the insertion or modification, so both on_insert and on_modify
+        // closures can be executed, and the latter more than once. (The value created
+        // by on_insert is kept for the retries) The value returned from
+        // insert_with_or_modify() tells which one was applied; Some (the old value)
+        // for the last call of on_modify, or None for on_insert.
+        let maybe_old = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -532,22 +525,18 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_entry, upd_op))) => {
-                self.do_post_update_steps(ts, key, old_entry, upd_op, &self.interrupted_op_ch_snd)
+        match (maybe_old.is_some(), op1, op2) {
+            (false, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (true, _, Some((old_info, upd_op))) => {
+                self.do_post_update_steps(ts, key, old_info, upd_op, &self.interrupted_op_ch_snd)
                     .await
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 5799b5d..0015049 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -39,9 +39,8 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
-    rc::Rc,
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -490,8 +489,6 @@ where
         value: V,
     ) -> (WriteOp<K, V>, Instant) {
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Rc::new(AtomicU8::new(0));
-        let op_cnt2 = Rc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -501,27 +498,22 @@ where
 
         let ts = self.current_time();
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
-        // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // has to retry the insertion or modification, so both on_insert and on_modify
+        // closures can be executed, and the latter more than once. (The value created
+        // by on_insert is kept for the retries) The value returned from
+        // insert_with_or_modify() tells which one was applied; Some (the old value)
+        // for the last call of on_modify, or None for on_insert.
+        let maybe_old = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -532,21 +524,17 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_info, upd_op))) => {
+        match (maybe_old.is_some(), op1, op2) {
+            (false, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (true, _, Some((old_info, upd_op))) => {
                 self.do_post_update_steps(ts, key, old_info, upd_op)
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
-- 
2.43.0


From c6cf63f1353cc04e76fc88548065d4eb7c41cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:26 +0000
Subject: [PATCH 09/13] fix: do not remove a key lock which another thread is
 about to take

The drop of a KeyLock removed the lock from the map if nobody else had a
reference, but another thread could get one between that check and the removal.
A third thread then created another lock for the same key, and the listener was
called for the key by both at the same time, in any order.
---
 src/common/concurrent/arc.rs |  1 +
 src/future/key_lock.rs       | 82 ++++++++++++++++++++++++++++++------
 src/sync/key_lock.rs         | 82 ++++++++++++++++++++++++++++++------
 3 files changed, 137 insertions(+), 28 deletions(-)

diff --git a/src/common/concurrent/arc.rs b/src/common/concurrent/arc.rs
index 0e70664..b75ef4a 100644
--- a/src/common/concurrent/arc.rs
+++ b/src/common/concurrent/arc.rs
@@ -73,6 +73,7 @@ impl<T> MiniArc<T> {
 
 impl<T: ?Sized> MiniArc<T> {
     /// Gets the number of [`MiniArc`] pointers to this allocation
+    #[cfg(test)]
     pub(crate) fn count(this: &Self) -> u32 {
         use atomic::Ordering::Acquire;
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 1365937..6bb83e4 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -1,6 +1,9 @@
 use std::{
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
 };
 
 use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
@@ -9,7 +12,46 @@ use async_lock::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Lock>, S>;
+
+/// A mutex with the number of `KeyLock`s sharing it. Once the number went down to
+/// zero, the mutex is retired; it will be removed from the map and is never locked
+/// again.
+struct Lock {
+    mutex: Mutex<()>,
+    users: AtomicUsize,
+}
+
+impl Lock {
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::default(),
+            users: AtomicUsize::new(1),
+        }
+    }
+
+    /// Returns `false` if the lock has been retired.
+    fn try_share(&self) -> bool {
+        let mut n = self.users.load(Ordering::Acquire);
+        while n > 0 {
+            match self.users.compare_exchange_weak(
+                n,
+                n + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(current) => n = current,
+            }
+        }
+        false
+    }
+
+    /// Returns `true` if there are no more users.
+    fn release(&self) -> bool {
+        self.users.fetch_sub(1, Ordering::AcqRel) == 1
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +62,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<Lock>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,11 +71,11 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
+        if self.lock.release() {
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
+                |_k, v| MiniArc::ptr_eq(v, &self.lock),
             );
         }
     }
@@ -44,7 +86,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Lock>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -54,7 +96,7 @@ where
     }
 
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock().await
+        self.lock.mutex.lock().await
     }
 }
 
@@ -75,13 +117,25 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(Lock::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) => {
+                    if existing_kl.try_share() {
+                        return KeyLock::new(&self.locks, key, hash, existing_kl);
+                    }
+                    // It has been retired but not removed yet.
+                    self.locks.remove_if(
+                        hash,
+                        |k| k == key,
+                        |_k, v| MiniArc::ptr_eq(v, &existing_kl),
+                    );
+                }
+            }
         }
     }
 }
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index bde1912..b5d2eeb 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -1,6 +1,9 @@
 use std::{
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
 };
 
 use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
@@ -9,7 +12,46 @@ use parking_lot::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Lock>, S>;
+
+/// A mutex with the number of `KeyLock`s sharing it. Once the number went down to
+/// zero, the mutex is retired; it will be removed from the map and is never locked
+/// again.
+struct Lock {
+    mutex: Mutex<()>,
+    users: AtomicUsize,
+}
+
+impl Lock {
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::default(),
+            users: AtomicUsize::new(1),
+        }
+    }
+
+    /// Returns `false` if the lock has been retired.
+    fn try_share(&self) -> bool {
+        let mut n = self.users.load(Ordering::Acquire);
+        while n > 0 {
+            match self.users.compare_exchange_weak(
+                n,
+                n + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(current) => n = current,
+            }
+        }
+        false
+    }
+
+    /// Returns `true` if there are no more users.
+    fn release(&self) -> bool {
+        self.users.fetch_sub(1, Ordering::AcqRel) == 1
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +62,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<Lock>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,11 +71,11 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
+        if self.lock.release() {
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
+                |_k, v| MiniArc::ptr_eq(v, &self.lock),
             );
         }
     }
@@ -44,7 +86,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Lock>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -54,7 +96,7 @@ where
     }
 
     pub(crate) fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock()
+        self.lock.mutex.lock()
     }
 }
 
@@ -75,13 +117,25 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(Lock::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) => {
+                    if existing_kl.try_share() {
+                        return KeyLock::new(&self.locks, key, hash, existing_kl);
+                    }
+                    // It has been retired but not removed yet.
+                    self.locks.remove_if(
+                        hash,
+                        |k| k == key,
+                        |_k, v| MiniArc::ptr_eq(v, &existing_kl),
+                    );
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 6ba64579126d27995a313f5392a3d028dbe6e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 10/13] fix: do not remove an entry without the key lock when
 the key was absent at first

---
 src/future/cache.rs | 27 ++++++++++-----------------
 src/sync/cache.rs   | 19 ++++++-------------
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/future/cache.rs b/src/future/cache.rs
index 07eb6e3..dbc72db 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1937,23 +1937,16 @@ where
         let mut klg = None;
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
-            //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = if let Some(lock) = &kl {
-                    Some(lock.lock().await)
-                } else {
-                    None
-                };
-            }
+            // If there is no such key, there is nothing to remove. (We must not try
+            // to remove it anyway, because somebody else (other thread) may insert the
+            // key in the meantime, and we would remove it without the key lock.)
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = if let Some(lock) = &kl {
+                Some(lock.lock().await)
+            } else {
+                None
+            };
         }
 
         match self.base.remove_entry(key, hash) {
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 858cd82..c0be6e3 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1583,19 +1583,12 @@ where
         let mut klg = None;
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
-            //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = kl.as_ref().map(|kl| kl.lock());
-            }
+            // If there is no such key, there is nothing to remove. (We must not try
+            // to remove it anyway, because somebody else (other thread) may insert the
+            // key in the meantime, and we would remove it without the key lock.)
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = kl.as_ref().map(|kl| kl.lock());
         }
 
         match self.base.remove_entry(key, hash) {
-- 
2.43.0


From 5d1ee2447856a3c9629cedf11253257fa59b0507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 11/13] fix: drop the value which could not be inserted when
 the key is already present

When insert_if_not_present lost the race for a slot to another insertion of the
same key, the value it had put into its bucket was leaked (Bucket does not drop
its value), and with it the waiter of get_with and the value in the waiter.
---
 src/cht/map/bucket.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index c6b76a5..2c62663 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -189,6 +189,7 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
 
                 if !is_tombstone(this_bucket_ptr) {
                     // Found. Return it.
+                    state.discard();
                     return Ok(InsertionResult::AlreadyPresent(this_bucket_ptr));
                 }
             }
@@ -598,6 +599,18 @@ impl<K, V, F: FnOnce() -> V> InsertOrModifyState<K, V, F> {
         }
     }
 
+    /// Drops this state including the value in the bucket, if any. (`Bucket` does not
+    /// drop its value)
+    fn discard(self) {
+        match self {
+            InsertOrModifyState::New(_, _) => (),
+            InsertOrModifyState::AttemptedInsertion(mut b)
+            | InsertOrModifyState::AttemptedModification(mut b, _) => unsafe {
+                ptr::drop_in_place(b.maybe_value.as_mut_ptr());
+            },
+        }
+    }
+
     fn into_insert_bucket(self) -> Owned<Bucket<K, V>> {
         match self {
             InsertOrModifyState::New(k, f) => Owned::new(Bucket::new(k, f())),
-- 
2.43.0


From 866f679ebed2bf769ac0ae854e30888372ad8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:17 +0000
Subject: [PATCH 12/13] fix: resume an abandoned maintenance task while waiting
 for a key lock

When a future driving the maintenance is dropped, the maintenance task stays
behind suspended and may hold the lock of a key, or be the next one to get it.
A writer waiting for that lock was then never woken up. Let it resume the task.
---
 src/future/base_cache.rs  | 29 +++++++++++++++++-
 src/future/cache.rs       |  2 +-
 src/future/housekeeper.rs | 62 +++++++++++++++++++++++++++++++++++++++
 src/future/key_lock.rs    |  4 +++
 4 files changed, 95 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 2300912..6a10b35 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -45,6 +45,7 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
+    pin::pin,
     sync::{
         atomic::{AtomicBool, Ordering},
         Arc,
@@ -476,6 +477,32 @@ where
         }
     }
 
+    /// Locks the key. If there is a maintenance task left unfinished, resumes it
+    /// while waiting, because it may be the one which keeps us from locking.
+    pub(crate) async fn lock_key<'a>(&self, lock: &'a KeyLock<'_, K, S>) -> MutexGuard<'a, ()> {
+        use futures_util::future::{select, Either};
+
+        if let Some(guard) = lock.try_lock() {
+            return guard;
+        }
+
+        let Some(hk) = &self.housekeeper else {
+            return lock.lock().await;
+        };
+
+        let mut lock_fut = pin!(lock.lock());
+        loop {
+            let suspended = hk.listen_suspended();
+            let resume = pin!(hk.resume_suspended_task(&self.inner));
+            if let Either::Left((guard, _)) = select(lock_fut.as_mut(), resume).await {
+                return guard;
+            }
+            if let Either::Left((guard, _)) = select(lock_fut.as_mut(), suspended).await {
+                return guard;
+            }
+        }
+    }
+
     #[inline]
     pub(crate) async fn do_insert_with_hash(
         &self,
@@ -492,7 +519,7 @@ where
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
         let _klg = if let Some(lock) = &kl {
-            Some(lock.lock().await)
+            Some(self.lock_key(lock).await)
         } else {
             None
         };
diff --git a/src/future/cache.rs b/src/future/cache.rs
index dbc72db..b22aac5 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1943,7 +1943,7 @@ where
             let arc_key = self.base.get_key_with_hash(key, hash)?;
             kl = self.base.maybe_key_lock(&arc_key);
             klg = if let Some(lock) = &kl {
-                Some(lock.lock().await)
+                Some(self.base.lock_key(lock).await)
             } else {
                 None
             };
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 1ef86cd..0ff9d12 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -19,6 +19,7 @@ use std::{
 use std::sync::atomic::AtomicUsize;
 
 use async_lock::Mutex;
+use event_listener::{Event, EventListener};
 use futures_util::future::{BoxFuture, Shared};
 
 use super::base_cache::Inner;
@@ -26,6 +27,11 @@ use super::base_cache::Inner;
 pub(crate) struct Housekeeper {
     /// A shared `Future` of the maintenance task that is currently being resolved.
     current_task: Mutex<Option<Shared<BoxFuture<'static, bool>>>>,
+    /// `true` while there is a task in `current_task`.
+    has_current_task: AtomicBool,
+    /// An event to tell that `current_task` has been left unfinished because the
+    /// future which was awaiting for it has been dropped.
+    suspended_event: Event,
     run_after: AtomicInstant,
     /// A flag to indicate if the last call on `run_pending_tasks` method left some
     /// entries to evict.
@@ -70,6 +76,8 @@ impl Housekeeper {
 
         Self {
             current_task: Mutex::default(),
+            has_current_task: AtomicBool::new(false),
+            suspended_event: Event::default(),
             run_after: AtomicInstant::new(Self::sync_after(now)),
             more_entries_to_evict,
             maintenance_task_timeout,
@@ -117,11 +125,14 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        // This must be dropped after the lock.
+        let mut guard = SuspendGuard::new(self, &cache.write_op_ch_ready_event);
         let mut current_task = self.current_task.lock().await;
         self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
             .await;
 
         drop(current_task);
+        guard.clear();
 
         // If there are any async tasks waiting in `BaseCache::schedule_write_op`
         // method for the write op channel, notify them.
@@ -136,12 +147,16 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        // This must be dropped after the lock.
+        let mut guard = SuspendGuard::new(self, &cache.write_op_ch_ready_event);
         if let Some(mut current_task) = self.current_task.try_lock() {
             self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
                 .await;
         } else {
+            guard.clear();
             return false;
         }
+        guard.clear();
 
         // The `current_task` lock should be free now.
 
@@ -151,6 +166,25 @@ impl Housekeeper {
         true
     }
 
+    /// Returns a listener to the event that a maintenance task has been left
+    /// unfinished.
+    pub(crate) fn listen_suspended(&self) -> EventListener {
+        self.suspended_event.listen()
+    }
+
+    /// Resumes the maintenance task if it has been left unfinished. Such a task may
+    /// be holding, or be the next one to get, the lock of a key.
+    pub(crate) async fn resume_suspended_task<K, V, S>(&self, cache: &Arc<Inner<K, V, S>>)
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Clone + Send + Sync + 'static,
+    {
+        if self.has_current_task.load(Ordering::Acquire) {
+            self.try_run_pending_tasks(cache).await;
+        }
+    }
+
     async fn do_run_pending_tasks<K, V, S>(
         &self,
         cache: Arc<Inner<K, V, S>>,
@@ -184,6 +218,7 @@ impl Housekeeper {
             .boxed()
             .shared();
             *current_task = Some(task.clone());
+            self.has_current_task.store(true, Ordering::Release);
 
             #[cfg(test)]
             self.start_count.fetch_add(1, Ordering::AcqRel);
@@ -194,6 +229,7 @@ impl Housekeeper {
         // If we are here, it means that the maintenance task has been completed.
         // We can remove it from the lock.
         *current_task = None;
+        self.has_current_task.store(false, Ordering::Release);
         self.run_after.set_instant(Self::sync_after(now));
         self.set_more_entries_to_evict(more_to_evict);
 
@@ -207,6 +243,32 @@ impl Housekeeper {
     }
 }
 
+/// Tells that the maintenance task has been left unfinished when the future which
+/// owns this guard is dropped.
+struct SuspendGuard<'a> {
+    events: Option<[&'a Event; 2]>,
+}
+
+impl<'a> SuspendGuard<'a> {
+    fn new(housekeeper: &'a Housekeeper, write_op_ch_ready_event: &'a Event) -> Self {
+        Self {
+            events: Some([&housekeeper.suspended_event, write_op_ch_ready_event]),
+        }
+    }
+
+    fn clear(&mut self) {
+        self.events = None;
+    }
+}
+
+impl Drop for SuspendGuard<'_> {
+    fn drop(&mut self) {
+        for event in self.events.into_iter().flatten() {
+            event.notify(usize::MAX);
+        }
+    }
+}
+
 #[cfg(test)]
 impl Housekeeper {
     pub(crate) fn disable_auto_run(&self) {
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 6bb83e4..e351e5f 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -95,6 +95,10 @@ where
         }
     }
 
+    pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, ()>> {
+        self.lock.mutex.try_lock()
+    }
+
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
         self.lock.mutex.lock().await
     }
-- 
2.43.0


From a2c640fdaaf935a5f005430bee2ffe540ae7316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:43 +0000
Subject: [PATCH 13/13] fix: do not miss the wakeup of a writer waiting for
 room in the write op channel

---
 src/future/base_cache.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 6a10b35..3d19a16 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -656,6 +656,7 @@ where
 
         let mut op = op;
         let mut spin_loop_attempts = 0u8;
+        let mut ch_ready_listener = None;
         loop {
             // Run the `Inner::do_run_pending_tasks` method if needed.
             BaseCache::<K, V, S>::apply_reads_writes_if_needed(inner, ch, ts, housekeeper).await;
@@ -681,7 +682,12 @@ where
                 for _ in 0..SPIN_COUNT {
                     std::hint::spin_loop();
                 }
-            } else {
+            } else if ch_ready_listener.is_none() {
+                // Start to listen to the channel ready event, and try once more
+                // before waiting for it. Otherwise, we would wait for ever if the
+                // event was sent after our last try, and nobody sends it again.
+                ch_ready_listener = Some(ch_ready_event.listen());
+            } else if let Some(listener) = ch_ready_listener.take() {
                 spin_loop_attempts = 0;
 
                 // Yield the async runtime scheduler to other async tasks and wait
@@ -694,7 +700,7 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
-                ch_ready_event.listen().await;
+                listener.await;
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
-- 
2.43.0

