From ada1cf4879f7239a8007c34a006439b15b2d66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 01/52] hook: let a simulator choose EpochManager's initial
 reclamation threshold

Guarded by INDEXES_SIM_RECLAMATION_THRESHOLD, off by default.
---
 include/indexes/utils/EpochManager.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..af6174c 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -137,7 +137,12 @@ public:
   EpochManager()
       : m_reclaimation_threshold{ReclamationThreshold}, m_global_epoch{0},
         m_local_epoch(ThreadRegistry::MAX_THREADS),
-        m_retire_list(ThreadRegistry::MAX_THREADS) {}
+        m_retire_list(ThreadRegistry::MAX_THREADS) {
+#ifdef INDEXES_SIM_RECLAMATION_THRESHOLD
+    // Simulation only: the harness chooses the initial threshold.
+    m_reclaimation_threshold = INDEXES_SIM_RECLAMATION_THRESHOLD;
+#endif
+  }
 
   EpochManager(const EpochManager &) = delete;
   EpochManager(EpochManager &&) = delete;
-- 
2.43.0


From 4aec781fb51676e725cee2429a4b1d6dfd97be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 02/52] fix: begin()/rbegin() of a btree::concurrent_map
 emptied down to its root leaf

The root leaf has no high/low key, so value() threw bad_optional_access.
---
 include/indexes/btree/concurrent_map.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..ddfbf18 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2349,9 +2349,12 @@ protected:
       eg.refresh();
     } while (leaf);
 
-    if (leaf && slots.empty())
-      std::tie(leaf, pos) =
-          ops.get_next_leaf(this, leaf->highkey.value(), slots);
+    if (leaf && slots.empty()) {
+      if (leaf->highkey)
+        std::tie(leaf, pos) = ops.get_next_leaf(this, *leaf->highkey, slots);
+      else
+        leaf = nullptr;
+    }
 
     return leaf ? const_iterator{ops,
                                  this,
@@ -2392,8 +2395,10 @@ protected:
     } while (leaf);
 
     if (leaf && slots.empty()) {
-      std::tie(leaf, pos) =
-          ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      if (leaf->lowkey)
+        std::tie(leaf, pos) = ops.get_prev_leaf(this, *leaf->lowkey, slots);
+      else
+        leaf = nullptr;
     } else {
       pos = slots.size() - 1;
     }
-- 
2.43.0


From 0484c85bae854e9a504c203f5e77c062cdb8f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 03/52] fix: reverse iteration skipped an element when the
 previous leaf contains the low key

The position before lower_bound() is pos - 1 whether or not the key is present.
---
 include/indexes/btree/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index ddfbf18..516e7f1 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1076,9 +1076,8 @@ protected:
 
     int get_slots_less_than(const leaf_node_t *leaf, const key_type &key,
                             std::vector<int> &slot_offsets) const noexcept {
-      auto [pos, found, num_values] = lower_bound(leaf, key);
+      auto [pos, _, num_values] = lower_bound(leaf, key);
 
-      pos = found ? pos - 1 : pos;
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
       return pos - 1;
     }
-- 
2.43.0


From 537b884f9dfa3e051cec8a6b4a0bb09c5664b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 04/52] fix: rrange_iter() was empty whenever no key lies at or
 above the upper bound

---
 include/indexes/btree/concurrent_map.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 516e7f1..e83b6a8 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2291,8 +2291,23 @@ protected:
                                              const MaxkeyType &max_key) {
       auto it = map->lower_bound(max_key, m_max_ops, m_defops);
 
-      if (it.m_leaf == nullptr)
-        return {};
+      if (it.m_leaf == nullptr) {
+        // No key at or above max_key, start from the last key of the map.
+        auto last = map->crbegin(m_defops);
+        auto in_range = [&](auto &key) {
+          return RRKind == range_kind::INCLUSIVE
+                     ? m_max_ops.less_equal(key, max_key)
+                     : m_max_ops.less(key, max_key);
+        };
+
+        while (last.m_leaf && !in_range(last->first))
+          ++last;
+
+        if (last.m_leaf != nullptr)
+          return {std::move(last)};
+        else
+          return {};
+      }
 
       if (m_max_ops.equal(it->first, max_key)) {
         if constexpr (RRKind == range_kind::EXCLUSIVE)
-- 
2.43.0


From afa0883fcf1035b8469c2554b44dad2de7637008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 05/52] fix: null dereference when an optimistic read finds the
 root pointer locked

The fallback locks the root mutex but unlocked node->mutex with a null node.
---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index e83b6a8..530ff58 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -674,7 +674,7 @@ protected:
         try_lock_pessimistic(node, state);
 
         if (!state.is_deleted())
-          node->mutex.unlock();
+          (node ? node->mutex : *this->m_root_mutex).unlock();
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From 02ce2bdf879b0fa5cb23f42fa6fcc8cd24ba2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 06/52] fix: height() grew every time the root node was trimmed

---
 include/indexes/btree/concurrent_map.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 530ff58..56ed168 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -793,6 +793,10 @@ protected:
                           detail::load_relaxed(this->m_root_state)
                               .reset_locked()
                               .increment_version());
+  }
+
+  // Root mutex must be held
+  inline void increment_height() {
     detail::store_release(this->m_height,
                           detail::load_relaxed(this->m_height) + 1);
   }
@@ -805,6 +809,7 @@ protected:
     new_root->insert_neg_infinity(splitinfo.left);
     new_root->append(*splitinfo.split_key, splitinfo.right);
     store_root(new_root);
+    increment_height();
   }
 
   inline bool update_root(nodestate_t rootstate, node_t *new_root) {
@@ -814,6 +819,7 @@ protected:
       return false;
 
     store_root(new_root);
+    increment_height();
 
     return true;
   }
-- 
2.43.0


From d9beee6aa8d804dfb1f9e07a28401b30f23a1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 07/52] fix: enter_epoch() did not order its epoch before later
 reads of shared objects

release store + acquire fence let the store be delayed past the reads, so a
reclaimer could miss the reader and free what it is reading.
---
 include/indexes/utils/EpochManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index af6174c..7a741c5 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -45,8 +45,10 @@ public:
     auto &pd = m_local_epoch[ThreadRegistry::ThreadID()];
 
     if (pd.nested_level == 0) {
-      pd.epoch.store(now(), std::memory_order_release);
-      std::atomic_thread_fence(std::memory_order_acquire);
+      // The epoch must be visible to reclaimers before any shared object is
+      // read, which needs a store-load barrier.
+      pd.epoch.store(now(), std::memory_order_relaxed);
+      std::atomic_thread_fence(std::memory_order_seq_cst);
     }
     pd.nested_level++;
   }
-- 
2.43.0


From 765f398fff853c5f56a3f7f4405a65e4908f9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 08/52] fix: get_min_used_epoch() re-read the epoch of the
 thread it had chosen

That thread may have left its epoch meanwhile, so the value returned could
exceed the epoch of another active thread, whose objects were then freed.
---
 include/indexes/utils/EpochManager.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 7a741c5..102178d 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -196,13 +196,17 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    // Read every epoch exactly once. The thread with the least epoch could exit
+    // and enter a newer epoch in between.
+    epoch_t min_used_epoch = QUIESCENT_STATE;
+
+    std::for_each(std::begin(m_local_epoch),
+                  std::begin(m_local_epoch) + ThreadRegistry::MaxThreadID() + 1,
+                  [&](const auto &pd) {
+                    min_used_epoch = std::min(min_used_epoch, pd.epoch.load());
+                  });
+
+    return min_used_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From 05912ed3054d859abc2f4339641a1dadb0e23b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 09/52] fix: rrange_iter() could yield a key above the upper
 bound

Stepping back from lower_bound(max) can land on a key inserted meanwhile
between the two, so step until the key is within the range.
---
 include/indexes/btree/concurrent_map.h | 44 ++++++++++----------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 56ed168..9299172 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2295,35 +2295,25 @@ protected:
     std::optional<iterator> get_reverse_iter(const concurrent_map_iter *map,
                                              const MinkeyType &min_key,
                                              const MaxkeyType &max_key) {
-      auto it = map->lower_bound(max_key, m_max_ops, m_defops);
-
-      if (it.m_leaf == nullptr) {
-        // No key at or above max_key, start from the last key of the map.
-        auto last = map->crbegin(m_defops);
-        auto in_range = [&](auto &key) {
-          return RRKind == range_kind::INCLUSIVE
-                     ? m_max_ops.less_equal(key, max_key)
-                     : m_max_ops.less(key, max_key);
-        };
-
-        while (last.m_leaf && !in_range(last->first))
-          ++last;
-
-        if (last.m_leaf != nullptr)
-          return {std::move(last)};
-        else
-          return {};
-      }
+      auto in_range = [&](auto &key) {
+        return RRKind == range_kind::INCLUSIVE
+                   ? m_max_ops.less_equal(key, max_key)
+                   : m_max_ops.less(key, max_key);
+      };
+      std::optional<iterator> it;
 
-      if (m_max_ops.equal(it->first, max_key)) {
-        if constexpr (RRKind == range_kind::EXCLUSIVE)
-          --it;
-      } else {
-        --it;
-      }
+      it.emplace(map->lower_bound(max_key, m_max_ops, m_defops));
+
+      // No key at or above max_key, start from the last key of the map.
+      if (it->m_leaf == nullptr)
+        it.emplace(map->crbegin(m_defops));
+
+      // Keys inserted meanwhile could lie between max_key and the iterator.
+      while (it->m_leaf && !in_range((*it)->first))
+        ++*it;
 
-      if (it.m_leaf != nullptr)
-        return {std::move(it)};
+      if (it->m_leaf)
+        return std::move(it);
       else
         return {};
     }
-- 
2.43.0


From b148beab583a55139b92ed7433a554f78bb2bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 10/52] fix: keys and values of removed btree entries were
 never destroyed

Only entries still in a slot were destroyed with their node, so keys owning
memory leaked on every delete and merge.
---
 include/indexes/btree/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 9299172..1cabfd4 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -268,9 +268,12 @@ protected:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      auto num_values = detail::load_relaxed(this->num_values);
-      for (int slot = IsInner() ? 1 : 0; slot < num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Includes the removed values, which are no longer in any slot but are
+      // kept intact for concurrent readers. First value of an inner node is
+      // the bare child of negative infinity.
+      int offset = Traits::NODE_SIZE - (IsInner() ? 2 : 1) * sizeof(key_value_t);
+      for (; offset >= this->last_value_offset; offset -= sizeof(key_value_t)) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From cd31ff62b526bb7bd66225b9142e3c80b98ba006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 11/52] fix: objects still retired when an EpochManager is
 destroyed were never reclaimed

---
 include/indexes/utils/EpochManager.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 102178d..25a75d1 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -149,6 +149,13 @@ public:
   EpochManager(const EpochManager &) = delete;
   EpochManager(EpochManager &&) = delete;
 
+  // No thread may be using the epoch manager, so every retired object is safe.
+  ~EpochManager() {
+    for (auto &retire_list : m_retire_list) {
+      reclaim_in_retire_list(retire_list, QUIESCENT_STATE);
+    }
+  }
+
 private:
   class Retiree {
   public:
-- 
2.43.0


From c2e090ca705104e26b0d7e0bfaa8c56f3041d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 12/52] fix: range iterators kept a reference to the caller's
 end key

m.range_iter<...>(1, 10) left them with a dangling reference; also the types of
the two ends were swapped.
---
 include/indexes/btree/concurrent_map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 1cabfd4..0ab0c80 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2146,9 +2146,9 @@ protected:
     using minkey_type = typename MinkeyOps::cmp_key_type;
     using maxkey_type = typename MaxkeyOps::cmp_key_type;
     using endkey_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                           minkey_type, maxkey_type>;
+                                           maxkey_type, minkey_type>;
     using endkey_ops_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                               MinkeyOps, MaxkeyOps>;
+                                               MaxkeyOps, MinkeyOps>;
     using iterator = iterator_impl<IDir>;
 
     range_iterator(const concurrent_map_iter *map, DefOps defops,
@@ -2186,9 +2186,9 @@ protected:
     static auto get_end_key(const MinkeyType &min_key,
                             const MaxkeyType &max_key) {
       if constexpr (IDir == iter_direction::FORWARD)
-        return std::cref(max_key);
+        return max_key;
       else
-        return std::cref(min_key);
+        return min_key;
     }
 
     bool need_trav(const key_type &key) const noexcept {
@@ -2325,7 +2325,7 @@ protected:
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
     const endkey_ops_type m_endkey_ops;
-    const endkey_type &m_endkey;
+    const endkey_type m_endkey;
     std::optional<iterator> m_it;
   };
 
-- 
2.43.0


From 9c08e3544db7a04655a446c8df387832bfd5d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 13/52] fix: btree operations that allocate were noexcept

A failed allocation (slot vectors of iterators, copies of keys) terminated the
program instead of reaching the caller.
---
 include/indexes/btree/concurrent_map.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 0ab0c80..c722e12 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1065,7 +1065,7 @@ protected:
     }
 
     int get_slots_greater_than(const leaf_node_t *leaf, const KeyType &key,
-                               std::vector<int> &slot_offsets) const noexcept {
+                               std::vector<int> &slot_offsets) const {
       auto num_values = detail::load_acquire(leaf->num_values);
       auto pos = upper_bound_pos(leaf, key, num_values);
 
@@ -1074,8 +1074,7 @@ protected:
     }
 
     int get_slots_greater_than_eq(const leaf_node_t *leaf, const KeyType &key,
-                                  std::vector<int> &slot_offsets) const
-        noexcept {
+                                  std::vector<int> &slot_offsets) const {
       auto num_values = detail::load_acquire(leaf->num_values);
       auto pos = lower_bound_pos(leaf, key, num_values);
 
@@ -1084,7 +1083,7 @@ protected:
     }
 
     int get_slots_less_than(const leaf_node_t *leaf, const key_type &key,
-                            std::vector<int> &slot_offsets) const noexcept {
+                            std::vector<int> &slot_offsets) const {
       auto [pos, _, num_values] = lower_bound(leaf, key);
 
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
@@ -1135,7 +1134,7 @@ protected:
 
     std::pair<leaf_node_t *, int>
     get_next_leaf(const concurrent_map_access *map, const KeyType &highkey,
-                  std::vector<int> &slots) const noexcept {
+                  std::vector<int> &slots) const {
       auto [pos, leaf_snapshot, key] = get_next_leaf_util(map, highkey, slots);
       def_search_ops_t ops = *this;
 
@@ -1224,7 +1223,7 @@ protected:
 
     inline std::tuple<int, NodeSnapshot, const key_type *>
     get_next_leaf_util(const concurrent_map_access *map, const KeyType &key,
-                       std::vector<int> &slots) const noexcept {
+                       std::vector<int> &slots) const {
       NodeSnapshot leaf_snapshot = get_leaf_containing(map, key);
       auto leaf = ASLEAF(leaf_snapshot.node);
 
@@ -1282,7 +1281,7 @@ protected:
 
     // Must be called with leaf's mutex held
     InsertStatus insert(leaf_node_t *leaf, const key_type &key,
-                        const mapped_type &val) const noexcept {
+                        const mapped_type &val) const {
       auto key_present = false;
       int pos = 0;
 
@@ -1298,8 +1297,8 @@ protected:
 
     // Must be called with leaf's mutex held
     std::pair<InsertStatus, std::optional<mapped_type>>
-    upsert(leaf_node_t *leaf, const key_type &key, const mapped_type &val) const
-        noexcept {
+    upsert(leaf_node_t *leaf, const key_type &key,
+           const mapped_type &val) const {
       auto key_present = false;
       int pos = 0;
       std::optional<mapped_type> oldval = std::nullopt;
@@ -1373,7 +1372,7 @@ protected:
     // Must be called with node's mutex held
     inline InsertStatus
     update_inner_for_split(inner_node_t *inner,
-                           const NodeSplitInfo &splitinfo) const noexcept {
+                           const NodeSplitInfo &splitinfo) const {
       auto left_child = splitinfo.left;
       auto right_child = splitinfo.right;
       auto &split_key = *splitinfo.split_key;
@@ -2159,7 +2158,7 @@ protected:
           m_endkey(get_end_key(min_key, max_key)),
           m_it(get_iter(map, min_key, max_key)) {}
 
-    bool operator++() noexcept {
+    bool operator++() {
       m_it->next([this](auto &key) { return need_trav(key); },
                  [this](auto &it) { return ceil_iter(it); });
 
@@ -2263,7 +2262,7 @@ protected:
     template <typename MinkeyType, typename MaxkeyType>
     std::optional<iterator> get_iter(const concurrent_map_iter *map,
                                      const MinkeyType &min_key,
-                                     const MaxkeyType &max_key) noexcept {
+                                     const MaxkeyType &max_key) {
       auto it = [&] {
         if constexpr (IDir == iter_direction::FORWARD)
           return get_forward_iter(map, min_key, max_key);
-- 
2.43.0


From 261972bb9dca3cf841a640beea9fa3ee7aa7f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 14/52] fix: a leaf locked by the pessimistic traversal stayed
 locked if the insert threw

---
 include/indexes/btree/concurrent_map.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index c722e12..d94af06 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1663,14 +1663,14 @@ protected:
       (void)oldval;
 
     if (is_leaf_locked) {
+      std::lock_guard lock{leaf->mutex, std::adopt_lock};
+
       BTREE_DEBUG_ASSERT(!this->is_snapshot_stale(leaf_snapshot));
 
       if constexpr (DoUpsert)
         std::tie(status, oldval) = ops.upsert(leaf, key, val);
       else
         status = ops.insert(leaf, key, val);
-
-      leaf->mutex.unlock();
     } else {
       std::lock_guard lock{leaf->mutex};
 
@@ -1836,8 +1836,9 @@ protected:
       };
 
       if (is_leaf_locked) {
+        std::lock_guard lock{leaf->mutex, std::adopt_lock};
+
         do_delete();
-        leaf->mutex.unlock();
       } else {
         std::lock_guard lock{leaf->mutex};
 
-- 
2.43.0


From 11044894b498ac7dfcc468f4a5448e80f4ebd743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 15/52] fix: racing inserts into one hash chain lost or
 duplicated keys

A chain was extended without a lock on it: two inserters could store their
link into the same slot, losing one key, or both insert the same key.
---
 include/indexes/hashtable/concurrent_map.h | 62 ++++++++++++++--------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..f127589 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -282,6 +282,7 @@ private:
 
     struct InsertSearchResult {
       InsertResult res;
+      MutexLock chain_lock;
       MutexLock lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
@@ -294,33 +295,48 @@ private:
       while (true) {
         std::tie(found, sres) = search(key);
 
-        if (found) {
-          MutexLock lock{link[sres.bucket].m};
+        if (!found) {
+          // A chain is only extended under the lock of its ideal bucket, till
+          // the new bucket is linked. Otherwise two inserters could extend it
+          // at the same link or insert the same key twice.
+          // Locks cannot be cyclic: an occupied bucket's lock is held while
+          // locking a free one, and buckets never become free again.
+          size_t ideal_bucket = get_ideal_bucket(sres.hash);
+          MutexLock chain_lock{link[ideal_bucket].m};
 
-          if (buckets[sres.bucket].has_value()) {
-            return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
-          } else {
-            continue;
-          }
-        }
+          std::tie(found, sres) = search(key);
+
+          if (!found) {
+            auto bucket_link = get_bucket_to_insert(sres);
+
+            if (!bucket_link)
+              return {InsertResult::InsertResult_Overflow, {}, {}, 0, sres};
+
+            MutexLock lock;
 
-        if (auto bucket_link = get_bucket_to_insert(sres)) {
-          sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
+            sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
 
-          MutexLock lock{link[sres.bucket].m};
+            if (sres.bucket != ideal_bucket)
+              lock = MutexLock{link[sres.bucket].m};
+
+            if (!buckets[sres.bucket].is_free())
+              continue;
 
-          if (buckets[sres.bucket].is_free()) {
             increment_num_values();
 
-            return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
-          } else {
-            continue;
+            return {InsertResult::InsertResult_New, std::move(chain_lock),
+                    std::move(lock), *bucket_link, sres};
           }
-        } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
         }
+
+        MutexLock lock{link[sres.bucket].m};
+
+        if (buckets[sres.bucket].has_value())
+          return {InsertResult::InsertResult_AlreadyPresent,
+                  {},
+                  std::move(lock),
+                  0,
+                  sres};
       };
     }
   };
@@ -444,8 +460,8 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
+        ires.chain_lock = {};
+        ires.lock = {};
 
         wait_for_migration_to_end();
         continue;
@@ -476,8 +492,8 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
+        ires.chain_lock = {};
+        ires.lock = {};
 
         wait_for_migration_to_end();
         continue;
-- 
2.43.0


From 719ecf175e26c3097ed931b09ddb258a82215c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 16/52] fix: deleted hash table entries were reclaimed after
 their table

Delete() retired a pointer into the table, which could be reclaimed after the
table itself; and the reclaimer never destroyed the key and value, because a
deleted bucket has no value. They are destroyed with the table now.
---
 include/indexes/hashtable/concurrent_map.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index f127589..0f98a20 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -118,8 +118,10 @@ private:
         return this->hash == hash && key_value.first == key;
       }
 
+      // Deleted entries keep their key and value, as readers may still be using
+      // them.
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -568,14 +570,8 @@ public:
           val = bucket.key_value.second;
 
           bucket.mark_as_empty();
+          // Key and value are destroyed along with the table
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From e33968dbedd9fcc5626df62adbbe78b88f969ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 17/52] fix: the hash table was never released

---
 include/indexes/hashtable/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 0f98a20..9e33eb0 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -441,6 +441,8 @@ public:
     o_map.ht.store(nullptr);
   }
 
+  ~concurrent_map() { delete ht.load(); }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From db073aaae04fb0a7e3a99000ecf9dff5c7cb0851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 18/52] fix: hash table changes were lost when a migration
 completed in between

An operation that read the table pointer before a migration and locked its
bucket after it had completed changed the old table.
---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 9e33eb0..7d9ae08 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -400,6 +400,11 @@ private:
     return true;
   }
 
+  // Must be checked with the lock of the bucket to be changed held
+  bool is_stale(const HashTable &table) const {
+    return is_migration_in_progress || ht.load() != std::addressof(table);
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -463,7 +468,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         ires.chain_lock = {};
         ires.lock = {};
 
@@ -495,7 +500,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         ires.chain_lock = {};
         ires.lock = {};
 
@@ -533,7 +538,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -562,7 +567,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From ea65da3333e4b29e9b750ff6a53482a9ce4ecca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 19/52] fix: hash table size counted insertions that were
 retried

The count went up before the check for a migration, so an insertion that had to
be restarted was counted twice.
---
 include/indexes/hashtable/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 7d9ae08..7001ee3 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -324,8 +324,6 @@ private:
             if (!buckets[sres.bucket].is_free())
               continue;
 
-            increment_num_values();
-
             return {InsertResult::InsertResult_New, std::move(chain_lock),
                     std::move(lock), *bucket_link, sres};
           }
@@ -365,6 +363,7 @@ private:
                                      const mapped_type &val) {
     ht.buckets[sres.bucket].emplace(sres.hash, key, val);
     sres.link->store(bucket_link, std::memory_order_release);
+    ht.increment_num_values();
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-- 
2.43.0


From 25c5957df5590d62770274257e8d84fca68dfb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 20/52] fix: hash table searches could return a mix of two
 values

A value wider than a machine word, or one that owns memory, was copied while
Upsert() or Update() replaced it.
---
 include/indexes/hashtable/concurrent_map.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 7001ee3..84b4822 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -104,8 +104,7 @@ private:
       mapped_type exchange(const mapped_type &val) {
         mapped_type oldval = key_value.second;
 
-        this->key_value.second.~mapped_type();
-        new (&key_value.second) mapped_type{val};
+        key_value.second = val;
 
         return oldval;
       }
@@ -455,8 +454,16 @@ public:
     auto [found, sres] = ht.search(key);
     std::optional<mapped_type> val{std::nullopt};
 
-    if (found)
+    if (found) {
+      typename HashTable::MutexLock lock;
+
+      // Values which cannot be read at once must not change meanwhile
+      if constexpr (!std::is_trivially_copyable_v<mapped_type> ||
+                    sizeof(mapped_type) > sizeof(void *))
+        lock = typename HashTable::MutexLock{ht.link[sres.bucket].m};
+
       val = ht.buckets[sres.bucket].key_value.second;
+    }
 
     return val;
   }
-- 
2.43.0


From d0ef246436c4a7d71fa8a1ccf3c1a96351c54540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:44 +0000
Subject: [PATCH 21/52] fix: the new hash table leaked when a migration had to
 be retried

---
 include/indexes/hashtable/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 84b4822..5f1af65 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -366,7 +366,7 @@ private:
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-    auto *new_ht = new HashTable{new_num_buckets};
+    auto new_ht = std::make_unique<HashTable>(new_num_buckets);
     auto *old_ht = ht.load();
     size_t old_num_buckets = old_ht->num_buckets;
 
@@ -390,7 +390,7 @@ private:
       }
     }
 
-    ht.store(new_ht);
+    ht.store(new_ht.release());
     m_gc.retire_in_new_epoch(
         [&](void *ptr) { delete reinterpret_cast<HashTable *>(ptr); },
         reinterpret_cast<void *>(old_ht));
-- 
2.43.0


From aeba1f3fea861899f5ad2b74b90ec915de379efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 22/52] fix: endless migration when an overflowing hash table
 need not grow

An insertion that finds no free bucket near its chain migrates the table. If
the table is less than half full, the new one was no larger, the same insertion
overflowed again, and it recursed until the stack overflowed.
---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 5f1af65..81e493b 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -414,8 +414,17 @@ private:
     if (migration_lock) {
       is_migration_in_progress = true;
 
-      if (new_num_buckets == 0)
-        new_num_buckets = size() * 2;
+      if (new_num_buckets == 0) {
+        const HashTable &old_ht = *ht.load();
+        auto [num_values, num_tomb_stones] = old_ht.get_stats();
+
+        new_num_buckets = (num_values - num_tomb_stones) * 2;
+
+        // Without deleted entries to leave out, only a larger table has room
+        if (num_tomb_stones == 0)
+          new_num_buckets =
+              std::max(new_num_buckets, old_ht.num_buckets * 2);
+      }
 
       new_num_buckets = next_pow_2(new_num_buckets);
 
-- 
2.43.0


From 62993b2f6e64d046c47a2cc92d8a7694e5e76a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 23/52] fix: a hash table migration that ran out of memory
 blocked all later changes

is_migration_in_progress stayed set, so every later operation retried forever.
---
 include/indexes/hashtable/concurrent_map.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 81e493b..3d9645c 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -412,7 +412,14 @@ private:
                                                  std::try_to_lock};
 
     if (migration_lock) {
-      is_migration_in_progress = true;
+      struct MigrationMark {
+        std::atomic<bool> &mark;
+
+        MigrationMark(std::atomic<bool> &a_mark) : mark(a_mark) { mark = true; }
+        ~MigrationMark() { mark = false; }
+      };
+
+      MigrationMark migration_mark{is_migration_in_progress};
 
       if (new_num_buckets == 0) {
         const HashTable &old_ht = *ht.load();
@@ -432,8 +439,6 @@ private:
         new_num_buckets *= 2;
       }
 
-      is_migration_in_progress = false;
-
       num_migrations++;
     } else {
       wait_for_migration_to_end();
-- 
2.43.0


From 50aadae7fc38e1215c078e60f83f9df6b64877dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 24/52] fix: size() and load_factor() read a hash table another
 thread may release

---
 include/indexes/hashtable/concurrent_map.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 3d9645c..2ed518f 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -345,12 +345,12 @@ private:
   sync_prim::mutex::Mutex migration_mutex;
   std::atomic<int> num_migrations;
 
-  indexes::utils::EpochManager<uint64_t, void> m_gc;
+  mutable indexes::utils::EpochManager<uint64_t, void> m_gc;
 
   struct EpochGuard {
-    concurrent_map *map;
+    const concurrent_map *map;
 
-    EpochGuard(concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
+    EpochGuard(const concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
 
     ~EpochGuard() { map->m_gc.exit_epoch(); }
   };
@@ -611,12 +611,14 @@ public:
   size_t size() const {
     std::atomic_thread_fence(std::memory_order_seq_cst);
 
+    EpochGuard eg{this};
     auto [num_values, num_tomb_stones] = ht.load()->get_stats();
 
     return num_values - num_tomb_stones;
   }
 
   int load_factor() const {
+    EpochGuard eg{this};
     HashTable &ht = *this->ht.load();
     auto [num_values, num_tomb_stones] = ht.get_stats();
 
-- 
2.43.0


From 60b18dd36a431e75d3b6a63619022335b3df639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 25/52] fix: ART nodes found after they were removed could
 still be changed

A snapshot of a node already marked dead has the dead version, which lock() accepted.
---
 include/indexes/art/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..f6f5744 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -781,7 +781,7 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      if (load_rx(node->version) != version || node->is_deleted()) {
         lock.unlock();
       }
 
-- 
2.43.0


From 03d9a706ac3fa7420570753c16fb27bf5a23c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 26/52] fix: the last leaf of an ART could be changed after it
 was removed

Only leaves with a parent were marked dead.
---
 include/indexes/art/concurrent_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index f6f5744..6191155 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -924,6 +924,7 @@ private:
         } else {
           if (auto lock = root_snapshot.lock_root(map)) {
             map.root = nullptr;
+            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         }
-- 
2.43.0


From 3a45d0c8bf24b78f4e9811b4f101c6df358d699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 27/52] fix: ART Delete could return a value that was replaced
 before the removal

The value was read before the leaf was locked.
---
 include/indexes/art/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 6191155..be53718 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -910,11 +910,13 @@ private:
 
     std::optional<value_type> remove_leaf(leaf_t *leaf, node_snapshot_t &node,
                                           node_snapshot_t &parent) {
-      value_type oldval = leaf->value;
+      std::optional<value_type> oldval;
 
       is_snapshot_stale = true;
 
       if (auto lock = node.lock()) {
+        oldval = leaf->value;
+
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
-- 
2.43.0


From f2add7e47e0b79862106887accc555b9706acba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 28/52] fix: ART searches could return a mix of two values

---
 include/indexes/art/concurrent_map.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index be53718..b26141b 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -61,6 +61,8 @@ private:
     }
   }
 
+  using LockType = std::unique_lock<sync_prim::mutex::Mutex>;
+
   enum class node_type_t : std::uint8_t {
     LEAF,
     NODE4,
@@ -390,6 +392,17 @@ private:
 
     leaf_t(key_type key, value_type a_value)
         : node_t(node_type_t::LEAF, key, KEYTYPE_SIZE), value(a_value) {}
+
+    value_type get_value() {
+      LockType lock;
+
+      // Values which cannot be read at once must not change meanwhile
+      if constexpr (!std::is_trivially_copyable_v<value_type> ||
+                    sizeof(value_type) > sizeof(void *))
+        lock = LockType{this->m};
+
+      return value;
+    }
   };
 
   using atomic_key_t = std::atomic<std::uint8_t>;
@@ -752,8 +765,6 @@ private:
     UOP_Upsert,
   };
 
-  using LockType = std::unique_lock<sync_prim::mutex::Mutex>;
-
   struct EpochGuard {
     const concurrent_map *map;
 
@@ -823,10 +834,11 @@ private:
           return std::exchange(leaf->value, value);
         } else {
           is_snapshot_stale = true;
+          return {};
         }
       }
 
-      return leaf->value;
+      return leaf->get_value();
     }
 
     bool replace_root(node_t *node) {
@@ -1183,9 +1195,9 @@ public:
 
     while (node) {
       if (node->is_leaf()) {
-        auto leaf = static_cast<const leaf_t *>(node);
+        auto leaf = static_cast<leaf_t *>(node);
         if (leaf->key == key) {
-          return leaf->value;
+          return leaf->get_value();
         }
 
         break;
-- 
2.43.0


From 1853e0ce0cd00208f948e47ecb2136e9faf28304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 29/52] fix: an ART leaf leaked when adding it had to be
 retried or ran out of memory

---
 include/indexes/art/concurrent_map.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index b26141b..6da35e5 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1012,27 +1012,28 @@ private:
       if constexpr (UOp != UpdateOp::UOP_Update) {
         int keylen = node->level - depth;
         int common_prefix_len = std::min(lcpl - depth, keylen);
-        auto leaf = new leaf_t(key, value);
+        auto leaf = std::make_unique<leaf_t>(key, value);
 
         if (common_prefix_len && (node->is_leaf() || keylen)) {
           if (auto lock = node.lock()) {
             node4_t *decomped_node = decompress_node(node.node, lcpl);
 
-            decomped_node->add(leaf);
+            decomped_node->add(leaf.get());
 
             if (update_parent(decomped_node, parent)) {
+              leaf.release();
               return true;
             } else {
               delete decomped_node;
             }
           }
         } else {
-          if (add_to_parent(leaf, parent, grand_parent)) {
+          if (add_to_parent(leaf.get(), parent, grand_parent)) {
+            leaf.release();
             return true;
           }
         }
 
-        delete leaf;
         return false;
       }
 
@@ -1083,7 +1084,11 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = std::make_unique<leaf_t>(key, value);
+
+        if (add_to_parent(leaf.get(), parent, grand_parent)) {
+          leaf.release();
+        } else {
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From aa28403efcdf88c4981f1b4d8df8071d3259735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 30/52] fix: unused copies of ART nodes were deleted as the
 wrong type, or locked

---
 include/indexes/art/concurrent_map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 6da35e5..34d8ff7 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -901,8 +901,10 @@ private:
             }
           }
 
+          child_lock.unlock();
+
           if (node->node_type != node_type_t::NODE4) {
-            delete replacement;
+            node_t::free(replacement);
           }
         } else {
           if (parent) {
@@ -965,7 +967,7 @@ private:
         map.m_gc.retire_in_new_epoch(node_t::free, old);
       } else {
         lock.unlock();
-        delete node;
+        node_t::free(node);
         node = nullptr;
       }
 
-- 
2.43.0


From 0148aab16a573f78b9b2477b22ce558555286d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 31/52] fix: ART nodes never shrunk, and an emptied node failed
 debug assertions

The version taken before the removal of the leaf always differed afterwards. A node
is empty between the removal of its last child and its own removal.
---
 include/indexes/art/concurrent_map.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 34d8ff7..a4dcc8f 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -139,8 +139,6 @@ private:
     }
 
     node_t *find(std::uint8_t ind) const {
-      ART_DEBUG_ASSERT(this->size() != 0);
-
       switch (node_type) {
       case node_type_t::NODE4:
         return static_cast<const node4_t *>(this)->find(ind);
@@ -262,7 +260,6 @@ private:
     }
 
     node_t *expand() const {
-      ART_DEBUG_ASSERT(this->size() != 0);
       ART_DEBUG_ASSERT(m.is_locked());
 
       switch (node_type) {
@@ -293,8 +290,6 @@ private:
     }
 
     bool is_underfull() const {
-      ART_DEBUG_ASSERT(this->size() != 0);
-
       switch (node_type) {
       case node_type_t::NODE4:
         return static_cast<const node4_t *>(this)->is_underfull();
@@ -340,7 +335,6 @@ private:
     }
 
     static void free(node_t *node) {
-      ART_DEBUG_ASSERT(node->is_leaf() || node->size() != 0);
       ART_DEBUG_ASSERT(!node->m.is_locked());
 
       switch (node->node_type) {
@@ -934,6 +928,7 @@ private:
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
+            parent.version = load_rx(parent->version);
             leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
-- 
2.43.0


From c7a7b1e0a80ac7046c69b335b423e599c430ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 32/52] fix: a moved-to ART had no mutex for its root

---
 include/indexes/art/concurrent_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index a4dcc8f..d4bc55a 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1186,7 +1186,8 @@ public:
   concurrent_map(const concurrent_map &) = delete;
 
   concurrent_map(concurrent_map &&other)
-      : root(other.root.exchange(nullptr)),
+      : root_mtx(std::make_unique<sync_prim::mutex::Mutex>()),
+        root(other.root.exchange(nullptr)),
         count(std::exchange(other.count, nullptr)) {}
 
   std::optional<value_type> Search(key_type key) const {
-- 
2.43.0


From b7d180ea36ab3b8fda78a656fd0ea12906a1c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 33/52] fix: an ART update that ran out of memory while copying
 destroyed the old value

---
 include/indexes/art/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index d4bc55a..fbc22c6 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -825,7 +825,7 @@ private:
 
       if constexpr (UOp != UpdateOp::UOP_Insert) {
         if (auto lock = node.lock()) {
-          return std::exchange(leaf->value, value);
+          return std::exchange(leaf->value, std::move(value));
         } else {
           is_snapshot_stale = true;
           return {};
-- 
2.43.0


From 3e1732b92d77cdcb95a8cae6a369e22641b3938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:47 +0000
Subject: [PATCH 34/52] fix: size() of an ART counted keys whose deletion ran
 out of memory afterwards

Removing the leaf is followed by allocations, which may throw.
---
 include/indexes/art/concurrent_map.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index fbc22c6..14239bb 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -942,6 +942,10 @@ private:
       }
 
       if (!is_snapshot_stale) {
+        std::atomic<std::size_t> &num_deletes =
+            map.count[utils::ThreadRegistry::ThreadID()].num_deletes;
+        store_rx(num_deletes, load_rx(num_deletes) + 1);
+
         map.m_gc.retire_in_new_epoch(node_t::free, leaf);
       }
 
@@ -1256,15 +1260,7 @@ public:
   }
 
   std::optional<value_type> Delete(key_type key) {
-    auto &&old = erase(key);
-
-    if (old) {
-      std::atomic<std::size_t> &num_deletes =
-          count[utils::ThreadRegistry::ThreadID()].num_deletes;
-      store_rx(num_deletes, load_rx(num_deletes) + 1);
-    }
-
-    return std::move(old);
+    return erase(key);
   }
 
   std::size_t size() const {
-- 
2.43.0


From 997670d1dd89de18d688c1cf84f567a6275233b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 35/52] fix: end() of a const btree::map never returned

end() const and cend() called each other.
---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..f942db4 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
-- 
2.43.0


From 921002c6d324c1f37a618c6ab28de1e41c4d1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 36/52] fix: values inserted into a btree::map were never
 constructed

operator[] constructed the key only, and returned a reference to raw memory.
---
 include/indexes/btree/map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f942db4..0f2dd46 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -262,7 +262,9 @@ private:
         int current_value_offset =
             this->last_value_offset - sizeof(key_value_t);
 
-        new (opaque() + current_value_offset) key_type{key};
+        new (opaque() + current_value_offset)
+            key_value_t(std::piecewise_construct, std::forward_as_tuple(key),
+                        std::forward_as_tuple());
 
         std::copy_backward(slots + pos, slots + this->num_values,
                            slots + this->num_values + 1);
-- 
2.43.0


From a6125faec5135e57b55c0437c523db24414ad567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 37/52] fix: iterating a btree::map with an empty leaf read
 removed elements

A leaf without a left sibling is not merged when it becomes empty, e.g. the only
leaf of an emptied map. rbegin() of a new map dereferenced a null pointer.
---
 include/indexes/btree/map.h | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 0f2dd46..b88b6ad 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -725,26 +725,21 @@ public:
     friend class map;
 
     void increment() {
-      if (++m_curslot >= m_leaf->num_values) {
-        if (this->m_leaf->highkey) {
-          m_leaf = m_bt->get_next_leaf(m_leaf);
-          m_curslot = 0;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      ++m_curslot;
+
+      // Leaves may be empty
+      while (m_leaf && m_curslot >= m_leaf->num_values) {
+        m_leaf = m_leaf->highkey ? m_bt->get_next_leaf(m_leaf) : nullptr;
+        m_curslot = 0;
       }
     }
 
     void decrement() {
-      if (--m_curslot < 0) {
-        if (this->m_leaf->lowkey) {
-          m_leaf = m_bt->get_prev_leaf(this->m_leaf);
-          m_curslot = m_leaf->num_values - 1;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      --m_curslot;
+
+      while (m_leaf && m_curslot < 0) {
+        m_leaf = m_leaf->lowkey ? m_bt->get_prev_leaf(m_leaf) : nullptr;
+        m_curslot = m_leaf ? m_leaf->num_values - 1 : 0;
       }
     }
 
@@ -890,11 +885,17 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() {
+    leaf_node_t *leaf = get_first_leaf();
+    return leaf ? ++iterator{this, leaf, -1} : end();
+  }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    leaf_node_t *leaf = get_first_leaf();
+    return leaf ? ++const_iterator{this, leaf, -1} : cend();
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -903,15 +904,16 @@ public:
   inline const_iterator end() const { return cend(); }
 
   inline reverse_iterator rbegin() {
-    auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    leaf_node_t *leaf = get_last_leaf();
+    return leaf ? ++reverse_iterator{this, leaf, leaf->num_values} : rend();
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
-    auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    leaf_node_t *leaf = get_last_leaf();
+    return leaf ? ++const_reverse_iterator{this, leaf, leaf->num_values}
+                : crend();
   }
 
   inline const_reverse_iterator crend() const { return end(); }
-- 
2.43.0


From 93263d9031103dcc88b2c0edb60667802a1e1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 38/52] fix: keys and values erased from a btree::map were
 never destroyed

Looking up the parent of an empty node relied on them, hence use the low key.
---
 include/indexes/btree/map.h | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index b88b6ad..232d412 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -168,13 +168,6 @@ private:
       return slot == 0 ? get_first_child() : get_key_value(slot)->second;
     }
 
-    inline const Key &get_first_key() const {
-      if constexpr (IsInner())
-        return get_key_value(1)->first;
-      else
-        return get_key_value(0)->first;
-    }
-
     INNER_ONLY
     inline value_t get_first_child() const {
       value_t *valptr = reinterpret_cast<value_t *>(&get_key_value(0)->first);
@@ -334,6 +327,8 @@ private:
     void remove(int pos) {
       int *slots = get_slots();
 
+      get_key_value(pos)->~key_value_t();
+
       std::copy(slots + pos + 1, slots + this->num_values, slots + pos);
 
       this->num_values--;
@@ -470,15 +465,16 @@ private:
     m_root = new_root;
   }
 
+  // Position of the child which is on the path to a node. The node may be empty.
+  static int get_child_pos(const inner_node_t *inner, const node_t *node) {
+    return node->lowkey ? inner->search_inner(*node->lowkey) : 0;
+  }
+
   template <typename Node> inner_node_t *find_parent(Node *node) const {
-    const Key &key = node->get_first_key();
     inner_node_t *parent = nullptr;
 
-    for (auto *current = m_root; current && current->isInner();
-         current = ASINNER(current)->get_child_for_key(key)) {
-      if (current == node)
-        break;
-
+    for (node_t *current = m_root; current != node;
+         current = parent->get_child(get_child_pos(parent, node))) {
       parent = ASINNER(current);
     }
 
@@ -496,7 +492,7 @@ private:
     if (parent == nullptr)
       return std::nullopt;
 
-    int pos = parent->search_inner(node->get_first_key());
+    int pos = get_child_pos(parent, node);
 
     if (pos == 0)
       return std::nullopt;
@@ -541,7 +537,7 @@ private:
     NodeSplitInfo<Node> splitinfo = node->split();
 
     if (node != m_root) {
-      int left_pos = parent->search_inner(node->get_first_key());
+      int left_pos = get_child_pos(parent, node);
       int right_pos = left_pos + 1;
 
       parent->update(left_pos, splitinfo.left);
@@ -564,7 +560,7 @@ private:
     Node *new_node = node->trim();
 
     if (node != m_root) {
-      int pos = parent->search_inner(node->get_first_key());
+      int pos = get_child_pos(parent, node);
 
       parent->update(pos, new_node);
     } else {
-- 
2.43.0


From 4a408d1dc2e2bbf0d3810953375a43d5191b309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 39/52] fix: elements of a btree::map were lost when a split
 ran out of memory

The parent already referred to the left half when inserting the right one failed.
---
 include/indexes/btree/map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 232d412..a8f2768 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -537,14 +537,14 @@ private:
     NodeSplitInfo<Node> splitinfo = node->split();
 
     if (node != m_root) {
-      int left_pos = get_child_pos(parent, node);
-      int right_pos = left_pos + 1;
+      int right_pos = get_child_pos(parent, node) + 1;
 
-      parent->update(left_pos, splitinfo.left);
+      // May throw, hence must be done before the node is replaced
       std::tie(parent, right_pos) =
           insert_into_node(parent, splitinfo.split_key, right_pos);
 
       parent->get_key_value(right_pos)->second = splitinfo.right;
+      parent->update(right_pos - 1, splitinfo.left);
     } else {
       create_root(splitinfo);
     }
-- 
2.43.0


From 8c45e44500312423b723e352c6e2ef2316ab5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 40/52] fix: size and height of a btree::map were wrong after
 an allocation failed

An element is erased even if merging its leaf fails afterwards.
---
 include/indexes/btree/map.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index a8f2768..908c7f8 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -457,12 +457,13 @@ private:
   template <typename Node>
   inline void create_root(NodeSplitInfo<Node> splitinfo) {
     inner_node_t *new_root = inner_node_t::alloc(
-        splitinfo.left->lowkey, splitinfo.right->highkey, ++m_height);
+        splitinfo.left->lowkey, splitinfo.right->highkey, m_height + 1);
 
     new_root->insert_neg_infinity(splitinfo.left);
     new_root->append(splitinfo.split_key, splitinfo.right);
 
     m_root = new_root;
+    m_height++;
   }
 
   // Position of the child which is on the path to a node. The node may be empty.
@@ -515,12 +516,12 @@ private:
       if (mergednode) {
         parent->update(sibilingpos, mergednode);
 
-        remove_from_node(parent, sibilingpos + 1);
-
         BTREE_UPDATE_STAT_NODE_BASED(merge);
 
         node_t::free(node);
         node_t::free(sibiling);
+
+        remove_from_node(parent, sibilingpos + 1);
       }
     }
   }
@@ -840,8 +841,8 @@ public:
   }
 
   void erase(iterator it) {
-    it.m_bt->remove_from_node(it.m_leaf, it.m_curslot);
     count--;
+    it.m_bt->remove_from_node(it.m_leaf, it.m_curslot);
   }
 
   bool erase(const Key &key) {
-- 
2.43.0


From ed15fea3d40ac7e995475fc093d635a1124b6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 41/52] fix: art::map lost keys when a full node with a long
 prefix grew

The slot of a node in its parent is picked by the first byte of its prefix,
not by the last one.
---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..0a13ea0 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(
+              parent, node_t::get_ind(node->key, depth - old->keylen));
         else
           root = parent;
 
-- 
2.43.0


From 4e90680788585c263a44341a1d79bcb86dbe3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 42/52] fix: an art::map update that ran out of memory while
 copying destroyed the old value

Copying the new value may throw, after the old one has been moved from.
---
 include/indexes/art/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 0a13ea0..9766c21 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -595,7 +595,7 @@ private:
   static std::optional<value_type> update_leaf(node_t *node, value_type value) {
     auto leaf = static_cast<leaf_t *>(node);
     if constexpr (UOp != UpdateOp::UOP_Insert)
-      return std::exchange(leaf->value, value);
+      return std::exchange(leaf->value, std::move(value));
     else
       return leaf->value;
   }
-- 
2.43.0


From 5fabb2d217236e36dac6bd2b1fb6e63d651687fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 43/52] fix: size() of an art::map counted a key whose deletion
 ran out of memory afterwards

Removing the leaf may be followed by shrinking its parent, which allocates.
---
 include/indexes/art/map.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 9766c21..7a768c7 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -743,6 +743,7 @@ private:
           root = nullptr;
         }
 
+        m_size--;
         leaf->free();
         return oldval;
       } else {
@@ -844,13 +845,7 @@ public:
   }
 
   std::optional<value_type> Delete(key_type key) {
-    auto &&old = erase(root, nullptr, key, 0);
-
-    if (old) {
-      m_size--;
-    }
-
-    return std::move(old);
+    return erase(root, nullptr, key, 0);
   }
 
   std::size_t size() const { return m_size; }
-- 
2.43.0


From 161865d874c14794e0648e0765b43a9ba4c1b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 44/52] fix: btree::map iterators could not move back from
 end() or rend()

Decrementing end() or incrementing past rend() dereferenced a null leaf.
---
 include/indexes/btree/map.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 908c7f8..0cf81b4 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -722,6 +722,12 @@ public:
     friend class map;
 
     void increment() {
+      // Moving back from rend() leads to the first entry
+      if (m_leaf == nullptr) {
+        m_leaf = m_bt->get_first_leaf();
+        m_curslot = -1;
+      }
+
       ++m_curslot;
 
       // Leaves may be empty
@@ -732,6 +738,12 @@ public:
     }
 
     void decrement() {
+      // Moving back from end() leads to the last entry
+      if (m_leaf == nullptr) {
+        m_leaf = m_bt->get_last_leaf();
+        m_curslot = m_leaf ? m_leaf->num_values : 0;
+      }
+
       --m_curslot;
 
       while (m_leaf && m_curslot < 0) {
-- 
2.43.0


From 769f08b534ec83c4570257087984f456bca12107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 45/52] fix: btree::map leaked nodes when an allocation failed

Nodes under construction are owned until they are part of the tree.
---
 include/indexes/btree/map.h | 43 +++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 0cf81b4..93ebdca 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -127,8 +127,11 @@ private:
     static inherited_node_t *alloc(const std::optional<Key> &lowkey,
                                    const std::optional<Key> &highkey,
                                    int height) {
-      return new (new char[Traits::NODE_SIZE])
-          inherited_node_t(lowkey, highkey, height);
+      std::unique_ptr<char[]> mem{new char[Traits::NODE_SIZE]};
+      auto node = new (mem.get()) inherited_node_t(lowkey, highkey, height);
+
+      mem.release();
+      return node;
     }
 
     inline bool canMerge(const node_t *other) const {
@@ -343,8 +346,8 @@ private:
     }
 
     inherited_node_t *trim() const {
-      inherited_node_t *new_node =
-          alloc(this->lowkey, this->highkey, this->height);
+      std::unique_ptr<inherited_node_t> new_node{
+          alloc(this->lowkey, this->highkey, this->height)};
 
       if constexpr (IsLeaf()) {
         new_node->copy_from(this, 0, this->num_values);
@@ -353,7 +356,7 @@ private:
         new_node->copy_from(this, 1, this->num_values);
       }
 
-      return new_node;
+      return new_node.release();
     }
 
     NodeSplitInfo<inherited_node_t> split() const {
@@ -361,9 +364,11 @@ private:
 
       int split_pos =
           IsInner() ? this->num_values / 2 : (this->num_values + 1) / 2;
-      const Key &split_key = get_key(split_pos);
-      inherited_node_t *left = alloc(this->lowkey, split_key, this->height);
-      inherited_node_t *right = alloc(split_key, this->highkey, this->height);
+      Key split_key = get_key(split_pos);
+      std::unique_ptr<inherited_node_t> left{
+          alloc(this->lowkey, split_key, this->height)};
+      std::unique_ptr<inherited_node_t> right{
+          alloc(split_key, this->highkey, this->height)};
 
       if constexpr (IsInner()) {
         left->insert_neg_infinity(get_first_child());
@@ -376,15 +381,15 @@ private:
         right->copy_from(this, split_pos, this->num_values);
       }
 
-      return {left, right, split_key};
+      return {left.release(), right.release(), std::move(split_key)};
     }
 
     inherited_node_t *merge(const inherited_node_t *other,
                             const Key &merge_key) const {
-      inherited_node_t *mergednode = nullptr;
+      std::unique_ptr<inherited_node_t> mergednode;
 
       if (this->canMerge(other)) {
-        mergednode = alloc(this->lowkey, other->highkey, this->height);
+        mergednode.reset(alloc(this->lowkey, other->highkey, this->height));
 
         if constexpr (IsInner()) {
           mergednode->insert_neg_infinity(get_first_child());
@@ -403,7 +408,7 @@ private:
                            this->num_values + other->num_values);
       }
 
-      return mergednode;
+      return mergednode.release();
     }
 
     template <typename Cont, typename Dummy = void,
@@ -455,14 +460,14 @@ private:
   std::unique_ptr<Stats> m_stats = std::make_unique<Stats>();
 
   template <typename Node>
-  inline void create_root(NodeSplitInfo<Node> splitinfo) {
-    inner_node_t *new_root = inner_node_t::alloc(
-        splitinfo.left->lowkey, splitinfo.right->highkey, m_height + 1);
+  inline void create_root(const NodeSplitInfo<Node> &splitinfo) {
+    std::unique_ptr<inner_node_t> new_root{inner_node_t::alloc(
+        splitinfo.left->lowkey, splitinfo.right->highkey, m_height + 1)};
 
     new_root->insert_neg_infinity(splitinfo.left);
     new_root->append(splitinfo.split_key, splitinfo.right);
 
-    m_root = new_root;
+    m_root = new_root.release();
     m_height++;
   }
 
@@ -536,6 +541,9 @@ private:
   template <typename Node>
   NodeSplitInfo<Node> split_node(Node *node, inner_node_t *parent) {
     NodeSplitInfo<Node> splitinfo = node->split();
+    // Not part of the tree until everything which may throw is done
+    std::unique_ptr<Node> left{splitinfo.left};
+    std::unique_ptr<Node> right{splitinfo.right};
 
     if (node != m_root) {
       int right_pos = get_child_pos(parent, node) + 1;
@@ -550,6 +558,9 @@ private:
       create_root(splitinfo);
     }
 
+    left.release();
+    right.release();
+
     BTREE_UPDATE_STAT_NODE_BASED(split);
 
     node_t::free(node);
-- 
2.43.0


From 2f9d4184237094bb6fa1ea1e37ada356e54e7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 46/52] fix: art::map leaked the new leaf when an allocation
 failed

---
 include/indexes/art/map.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 7a768c7..126308e 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -5,6 +5,8 @@
 
 #include "common.h"
 
+#include <memory>
+
 namespace indexes::art {
 template <typename Value, typename Traits = art_traits_default> class map {
 public:
@@ -635,13 +637,15 @@ private:
   void replace_node(key_type key, value_type value, int depth, int lcpl,
                     node_t *node, node_t *parent) {
     int common_prefix_len = std::min<int>(lcpl - depth, node->keylen);
-    auto leaf =
-        new leaf_t(key, value, KEYTYPE_SIZE - depth - common_prefix_len);
+    auto leaf = std::make_unique<leaf_t>(
+        key, value, KEYTYPE_SIZE - depth - common_prefix_len);
     key_type prefix = node_t::extract_common_prefix(key, lcpl);
     auto inner = new node4_t(prefix, common_prefix_len);
 
     inner->add(node, node_t::get_ind(node->key, depth + common_prefix_len));
-    inner->add(leaf, node_t::get_ind(leaf->key, depth + common_prefix_len));
+    inner->add(leaf.get(),
+               node_t::get_ind(leaf->key, depth + common_prefix_len));
+    leaf.release();
 
     node->keylen -= common_prefix_len;
 
@@ -661,8 +665,10 @@ private:
       if (common_prefix_len && (node->is_leaf() || node->keylen)) {
         replace_node(key, value, depth, lcpl, node, parent);
       } else {
-        add_to_parent(parent, grand_parent,
-                      new leaf_t(key, value, KEYTYPE_SIZE - depth), depth);
+        auto leaf = std::make_unique<leaf_t>(key, value, KEYTYPE_SIZE - depth);
+
+        add_to_parent(parent, grand_parent, leaf.get(), depth);
+        leaf.release();
       }
     }
   }
@@ -702,8 +708,10 @@ private:
     }
 
     if constexpr (UOp != UpdateOp::UOP_Update) {
-      add_to_parent(parent, grand_parent,
-                    new leaf_t(key, value, KEYTYPE_SIZE - depth), depth);
+      auto leaf = std::make_unique<leaf_t>(key, value, KEYTYPE_SIZE - depth);
+
+      add_to_parent(parent, grand_parent, leaf.get(), depth);
+      leaf.release();
     }
 
     return {};
-- 
2.43.0


From fe919f5feb0d053919021c3f63689d83f810afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 47/52] fix: btree::concurrent_map never merged inner nodes
 after a leaf merge

Merging a leaf changes its parent, so the snapshot taken of the parent on the
way down was always stale when the parent was then to be merged itself, and
the merge was given up. Inner nodes, and one leaf under each of them, stayed
behind for good however few elements were left.
---
 include/indexes/btree/concurrent_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index d94af06..a5bb488 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1750,12 +1750,12 @@ protected:
 
   template <typename Node>
   void merge_node(update_ops_t ops, int node_idx,
-                  const NodeSnapshotVector &snapshots, const key_type &key) {
+                  NodeSnapshotVector &snapshots, const key_type &key) {
     if (node_idx == 1)
       return;
 
     const NodeSnapshot &node_snapshot = snapshots[node_idx];
-    const NodeSnapshot &parent_snapshot = snapshots[node_idx - 1];
+    NodeSnapshot &parent_snapshot = snapshots[node_idx - 1];
     auto node = static_cast<Node *>(node_snapshot.node);
     auto parent = static_cast<inner_node_t *>(parent_snapshot.node);
     std::optional<MergeInfo> mergeinfo = get_merge_info(ops, node, parent, key);
@@ -1785,6 +1785,7 @@ protected:
         BTREE_UPDATE_STAT_NODE_BASED(merge);
 
         ops.update_inner_for_merge(parent, sibilingpos, mergednode);
+        parent_snapshot.state = parent->getState();
 
         sibiling->setState(
             sibiling->getState().set_deleted().increment_version());
-- 
2.43.0


From 66b8fdfec7b94e4f04b2dc4f30cf77fa02bc48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 48/52] fix: btree::concurrent_map::stats() did not compile

---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index a5bb488..788dca6 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2772,7 +2772,7 @@ public:
   }
 
   template <ENABLE_IF(Traits::STAT)> inline const Stats &stats() const {
-    return this->m_stats;
+    return *this->m_stats;
   }
 
   ~concurrent_map() {
-- 
2.43.0


From bbe447858fd2807cdd97b724cfdb27f524f9ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 49/52] fix: keys with a dynamic comparison did not compile in
 btree::concurrent_map

---
 include/indexes/btree/concurrent_map.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 788dca6..0e82ddc 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -923,13 +923,14 @@ protected:
   template <typename KeyType> class search_ops_t {
   public:
     using cmp_key_type = KeyType;
-    using comparator_t = std::conditional_t<is_dynamic_key, dynamic_cmp *,
-                                            static_cmp<key_type, KeyType>>;
+    using comparator_t =
+        std::conditional_t<is_dynamic_key, const dynamic_cmp *,
+                           static_cmp<key_type, KeyType>>;
 
     STATIC_KEY_ONLY
     search_ops_t(Stats *stats) : m_stats(stats) {}
     DYNAMIC_KEY_ONLY
-    search_ops_t(Stats *stats, const dynamic_cmp *cmp)
+    search_ops_t(const dynamic_cmp *cmp, Stats *stats)
         : m_cmp(cmp), m_stats(stats) {}
 
     template <typename OthKeyType>
@@ -963,16 +964,16 @@ protected:
     template <typename Key1Type, typename Key2Type>
     inline bool less_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k2 < k1);
+      return !less(k2, k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater(const Key1Type &k1, const Key2Type &k2) const noexcept {
-      return k2 < k1;
+      return less(k2, k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k1 < k2);
+      return !less(k1, k2);
     }
 
     template <typename NodeType> class lower_bound_cmp {
@@ -2482,7 +2483,7 @@ protected:
     if (leaf && node_empty)
       it++;
 
-    return leaf ? std::move(it) : end({this->m_stats.get()});
+    return leaf ? std::move(it) : end(ops);
   }
 };
 } // namespace detail
-- 
2.43.0


From 76f42164a7ff473efc3cd947ae9c10ada344ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 50/52] fix: compound_key_greater sorts its components in
 descending order

---
 include/indexes/btree/key.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/key.h b/include/indexes/btree/key.h
index a1a17c7..dcff958 100644
--- a/include/indexes/btree/key.h
+++ b/include/indexes/btree/key.h
@@ -28,10 +28,10 @@ bool less(const compound_key<Order, Types1...> &k1,
       return false;
   } else {
     if (std::get<Index>(k1) < std::get<Index>(k2))
-      return true;
+      return Order == LESS;
 
     if (std::get<Index>(k2) < std::get<Index>(k1))
-      return false;
+      return Order == GREATER;
 
     return less<Index + 1>(k1, k2);
   }
-- 
2.43.0


From c30666d4a8314eb79171d483944863e900fe3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 51/52] fix: btree::map orders keys with its Compare parameter

---
 include/indexes/btree/map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 93ebdca..13905cd 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -7,7 +7,7 @@
 
 namespace indexes::btree {
 template <typename Key, typename Value, typename Traits = btree_traits_default,
-          typename Compare = std::less<Key>,
+          typename Compare = std::less<>,
           typename Stats = std::conditional_t<Traits::STAT, btree_stats_t,
                                               btree_empty_stats_t>>
 class map {
@@ -28,15 +28,15 @@ private:
 
   template <typename KeyT1, typename KeyT2>
   static inline bool key_less(const KeyT1 &k1, const KeyT2 &k2) {
-    return k1 < k2;
+    return comp(k1, k2);
   }
   template <typename KeyT1, typename KeyT2>
   static inline bool key_greater(const KeyT1 &k1, const KeyT2 &k2) {
-    return k2 < k1;
+    return comp(k2, k1);
   }
   template <typename KeyT1, typename KeyT2>
   static inline bool key_equal(const KeyT1 &k1, const KeyT2 &k2) {
-    return k1 == k2;
+    return !comp(k1, k2) && !comp(k2, k1);
   }
 
   struct node_t {
-- 
2.43.0


From dd2a07be2ccab519fd7fe421037dc779da2baa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 52/52] fix: a B-tree node's locked state is seen before the
 changes it announces

A release store lets later stores overtake it, so on hardware (or with a
compiler) that reorders stores a reader could see a half-done update of a value
and still find the node's state unchanged.
---
 include/indexes/btree/concurrent_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 0e82ddc..3d43691 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -186,6 +186,7 @@ protected:
 
     inline void setState(nodestate_t new_state) {
       detail::store_release(state, new_state);
+      std::atomic_thread_fence(std::memory_order_release);
     }
 
     // We only need to find out if we have more than two deleted values, to trim
-- 
2.43.0

