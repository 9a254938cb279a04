From cf38740044c061b96e44c46b86c8f03d4d548673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:06 +0000
Subject: [PATCH 01/28] fix: do not release the trunk root claim twice when a
 filter build is abandoned

trunk_copy_path_by_key_and_height() already releases the claim on the trunk
root lock. On the abort path of trunk_bundle_build_filters() the claim was
released a second time, which drops whatever claim another thread holds at
that moment, so two threads could replace the root concurrently.
---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 8104068..edfebed 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4310,7 +4310,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
          if (trunk_build_filter_should_abort(compact_req, &node)) {
             trunk_log_stream_if_enabled(
                spl, &stream, "replace_filter abort leaf split\n");
-            trunk_root_full_unclaim(spl);
             trunk_node_unlock(spl->cc, &node);
             trunk_node_unclaim(spl->cc, &node);
             trunk_node_unget(spl->cc, &node);
-- 
2.43.0


From c7c60e358f7b3d9af04289c242db961b55d07347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:02 +0000
Subject: [PATCH 02/28] fix: do not return the current key again when a merge
 iterator changes direction

When several input iterators hold a copy of the current key, all but the one
with the oldest copy have been moved past it while merging. Reversing the
direction stepped each of them back onto the current key, so the merge
iterator returned that key a second time (built from a subset of its
messages). Step such iterators once more.
---
 src/merge.c | 52 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index c764477..6712dee 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -620,21 +620,53 @@ static platform_status
 merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
 {
    debug_assert(merge_itor->forwards != forwards);
-   platform_status rc;
+   platform_status rc = STATUS_OK;
    merge_itor->forwards = forwards;
 
+   /*
+    * If messages are merged, then the iterators that contributed a copy of the
+    * current key have already been moved past it (except for the one holding
+    * the oldest copy). Reversing brings them back to the current key, so they
+    * must take another step. Keep a copy of the current key to detect that,
+    * because stepping the iterators may release the page it is on.
+    */
+   bool32 skip_curr =
+      merge_itor->merge_messages && !key_is_null(merge_itor->curr_key);
+   DECLARE_AUTO_KEY_BUFFER(curr_key_kb, PROCESS_PRIVATE_HEAP_ID);
+   if (skip_curr) {
+      rc = key_buffer_copy_key(&curr_key_kb, merge_itor->curr_key);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
+   }
+
    // Step every iterator, both alive and dead, in the appropriate direction.
    for (int i = 0; i < merge_itor->num_trees; i++) {
-      if (forwards && iterator_can_next(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_next(merge_itor->ordered_iterators[i]->itor);
-      }
-      if (!forwards
-          && iterator_can_prev(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_prev(merge_itor->ordered_iterators[i]->itor);
-      }
+      iterator *itor = merge_itor->ordered_iterators[i]->itor;
+      bool32    at_curr;
+      do {
+         at_curr = FALSE;
+         if (forwards && iterator_can_next(itor)) {
+            rc = iterator_next(itor);
+         } else if (!forwards && iterator_can_prev(itor)) {
+            rc = iterator_prev(itor);
+         }
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
+         if (skip_curr && iterator_can_curr(itor)) {
+            key     itor_key;
+            message itor_data;
+            iterator_curr(itor, &itor_key, &itor_data);
+            at_curr =
+               data_key_compare(
+                  merge_itor->cfg, itor_key, key_buffer_key(&curr_key_kb))
+               == 0;
+         }
+      } while (at_curr);
    }
+   merge_itor->curr_key  = NULL_KEY;
+   merge_itor->curr_data = NULL_MESSAGE;
 
    // restore iterator invariants
    rc = setup_ordered_iterators(merge_itor);
-- 
2.43.0


From a5151be1d624bc930ade1f993257c2806cbb344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:42 +0000
Subject: [PATCH 03/28] fix: clear a stale duplicate mark of the last iterator
 when a merge iterator is set up again

setup_ordered_iterators() also runs on a change of direction, but it only
assigned next_key_equal for iterators that have a successor, so the last live
one could keep a mark from before and be merged with an unrelated or dead
iterator.
---
 src/merge.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/merge.c b/src/merge.c
index 6712dee..470dda7 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -468,6 +468,12 @@ setup_ordered_iterators(merge_iterator *merge_itor)
       }
       merge_itor->ordered_iterators[i]->next_key_equal = (cmp == 0);
    }
+   // The last live iterator has no successor; clear what may be left over from
+   // before a change of direction.
+   if (merge_itor->num_remaining > 0) {
+      merge_itor->ordered_iterators[merge_itor->num_remaining - 1]
+         ->next_key_equal = FALSE;
+   }
 
    bool32 retry;
    rc = advance_one_loop(merge_itor, &retry);
-- 
2.43.0


From 7517d816a2a9802f7a650f2fa3ff82d69a64bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:38 +0000
Subject: [PATCH 04/28] fix: start at the largest key when a range iterator
 enters a trunk leaf from above

The merge iterator over the branches of the previous leaf was always created
for forward iteration: with every branch positioned at its largest key below
the bound it started at the smallest of those keys and skipped the others.
---
 src/merge.c | 15 ++++++++++++++-
 src/merge.h | 14 ++++++++++++++
 src/trunk.c | 14 ++++++++------
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index 470dda7..034e719 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -530,6 +530,19 @@ merge_iterator_create(platform_heap_id hid,
                       iterator       **itor_arr,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor)
+{
+   return merge_iterator_create_directed(
+      hid, cfg, num_trees, itor_arr, merge_mode, TRUE, out_itor);
+}
+
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor)
 {
    int             i;
    platform_status rc = STATUS_OK;
@@ -568,7 +581,7 @@ merge_iterator_create(platform_heap_id hid,
 
    merge_itor->cfg      = cfg;
    merge_itor->curr_key = NULL_KEY;
-   merge_itor->forwards = TRUE;
+   merge_itor->forwards = forwards;
 
    // index -1 initializes the pad variable
    for (i = -1; i < num_trees; i++) {
diff --git a/src/merge.h b/src/merge.h
index 0556e0f..550c8d6 100644
--- a/src/merge.h
+++ b/src/merge.h
@@ -101,6 +101,20 @@ merge_iterator_create(platform_heap_id hid,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor);
 
+/*
+ * As merge_iterator_create(), but if forwards is FALSE, then the input iterators
+ * were positioned from above (less_than or less_than_or_equal) and the merge
+ * iterator starts at the largest of their current keys.
+ */
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor);
+
 platform_status
 merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor);
 
diff --git a/src/trunk.c b/src/trunk.c
index edfebed..b9e19f0 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6328,12 +6328,14 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->itor[i] = &btree_itor->super;
    }
 
-   platform_status rc = merge_iterator_create(spl->heap_id,
-                                              spl->cfg.data_cfg,
-                                              range_itor->num_branches,
-                                              range_itor->itor,
-                                              MERGE_FULL,
-                                              &range_itor->merge_itor);
+   platform_status rc =
+      merge_iterator_create_directed(spl->heap_id,
+                                     spl->cfg.data_cfg,
+                                     range_itor->num_branches,
+                                     range_itor->itor,
+                                     MERGE_FULL,
+                                     start_type >= greater_than,
+                                     &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
       return rc;
    }
-- 
2.43.0


From 3b2462793a514b6736dbfe9f635a4253f6f7543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:15 +0000
Subject: [PATCH 05/28] fix: let a B-tree iterator step back over the leaf
 boundary it was started at

If the start key is larger than every key of the leaf it belongs to, the
iterator starts in the next leaf. It then refused to go back to the previous
leaf even if that leaf holds keys above the lower bound of the range.
---
 src/btree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 55752cf..db4fcf8 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2858,8 +2858,14 @@ find_btree_node_and_get_idx_bounds(btree_iterator *itor,
    if (itor->curr.addr != itor->end_addr
        && itor->idx == btree_num_entries(itor->curr.hdr))
    {
+      // if all keys of this leaf are below min_key, then we must not return to
+      // it
+      bool32 leaf_irrelevant =
+         itor->curr_min_idx == btree_num_entries(itor->curr.hdr);
       btree_iterator_next_leaf(itor);
-      itor->curr_min_idx = 0; // we came from an irrelevant leaf
+      if (leaf_irrelevant) {
+         itor->curr_min_idx = 0;
+      }
    }
    if (itor->curr_min_idx == -1 && itor->idx == -1) {
       btree_iterator_prev_leaf(itor);
-- 
2.43.0


From 631dfbb4bfe31fb3188ff897c86371a2169b0cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 06/28] fix: keep range iterators usable at an empty first or
 last trunk leaf

If every key of the last (first) leaf has been deleted and compacted away, a
range iterator that ran off the end claimed that it cannot step back. Allow
the step if there are more leaves. Also use the iterator's own copies of the
leaf bounds, rather than keys in a page that has been released, to move on to
the neighbouring leaf.
---
 src/trunk.c | 60 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index b9e19f0..3c5e2bc 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6346,42 +6346,68 @@ trunk_range_iterator_init(trunk_handle         *spl,
     * if the merge itor is already exhausted, and there are more keys in the
     * db/range, move to prev/next leaf
     */
+   bool32 has_next_leaf =
+      trunk_key_compare(
+         spl, key_buffer_key(&range_itor->local_max_key), max_key)
+      < 0;
+   bool32 has_prev_leaf =
+      trunk_key_compare(
+         spl, key_buffer_key(&range_itor->local_min_key), min_key)
+      > 0;
    if (!in_range && start_type >= greater_than) {
-      if (trunk_key_compare(spl, local_max, max_key) < 0) {
+      if (has_next_leaf) {
+         // the bounds of this leaf do not survive deinit
+         KEY_CREATE_LOCAL_COPY(rc,
+                               next_start_key,
+                               spl->heap_id,
+                               key_buffer_key(&range_itor->local_max_key));
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_max,
-                                        start_type,
+                                        next_start_key,
+                                        greater_than_or_equal,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
             return rc;
          }
       } else {
+         // this leaf may have nothing to return to, but an earlier one may
          range_itor->can_next = FALSE;
          range_itor->can_prev =
-            iterator_can_prev(&range_itor->merge_itor->super);
+            iterator_can_prev(&range_itor->merge_itor->super) || has_prev_leaf;
       }
    }
    if (!in_range && start_type <= less_than_or_equal) {
-      if (trunk_key_compare(spl, local_min, min_key) > 0) {
+      if (has_prev_leaf) {
+         // the bounds of this leaf do not survive deinit
+         KEY_CREATE_LOCAL_COPY(rc,
+                               prev_start_key,
+                               spl->heap_id,
+                               key_buffer_key(&range_itor->local_min_key));
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
                                         range_itor,
                                         min_key,
                                         max_key,
-                                        local_min,
-                                        start_type,
+                                        prev_start_key,
+                                        less_than,
                                         range_itor->num_tuples);
          if (!SUCCESS(rc)) {
             return rc;
          }
       } else {
+         // this leaf may have nothing to return to, but a later one may
          range_itor->can_prev = FALSE;
          range_itor->can_next =
-            iterator_can_next(&range_itor->merge_itor->super);
+            iterator_can_next(&range_itor->merge_itor->super) || has_next_leaf;
       }
    }
    return rc;
@@ -6402,9 +6428,12 @@ trunk_range_iterator_next(iterator *itor)
    debug_assert(range_itor != NULL);
    platform_assert(range_itor->can_next);
 
-   platform_status rc = iterator_next(&range_itor->merge_itor->super);
-   if (!SUCCESS(rc)) {
-      return rc;
+   platform_status rc = STATUS_OK;
+   if (iterator_can_next(&range_itor->merge_itor->super)) {
+      rc = iterator_next(&range_itor->merge_itor->super);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
    }
    range_itor->num_tuples++;
    range_itor->can_prev = TRUE;
@@ -6461,9 +6490,12 @@ trunk_range_iterator_prev(iterator *itor)
    debug_assert(itor != NULL);
    platform_assert(range_itor->can_prev);
 
-   platform_status rc = iterator_prev(&range_itor->merge_itor->super);
-   if (!SUCCESS(rc)) {
-      return rc;
+   platform_status rc = STATUS_OK;
+   if (iterator_can_prev(&range_itor->merge_itor->super)) {
+      rc = iterator_prev(&range_itor->merge_itor->super);
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
    }
    range_itor->num_tuples++;
    range_itor->can_next = TRUE;
-- 
2.43.0


From 4f1afe9b9889e04439e8d2465d976e6067d7df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:46 +0000
Subject: [PATCH 07/28] fix: free the filters of a compacted bundle only after
 draining its readers

---
 src/trunk.c | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 3c5e2bc..21749a7 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -802,6 +802,7 @@ static inline uint16               trunk_start_bundle              (trunk_handle
 static inline uint16               trunk_inc_start_bundle          (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_end_bundle                (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_bundle_clear_subbundles   (trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
+static inline void                 trunk_bundle_dec_subbundle_filters(trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
 static inline uint16               trunk_add_subbundle_number      (trunk_handle *spl, uint16 start, uint16 end);
 static inline uint16               trunk_subtract_subbundle_number (trunk_handle *spl, uint16 start, uint16 end);
 static inline uint16               trunk_end_subbundle             (trunk_handle *spl, trunk_node *node);
@@ -2085,6 +2086,7 @@ trunk_reset_start_branch(trunk_handle *spl, trunk_node *node)
           * either all branches in the bundle are live or none are, so in this
           * case none are
           */
+         trunk_bundle_dec_subbundle_filters(spl, node, bundle);
          trunk_bundle_clear_subbundles(spl, node, bundle);
          trunk_inc_start_bundle(spl, node);
          trunk_default_log_if_enabled(
@@ -2412,18 +2414,27 @@ static inline uint16
 trunk_bundle_clear_subbundles(trunk_handle *spl,
                               trunk_node   *node,
                               trunk_bundle *bundle)
+{
+   node->hdr->start_sb_filter = trunk_bundle_end_filter(spl, node, bundle);
+   node->hdr->start_subbundle = bundle->end_subbundle;
+   return node->hdr->start_subbundle;
+}
+
+/*
+ * Dereferences the subbundle filters of the given bundle.
+ */
+static inline void
+trunk_bundle_dec_subbundle_filters(trunk_handle *spl,
+                                   trunk_node   *node,
+                                   trunk_bundle *bundle)
 {
    uint16 start_filter = trunk_bundle_start_filter(spl, node, bundle);
    uint16 end_filter   = trunk_bundle_end_filter(spl, node, bundle);
    for (uint16 filter_no = start_filter; filter_no != end_filter;
         filter_no        = trunk_add_subbundle_filter_number(spl, filter_no, 1))
    {
-      routing_filter *filter = trunk_get_sb_filter(spl, node, filter_no);
-      trunk_dec_filter(spl, filter);
+      trunk_dec_filter(spl, trunk_get_sb_filter(spl, node, filter_no));
    }
-   node->hdr->start_sb_filter = end_filter;
-   node->hdr->start_subbundle = bundle->end_subbundle;
-   return node->hdr->start_subbundle;
 }
 
 /*
@@ -2884,12 +2895,14 @@ trunk_garbage_collect_node_get(trunk_handle             *spl,
 }
 
 /*
- * garbage_collect_bundle dereferences the branches for the specified bundle
+ * garbage_collect_bundle dereferences the branches for the specified bundle,
+ * and also its filters if gc_filters is set.
  */
 static inline void
 trunk_garbage_collect_bundle(trunk_handle             *spl,
                              uint64                    old_root_addr,
-                             trunk_compact_bundle_req *req)
+                             trunk_compact_bundle_req *req,
+                             bool32                    gc_filters)
 {
    trunk_node node;
    trunk_garbage_collect_node_get(spl, old_root_addr, req, &node);
@@ -2923,6 +2936,10 @@ trunk_garbage_collect_bundle(trunk_handle             *spl,
       }
    }
 
+   if (gc_filters && trunk_bundle_live(spl, &node, bundle_no)) {
+      trunk_bundle_dec_subbundle_filters(spl, &node, bundle);
+   }
+
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
    trunk_node_unget(spl->cc, &node);
@@ -2997,15 +3014,6 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
     * if the bundle has no keys, move the filters to form a contiguous array
     */
    if (repl_branch == NULL) {
-      // decrement the ref counts of the old filters
-      for (uint16 filter_no = trunk_bundle_start_filter(spl, node, bundle);
-           filter_no != trunk_bundle_end_filter(spl, node, bundle);
-           filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
-      {
-         routing_filter *old_filter = trunk_get_sb_filter(spl, node, filter_no);
-         trunk_dec_filter(spl, old_filter);
-      }
-
       // move any later filters
       uint16 filter_diff = trunk_bundle_filter_count(spl, node, bundle);
       for (uint16 filter_no = trunk_bundle_end_filter(spl, node, bundle);
@@ -4229,6 +4237,12 @@ trunk_garbage_collect_filters(trunk_handle             *spl,
       debug_assert(pdata->generation < req->max_pivot_generation);
       trunk_dec_filter(spl, &pdata->filter);
    }
+
+   // no reader can use the filters of the cleared bundle anymore
+   if (trunk_bundle_live(spl, &node, req->bundle_no)) {
+      trunk_bundle *bundle = trunk_get_bundle(spl, &node, req->bundle_no);
+      trunk_bundle_dec_subbundle_filters(spl, &node, bundle);
+   }
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
    trunk_node_unget(spl->cc, &node);
@@ -5420,7 +5434,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       debug_assert(trunk_verify_node(spl, &node));
 
       // garbage collect the old path and bundle
-      trunk_garbage_collect_bundle(spl, old_root_addr, req);
+      trunk_garbage_collect_bundle(
+         spl, old_root_addr, req, num_tuples == 0);
 
       if (should_continue) {
          debug_assert(height != 0);
-- 
2.43.0


From b2f5f3907be0e60c46f183d48ab985b5218d7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:54 +0000
Subject: [PATCH 08/28] fix: keep the root from being replaced while a reader
 descends the trunk

---
 src/trunk.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 21749a7..8c54e91 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -1121,14 +1121,24 @@ trunk_copy_node_and_add_to_parent(trunk_handle     *spl,    // IN
  *-----------------------------------------------------------------------------
  * Fetch the latest copy of the root
  *
- * The copy is guaranteed to be the latest at some time during the call
- * duration, but may be out of date after return.
+ * The copy remains the latest until trunk_root_unget, because no new root can
+ * be switched in before. This has to span the whole descent from the root:
+ * garbage collection drains only the readers of the snapshot it replaced, so
+ * a reader still descending from an earlier one would be missed.
  */
 static inline void
 trunk_root_get(trunk_handle *spl, trunk_node *root)
 {
    platform_batch_rwlock_get(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
    trunk_node_get(spl->cc, spl->root_addr, root);
+}
+
+/*
+ * Ends the descent started by trunk_root_get.
+ */
+static inline void
+trunk_root_unget(trunk_handle *spl)
+{
    platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
 }
 
@@ -1139,6 +1149,9 @@ trunk_root_get(trunk_handle *spl, trunk_node *root)
  * Returns the node whose key range contains key at height height. Returns an
  * error if no such node exists, which should only happen when height >
  * height(root);
+ *
+ * trunk_node_get_by_key_and_height must be followed by trunk_root_unget if it
+ * succeeds.
  *-----------------------------------------------------------------------------
  */
 
@@ -1195,6 +1208,7 @@ trunk_node_get_by_key_and_height(trunk_handle *spl,    // IN
 
 error:
    trunk_node_unget(spl->cc, &root);
+   trunk_root_unget(spl);
    return STATUS_BAD_PARAM;
 }
 
@@ -4282,15 +4296,18 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       if (trunk_build_filter_should_abort(compact_req, &node)) {
          trunk_log_stream_if_enabled(spl, &stream, "leaf split, aborting\n");
          trunk_node_unget(spl->cc, &node);
+         trunk_root_unget(spl);
          goto out;
       }
       if (trunk_build_filter_should_skip(compact_req, &node)) {
          trunk_log_stream_if_enabled(
             spl, &stream, "bundle flushed, skipping\n");
+         trunk_root_unget(spl);
          goto next_node;
       }
 
       if (trunk_build_filter_should_reenqueue(compact_req, &node)) {
+         trunk_root_unget(spl);
          task_enqueue(spl->ts,
                       TASK_TYPE_NORMAL,
                       trunk_bundle_build_filters,
@@ -4307,6 +4324,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       trunk_filter_scratch filter_scratch = {0};
       trunk_prepare_build_filter(spl, compact_req, &filter_scratch, &node);
       trunk_node_unget(spl->cc, &node);
+      trunk_root_unget(spl);
 
       trunk_build_filters(spl, compact_req, &filter_scratch);
 
@@ -6232,7 +6250,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    trunk_node node;
-   trunk_node_get(spl->cc, spl->root_addr, &node);
+   trunk_root_get(spl, &node);
    memtable_end_lookup(spl->mt_ctxt);
 
    // index btrees
@@ -6307,6 +6325,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
       &range_itor->local_max_key, spl->heap_id, local_max);
 
    trunk_node_unget(spl->cc, &node);
+   trunk_root_unget(spl);
 
    for (uint64 i = 0; i < range_itor->num_branches; i++) {
       uint64          branch_no  = range_itor->num_branches - i - 1;
@@ -7058,6 +7077,7 @@ found_final_answer_early:
       memtable_end_lookup(spl->mt_ctxt);
    } else {
       trunk_node_unget(spl->cc, &node);
+      trunk_root_unget(spl);
    }
    if (spl->cfg.use_stats) {
       threadid tid = platform_get_tid();
-- 
2.43.0


From 7e97801e105d9b277a327205716cdaabc8036263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:58 +0000
Subject: [PATCH 09/28] fix: hold a reference on the old filter while a new one
 is built from it

---
 src/trunk.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 8c54e91..474def3 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4086,6 +4086,10 @@ trunk_prepare_build_filter(trunk_handle             *spl,
          uint64 pos = trunk_process_generation_to_pos(
             spl, compact_req, pdata->generation);
          platform_assert(pos != TRUNK_MAX_PIVOTS);
+         // hold a reference, the filter may be replaced during the build
+         if (pdata->filter.addr != 0) {
+            trunk_inc_filter(spl, &pdata->filter);
+         }
          filter_scratch->old_filter[pos] = pdata->filter;
          filter_scratch->value[pos] =
             trunk_pivot_whole_branch_count(spl, node, pdata);
@@ -4327,6 +4331,9 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       trunk_root_unget(spl);
 
       trunk_build_filters(spl, compact_req, &filter_scratch);
+      for (uint64 pos = 0; pos < TRUNK_MAX_PIVOTS; pos++) {
+         trunk_dec_filter(spl, &filter_scratch.old_filter[pos]);
+      }
 
       trunk_log_stream_if_enabled(spl, &stream, "Filters built\n");
 
-- 
2.43.0


From a9afb99305f2e4ce5aac63d3af9a1c0d8d8b19fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:06 +0000
Subject: [PATCH 10/28] fix: finish pending memtable flushes before finalizing
 the memtable at close

---
 src/trunk.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 474def3..ebc2409 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7937,6 +7937,11 @@ trunk_mount(trunk_config     *cfg,
 void
 trunk_prepare_for_shutdown(trunk_handle *spl)
 {
+   // finish any outstanding memtable flush, as finalizing the current memtable
+   // requires the next one to be available
+   platform_status rc = task_perform_until_quiescent(spl->ts);
+   platform_assert_status_ok(rc);
+
    // write current memtable to disk
    // (any others must already be flushing/flushed)
 
@@ -7951,7 +7956,7 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
    }
 
    // finish any outstanding tasks and destroy task system for this table.
-   platform_status rc = task_perform_until_quiescent(spl->ts);
+   rc = task_perform_until_quiescent(spl->ts);
    platform_assert_status_ok(rc);
 
    // destroy memtable context (and its memtables)
-- 
2.43.0


From 5943da719b77a53e7d8961d044b2918803f21b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 11/28] fix: do not iterate a B-tree above its height when the
 range has no upper bound

---
 src/btree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index db4fcf8..7538d06 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2598,7 +2598,11 @@ btree_iterator_find_end(btree_iterator *itor)
    itor->end_addr       = end.addr;
    itor->end_generation = end.hdr->generation;
 
-   if (key_is_positive_infinity(itor->max_key)) {
+   // a tree which doesn't reach the iterator's height has nothing to iterate
+   // over, whatever the upper bound (see find_key_in_node())
+   if (key_is_positive_infinity(itor->max_key)
+       && itor->height <= end.hdr->height)
+   {
       itor->end_idx = btree_num_entries(end.hdr);
    } else {
       itor->end_idx = find_key_in_node(
-- 
2.43.0


From f119f8bc8e7a40c1ce593a2e60648d178c7a0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 12/28] fix: never split a leaf into more leaves than its
 parent has room for

---
 src/trunk.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index ebc2409..191ebad 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -5798,6 +5798,13 @@ trunk_split_leaf(trunk_handle *spl,
       estimated_unique_keys * kv_bytes / num_tuples;
    uint64 target_num_leaves =
       estimated_unique_kv_bytes / spl->cfg.target_leaf_kv_bytes;
+   // a very full leaf must not split into more leaves than its parent can
+   // hold; what is too large will split again later
+   uint64 max_num_leaves =
+      spl->cfg.max_pivot_keys - trunk_num_pivot_keys(spl, parent);
+   if (target_num_leaves > max_num_leaves) {
+      target_num_leaves = max_num_leaves;
+   }
    if (target_num_leaves <= 1) {
       if (estimated_unique_keys > trunk_single_leaf_threshold(spl)) {
          target_num_leaves = 2;
-- 
2.43.0


From 54596983fffd91ed63e81ca058d6a3c2d22af670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 13/28] fix: return the preallocated extents when a branch pack
 is aborted

---
 src/btree.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/btree.c b/src/btree.c
index 7538d06..0258e9d 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -3248,6 +3248,18 @@ btree_pack_can_fit_tuple(btree_pack_req *req, key tuple_key, message data)
 static void
 btree_pack_abort(btree_pack_req *req)
 {
+   if (req->num_tuples == 0) {
+      // no node was created, so there are only preallocated extents
+      mini_destroy_unused(&req->mini);
+      return;
+   }
+
+   // Return the preallocated extents, and end the ones that are in use
+   btree_hdr *hdr      = btree_pack_get_current_node(req, 0)->hdr;
+   key        last_key = btree_get_tuple_key(
+      req->cfg, hdr, btree_num_entries(hdr) - 1);
+   mini_release(&req->mini, last_key);
+
    for (uint16 i = 0; i <= req->height; i++) {
       for (uint16 j = 0; j < req->num_edges[i]; j++) {
          btree_node_full_unlock(req->cc, req->cfg, &req->edge[i][j]);
-- 
2.43.0


From 359e5338281b7f4d00717e571db9d7463fd9d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 14/28] fix: mark a log page dirty before appending to it

---
 src/shard_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index 7249bb6..a37e016 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -236,6 +236,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
          wait = wait > 1024 ? wait : 2 * wait;
       }
       cache_lock(cc, page);
+      cache_mark_dirty(cc, page);
    }
 
    shard_log_hdr *hdr    = (shard_log_hdr *)page->data;
-- 
2.43.0


From 57d4fc2fcfc19017f88e3b78c9f73852ac96f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 15/28] fix: return the extent preallocated for a log when the
 log is dropped

---
 src/shard_log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index a37e016..a4950d9 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -135,6 +135,8 @@ shard_log_zap(shard_log *log)
       thread_data->offset                = 0;
    }
 
+   // return the extent preallocated for the log
+   mini_release(&log->mini, NULL_KEY);
    mini_unkeyed_dec_ref(cc, log->meta_head, PAGE_TYPE_LOG, FALSE);
 }
 
-- 
2.43.0


From 8e7c7042a9ff3a0a43d28b883192b9c29817979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 16/28] fix: drop the log when the store is closed

---
 src/trunk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 191ebad..0b06ab8 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7971,6 +7971,8 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
 
    // release the log
    if (spl->cfg.use_log) {
+      // everything logged is in the tree now, so the log isn't needed anymore
+      shard_log_zap((shard_log *)spl->log);
       platform_free(spl->heap_id, spl->log);
    }
 
-- 
2.43.0


From b31d461fbeca34408d0de9cadafb87a57c71c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 17/28] fix: bound trunk nodes by their tuples too, and compact
 bundles of many small tuples

---
 src/trunk.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 0b06ab8..a819016 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -1024,14 +1024,17 @@ trunk_logical_branch_count(trunk_handle *spl, trunk_node *node)
 static inline bool32
 trunk_node_is_full(trunk_handle *spl, trunk_node *node)
 {
+   uint64 num_tuples   = 0;
    uint64 num_kv_bytes = 0;
    if (trunk_logical_branch_count(spl, node) > spl->cfg.max_branches_per_node) {
       return TRUE;
    }
    for (uint16 i = 0; i < trunk_num_children(spl, node); i++) {
+      num_tuples += trunk_pivot_num_tuples(spl, node, i);
       num_kv_bytes += trunk_pivot_kv_bytes(spl, node, i);
    }
-   return num_kv_bytes > spl->cfg.max_kv_bytes_per_node;
+   return num_tuples > spl->cfg.max_tuples_per_node
+          || num_kv_bytes > spl->cfg.max_kv_bytes_per_node;
 }
 
 bool32
@@ -5096,13 +5099,14 @@ trunk_btree_skiperator_deinit(trunk_handle           *spl,
 static inline platform_status
 trunk_btree_pack_req_init(trunk_handle   *spl,
                           iterator       *itor,
+                          uint64          max_tuples,
                           btree_pack_req *req)
 {
    return btree_pack_req_init(req,
                               spl->cc,
                               &spl->cfg.btree_cfg,
                               itor,
-                              spl->cfg.max_tuples_per_node,
+                              max_tuples,
                               spl->cfg.filter_cfg.hash,
                               spl->cfg.filter_cfg.seed,
                               spl->heap_id);
@@ -5235,6 +5239,9 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    uint16 bundle_end_branch   = trunk_bundle_end_branch(spl, &node, bundle);
    uint16 num_branches        = trunk_bundle_branch_count(spl, &node, bundle);
 
+   // A bundle of small tuples may have more than the usual maximum
+   uint64 max_tuples = MAX(spl->cfg.max_tuples_per_node, bundle->num_tuples);
+
    /*
     * Update and delete messages need to be kept around until/unless they have
     * been applied all the way down to the very last branch tree.  Even once it
@@ -5305,7 +5312,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
                               &merge_itor);
    platform_assert_status_ok(rc);
    btree_pack_req pack_req;
-   rc = trunk_btree_pack_req_init(spl, &merge_itor->super, &pack_req);
+   rc = trunk_btree_pack_req_init(
+      spl, &merge_itor->super, max_tuples, &pack_req);
    if (!SUCCESS(rc)) {
       platform_error_log("trunk_btree_pack_req_init failed: %s\n",
                          platform_status_to_string(rc));
-- 
2.43.0


From e7313af72d60cc038e06414bb361349491698ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:11 +0000
Subject: [PATCH 18/28] fix: handle filter values above 30 when walking the
 values a lookup found

---
 src/routing_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing_filter.h b/src/routing_filter.h
index dfaae5d..6672017 100644
--- a/src/routing_filter.h
+++ b/src/routing_filter.h
@@ -109,7 +109,7 @@ static inline uint16
 routing_filter_get_next_value(uint64 found_values, uint16 last_value)
 {
    if (last_value != ROUTING_NOT_FOUND) {
-      uint64 mask = (1 << last_value) - 1;
+      uint64 mask = (1UL << last_value) - 1;
       found_values &= mask;
    }
    if (found_values == 0) {
@@ -121,7 +121,7 @@ routing_filter_get_next_value(uint64 found_values, uint16 last_value)
 static inline bool32
 routing_filter_is_value_found(uint64 found_values, uint16 value)
 {
-   return ((found_values & (1 << value)) != 0);
+   return ((found_values & (1UL << value)) != 0);
 }
 
 
-- 
2.43.0


From 963dd416865ee982f40d2a7caedf9df9f1634c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 19/28] fix: clockcache_extent_sync's completion callback
 passed the cache itself where a pointer to it is expected and never counted
 pages down

---
 src/clockcache.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 2486c72..bde6dd2 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2763,9 +2763,8 @@ clockcache_sync_callback(void           *arg,
                          platform_status status)
 {
    clockcache_sync_callback_req *req = (clockcache_sync_callback_req *)arg;
-   uint64 pages_written = clockcache_divide_by_page_size(req->cc, count);
-   clockcache_write_callback(req->cc, iovec, count, status);
-   __sync_fetch_and_sub(req->pages_outstanding, pages_written);
+   clockcache_write_callback(&req->cc, iovec, count, status);
+   __sync_fetch_and_sub(req->pages_outstanding, count);
 }
 
 /*
@@ -2826,7 +2825,8 @@ clockcache_extent_sync(clockcache *cc, uint64 addr, uint64 *pages_outstanding)
    }
    if (req_count != 0) {
       __sync_fetch_and_add(pages_outstanding, req_count);
-      status = io_write_async(
+      io_req->bytes = clockcache_multiply_by_page_size(cc, req_count);
+      status        = io_write_async(
          cc->io, io_req, clockcache_sync_callback, req_count, req_addr);
       platform_assert_status_ok(status);
    }
-- 
2.43.0


From c1719fcee5bee730b0e9b977f3226b024f8ccf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 20/28] fix: a blocking request for a free cache page gave up
 after three partial passes, because the device never reported its maximum
 latency

---
 src/platform_linux/laio.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 21072ff..2c98153 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -29,6 +29,9 @@
 
 #define LAIO_HAND_BATCH_SIZE 32
 
+// No IO is expected to take longer than this.
+#define LAIO_MAX_LATENCY_NS SEC_TO_NSEC(10)
+
 static platform_status
 laio_read(io_handle *ioh, void *buf, uint64 bytes, uint64 addr);
 
@@ -70,6 +73,9 @@ laio_register_thread(io_handle *ioh);
 static void
 laio_deregister_thread(io_handle *ioh);
 
+static bool32
+laio_max_latency_elapsed(io_handle *ioh, timestamp ts);
+
 static io_async_req *
 laio_get_kth_req(laio_handle *io, uint64 k);
 
@@ -77,17 +83,18 @@ laio_get_kth_req(laio_handle *io, uint64 k);
  * Define an implementation of the abstract IO Ops interface methods.
  */
 static io_ops laio_ops = {
-   .read              = laio_read,
-   .write             = laio_write,
-   .get_iovec         = laio_get_iovec,
-   .get_async_req     = laio_get_async_req,
-   .get_metadata      = laio_get_metadata,
-   .read_async        = laio_read_async,
-   .write_async       = laio_write_async,
-   .cleanup           = laio_cleanup,
-   .wait_all          = laio_wait_all,
-   .register_thread   = laio_register_thread,
-   .deregister_thread = laio_deregister_thread,
+   .read                = laio_read,
+   .write               = laio_write,
+   .get_iovec           = laio_get_iovec,
+   .get_async_req       = laio_get_async_req,
+   .get_metadata        = laio_get_metadata,
+   .read_async          = laio_read_async,
+   .write_async         = laio_write_async,
+   .cleanup             = laio_cleanup,
+   .wait_all            = laio_wait_all,
+   .register_thread     = laio_register_thread,
+   .deregister_thread   = laio_deregister_thread,
+   .max_latency_elapsed = laio_max_latency_elapsed,
 };
 
 static void
@@ -606,6 +613,15 @@ laio_deregister_thread(io_handle *ioh)
    unlock_ctx(io);
 }
 
+/*
+ * Has the longest time an IO can take passed since 'ts'?
+ */
+static bool32
+laio_max_latency_elapsed(io_handle *ioh, timestamp ts)
+{
+   return LAIO_MAX_LATENCY_NS < platform_timestamp_elapsed(ts);
+}
+
 static inline bool32
 laio_config_valid_page_size(io_config *cfg)
 {
-- 
2.43.0


From ce69f385f6f6c9778a24e1eeeba9616d1344b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 21/28] fix: clockcache_page_sync failed an assertion when
 another thread was writing the page back or clearing its access bit

---
 src/clockcache.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index bde6dd2..9309f52 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2701,9 +2701,17 @@ clockcache_page_sync(clockcache  *cc,
    const threadid  tid  = platform_get_tid();
    platform_status status;
 
-   if (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
-      platform_assert(clockcache_test_flag(cc, entry_number, CC_CLEAN));
-      return;
+   while (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
+      if (clockcache_test_flag(cc, entry_number, CC_CLEAN | CC_WRITEBACK)) {
+         // Clean, or another thread is already writing it back
+         while (is_blocking
+                && clockcache_test_flag(cc, entry_number, CC_WRITEBACK)) {
+            clockcache_wait(cc);
+         }
+         return;
+      }
+      // Raced with the clock hand, which changes the access bit: try again
+      platform_assert(!clockcache_test_flag(cc, entry_number, CC_WRITELOCKED));
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From 566b9fa73bae49205759882b9d251639624ad1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 22/28] fix: a failed or short asynchronous I/O was reported to
 its issuer as a success

---
 src/platform_linux/laio.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/platform_linux/laio.c b/src/platform_linux/laio.c
index 2c98153..cd534b1 100644
--- a/src/platform_linux/laio.c
+++ b/src/platform_linux/laio.c
@@ -407,6 +407,19 @@ laio_callback(io_context_t ctx, struct iocb *iocb, long res, long res2)
 
    platform_assert(res2 == 0);
    req = (io_async_req *)((char *)iocb - offsetof(io_async_req, iocb));
+   // A read may come up short when it extends past the end of the device file
+   // (prefetching), but a write must be carried out in full.
+   if (res < 0) {
+      status = STATUS_IO_ERROR;
+   } else if (iocb->aio_lio_opcode == IO_CMD_PWRITEV) {
+      uint64 bytes = 0;
+      for (uint64 i = 0; i < req->count; i++) {
+         bytes += req->iovec[i].iov_len;
+      }
+      if (res != bytes) {
+         status = STATUS_IO_ERROR;
+      }
+   }
    req->callback(req->metadata, req->iovec, req->count, status);
    req->ctx_idx = INVALID_TID;
 }
-- 
2.43.0


From d0f34539aa854f84ff8e7c5b73e7f6a707b4e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 23/28] fix: closing a store declared it cleanly unmounted
 before its allocation state was written, so a crash in between lost space or
 data

---
 src/allocator.h    | 13 +++++++++++++
 src/rc_allocator.c | 34 ++++++++++++++++++++++++++++------
 src/trunk.c        |  5 +++++
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/allocator.h b/src/allocator.h
index f142879..ce97a3c 100644
--- a/src/allocator.h
+++ b/src/allocator.h
@@ -135,6 +135,8 @@ typedef void (*remove_super_addr_fn)(allocator *al, allocator_root_id spl_id);
 typedef uint64 (*get_size_fn)(allocator *al);
 typedef uint64 (*base_addr_fn)(const allocator *al, uint64 addr);
 
+typedef platform_status (*sync_fn)(allocator *al);
+
 typedef void (*print_fn)(allocator *al);
 typedef void (*assert_fn)(allocator *al);
 
@@ -159,6 +161,8 @@ typedef struct allocator_ops {
    get_size_fn  get_capacity;
    base_addr_fn extent_base_addr;
 
+   sync_fn sync;
+
    assert_fn assert_noleaks;
 
    print_fn print_stats;
@@ -233,6 +237,15 @@ allocator_get_capacity(allocator *al)
    return al->ops->get_capacity(al);
 }
 
+/*
+ * Writes the allocation state to the device, so that a later mount finds it.
+ */
+static inline platform_status
+allocator_sync(allocator *al)
+{
+   return al->ops->sync(al);
+}
+
 static inline void
 allocator_assert_noleaks(allocator *al)
 {
diff --git a/src/rc_allocator.c b/src/rc_allocator.c
index 1fdc33e..810a3e5 100644
--- a/src/rc_allocator.c
+++ b/src/rc_allocator.c
@@ -180,6 +180,16 @@ rc_allocator_print_allocated_virtual(allocator *a)
    rc_allocator_print_allocated(al);
 }
 
+platform_status
+rc_allocator_sync(rc_allocator *al);
+
+platform_status
+rc_allocator_sync_virtual(allocator *a)
+{
+   rc_allocator *al = (rc_allocator *)a;
+   return rc_allocator_sync(al);
+}
+
 const static allocator_ops rc_allocator_ops = {
    .get_config        = rc_allocator_get_config_virtual,
    .alloc             = rc_allocator_alloc_virtual,
@@ -191,6 +201,7 @@ const static allocator_ops rc_allocator_ops = {
    .remove_super_addr = rc_allocator_remove_super_addr_virtual,
    .in_use            = rc_allocator_in_use_virtual,
    .get_capacity      = rc_allocator_get_capacity_virtual,
+   .sync              = rc_allocator_sync_virtual,
    .assert_noleaks    = rc_allocator_assert_noleaks_virtual,
    .print_stats       = rc_allocator_print_stats_virtual,
    .print_allocated   = rc_allocator_print_allocated_virtual,
@@ -476,17 +487,28 @@ rc_allocator_mount(rc_allocator      *al,
 void
 rc_allocator_unmount(rc_allocator *al)
 {
-   platform_status status;
-
    // persist the ref counts upon unmount.
-   uint32 io_size =
-      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
-   status =
-      io_write(al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+   platform_status status = rc_allocator_sync(al);
    platform_assert_status_ok(status);
    rc_allocator_deinit(al);
 }
 
+/*
+ *----------------------------------------------------------------------
+ * rc_allocator_sync --
+ *
+ *      Writes the ref counts to the device.
+ *----------------------------------------------------------------------
+ */
+platform_status
+rc_allocator_sync(rc_allocator *al)
+{
+   uint32 io_size =
+      ROUNDUP(al->cfg->extent_capacity, al->cfg->io_cfg->page_size);
+   return io_write(
+      al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);
+}
+
 
 /*
  *----------------------------------------------------------------------
diff --git a/src/trunk.c b/src/trunk.c
index a819016..93d3629 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8066,6 +8066,11 @@ trunk_unmount(trunk_handle **spl_in)
    trunk_handle *spl = *spl_in;
    srq_deinit(&spl->srq);
    trunk_prepare_for_shutdown(spl);
+
+   // Once the super block says the table was unmounted cleanly, the next mount
+   // relies on the allocator's ref counts: they must be on disk before it is.
+   platform_status rc = allocator_sync(spl->al);
+   platform_assert_status_ok(rc);
    trunk_set_super_block(spl, FALSE, TRUE, FALSE);
    if (spl->cfg.use_stats) {
       for (uint64 i = 0; i < MAX_THREADS; i++) {
-- 
2.43.0


From 3e4b1c9d7fe07d0afa12bfb59b92b1cc2939edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 24/28] fix: an asynchronous lookup that had to read the root
 from the device asserted or used a stale node, and kept the memtable lock
 while waiting

---
 src/trunk.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 93d3629..fc829e9 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7154,15 +7154,11 @@ trunk_async_callback(cache_async_ctxt *cache_ctxt)
    //                cache_ctxt->page);
    ctxt->was_async = TRUE;
    // Move state machine ahead and requeue for dispatch
-   if (UNLIKELY(ctxt->state == async_state_get_root_reentrant)) {
-      trunk_async_set_state(ctxt, async_state_trunk_node_lookup);
-   } else {
-      debug_assert((ctxt->state == async_state_get_child_trunk_node_reentrant),
-                   "ctxt->state=%d != expected state=%d",
-                   ctxt->state,
-                   async_state_get_child_trunk_node_reentrant);
-      trunk_async_set_state(ctxt, async_state_unget_parent_trunk_node);
-   }
+   debug_assert((ctxt->state == async_state_get_root_reentrant
+                 || ctxt->state == async_state_get_child_trunk_node_reentrant),
+                "unexpected ctxt->state=%d",
+                ctxt->state);
+   trunk_async_set_state(ctxt, async_state_unget_parent_trunk_node);
    ctxt->cb(ctxt);
 }
 
@@ -7282,6 +7278,8 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
          }
          case async_state_get_root_reentrant:
          {
+            // The callback may come as soon as the read is started.
+            trunk_async_set_state(ctxt, async_state_get_root_reentrant);
             cache_ctxt_init(
                spl->cc, trunk_async_callback, NULL, &ctxt->cache_ctxt);
             res = trunk_node_get_async(spl->cc, spl->root_addr, ctxt);
@@ -7293,9 +7291,12 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                   //                         __FILE__, __LINE__,
                   //                         platform_get_tid(), ctxt);
                   /*
-                   * Ctxt remains at same state. The invocation is done, but
-                   * the request isn't; and caller will re-invoke me.
+                   * The invocation is done, but the request isn't; and caller
+                   * will re-invoke me. By then both the memtables and the root
+                   * may have changed, so start over.
                    */
+                  trunk_async_set_state(ctxt, async_state_start);
+                  memtable_end_lookup(spl->mt_ctxt);
                   done = TRUE;
                   break;
                case async_io_started:
@@ -7305,6 +7306,7 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                   //                         platform_get_tid(), ctxt);
                   // Invocation is done; request isn't. Callback will move
                   // state.
+                  memtable_end_lookup(spl->mt_ctxt);
                   done = TRUE;
                   break;
                case async_success:
@@ -7640,7 +7642,10 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
             if (ctxt->was_async) {
                trunk_node_async_done(spl, ctxt);
             }
-            trunk_node_unget(spl->cc, node);
+            // The root has no parent
+            if (node->page != NULL) {
+               trunk_node_unget(spl->cc, node);
+            }
             ctxt->pdata           = NULL;
             ctxt->trunk_node.page = ctxt->cache_ctxt.page;
             ctxt->trunk_node.hdr  = (trunk_hdr *)(ctxt->cache_ctxt.page->data);
-- 
2.43.0


From e716a8dd2687b6b005e20ce5f7686dfbaf14b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 25/28] fix: an asynchronous lookup computed a branch number
 without wrapping around the branch array

---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index fc829e9..9629297 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7463,7 +7463,6 @@ trunk_lookup_async(trunk_handle      *spl,    // IN
                   }
                   branch_no = trunk_add_branch_number(
                      spl, ctxt->sb->start_branch, ctxt->value);
-                  branch_no = ctxt->sb->start_branch + ctxt->value;
                   break;
                case async_lookup_state_compacted_subbundle:
                   debug_assert(ctxt->sb != NULL);
-- 
2.43.0


From f712368d4849195d252232e175d85295d44e5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 26/28] fix: histograms counted some data one bucket too low

---
 src/platform_linux/platform_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_linux/platform_inline.h b/src/platform_linux/platform_inline.h
index 46b95ee..cea2533 100644
--- a/src/platform_linux/platform_inline.h
+++ b/src/platform_linux/platform_inline.h
@@ -365,7 +365,7 @@ platform_histo_insert(platform_histo_handle histo, int64 datum)
       if (datum > histo->bucket_limits[mid]) {
          lo = mid + 1;
       } else {
-         hi = mid - 1;
+         hi = mid;
       }
    }
    platform_assert(lo < histo->num_buckets);
-- 
2.43.0


From c216a71c542a023c23f8b228447d2a6044e14e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 27/28] fix: histograms were allocated without room for their
 header

---
 src/platform_linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_linux/platform.c b/src/platform_linux/platform.c
index b180495..1b805b3 100644
--- a/src/platform_linux/platform.c
+++ b/src/platform_linux/platform.c
@@ -535,7 +535,7 @@ platform_histo_create(platform_heap_id       heap_id,
 {
    platform_histo_handle hh;
    hh = TYPED_MANUAL_MALLOC(
-      heap_id, hh, sizeof(hh) + num_buckets * sizeof(hh->count[0]));
+      heap_id, hh, sizeof(*hh) + num_buckets * sizeof(hh->count[0]));
    if (!hh) {
       return STATUS_NO_MEMORY;
    }
-- 
2.43.0


From 8198c7843097f52f8c665e33a2d3915e95ae6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:06 +0000
Subject: [PATCH 28/28] fix: a node whose bundles were not compacted fast
 enough ran out of bundles and aborted the process instead of flushing

---
 src/trunk.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 9629297..ec87001 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -797,6 +797,7 @@ static inline uint16               trunk_add_bundle_number         (trunk_handle
 static inline uint16               trunk_subtract_bundle_number    (trunk_handle *spl, uint16 start, uint16 end);
 static inline trunk_bundle        *trunk_get_bundle                (trunk_handle *spl, trunk_node *node, uint16 bundle_no);
 static inline uint16               trunk_get_new_bundle            (trunk_handle *spl, trunk_node *node);
+static inline uint16               trunk_bundle_count              (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_bundle_start_branch       (trunk_handle *spl, trunk_node *node, trunk_bundle *bundle);
 static inline uint16               trunk_start_bundle              (trunk_handle *spl, trunk_node *node);
 static inline uint16               trunk_inc_start_bundle          (trunk_handle *spl, trunk_node *node);
@@ -1017,16 +1018,29 @@ trunk_logical_branch_count(trunk_handle *spl, trunk_node *node)
    return num_branches + num_bundles;
 }
 
+/*
+ * A node whose bundles are not compacted as fast as it receives new ones can
+ * run out of bundles before it has too many logical branches. Flushing into a
+ * node needs one free bundle, and so does rebundling a leaf.
+ */
+static inline bool32
+trunk_too_many_bundles(uint16 num_bundles)
+{
+   return num_bundles + 2 > TRUNK_MAX_BUNDLES;
+}
+
 /*
  * A node is full if either it has too many tuples or if it has too many
- * logical branches.
+ * logical branches or bundles.
  */
 static inline bool32
 trunk_node_is_full(trunk_handle *spl, trunk_node *node)
 {
    uint64 num_tuples   = 0;
    uint64 num_kv_bytes = 0;
-   if (trunk_logical_branch_count(spl, node) > spl->cfg.max_branches_per_node) {
+   if (trunk_logical_branch_count(spl, node) > spl->cfg.max_branches_per_node
+       || trunk_too_many_bundles(trunk_bundle_count(spl, node)))
+   {
       return TRUE;
    }
    for (uint16 i = 0; i < trunk_num_children(spl, node); i++) {
@@ -1992,7 +2006,8 @@ trunk_pivot_needs_flush(trunk_handle     *spl,
                         trunk_pivot_data *pdata)
 {
    return trunk_pivot_logical_branch_count(spl, node, pdata)
-          > spl->cfg.max_branches_per_node;
+             > spl->cfg.max_branches_per_node
+          || trunk_too_many_bundles(trunk_pivot_bundle_count(spl, node, pdata));
 }
 
 /*
@@ -5547,7 +5562,8 @@ trunk_needs_split(trunk_handle *spl, trunk_node *node)
       return num_tuples > spl->cfg.max_tuples_per_node
              || kv_bytes > spl->cfg.max_kv_bytes_per_node
              || trunk_logical_branch_count(spl, node)
-                   > spl->cfg.max_branches_per_node;
+                   > spl->cfg.max_branches_per_node
+             || trunk_too_many_bundles(trunk_bundle_count(spl, node));
    }
    return trunk_num_children(spl, node) > spl->cfg.fanout;
 }
-- 
2.43.0

