From 43cc7d8bbf5070c374f5ebaec51ad342d5d8cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 01/10] fix: make redelivering a backlogged edit a no-op
 instead of a panic

---
 src/backlog.rs | 80 +++++++++++++++++++++++++++++++++++---------------
 src/replica.rs |  6 ++++
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index fad467c..c7a8817 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -32,9 +32,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of deletions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the deletion has already been backlogged.
+    /// It's a no-op if the deletion has already been backlogged.
     #[inline]
     pub fn insert_deletion(&mut self, deletion: Deletion) {
         self.deletions
@@ -48,9 +46,7 @@ impl Backlog {
     /// Runs in `O(n)` in the number of insertions already in the backlog, with
     /// a best-case of `O(log n)`.
     ///
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been backlogged.
+    /// It's a no-op if the insertion has already been backlogged.
     #[inline]
     pub fn insert_insertion(&mut self, insertion: Insertion) {
         self.insertions
@@ -64,6 +60,25 @@ impl Backlog {
     pub fn new() -> Self {
         Self::default()
     }
+
+    /// Removes the given [`Deletion`] from the backlog, if it's there.
+    #[inline]
+    pub fn remove_deletion(&mut self, deletion: &Deletion) {
+        if let Some(deletions) = self.deletions.get_mut(&deletion.deleted_by())
+        {
+            deletions.remove(deletion);
+        }
+    }
+
+    /// Removes the given [`Insertion`] from the backlog, if it's there.
+    #[inline]
+    pub fn remove_insertion(&mut self, insertion: &Insertion) {
+        if let Some(insertions) =
+            self.insertions.get_mut(&insertion.inserted_by())
+        {
+            insertions.remove(insertion);
+        }
+    }
 }
 
 /// Stores the backlogged [`Insertion`]s of a particular replica.
@@ -97,17 +112,26 @@ impl InsertionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the insertion has already been inserted.
+    /// It's a no-op if the insertion has already been inserted.
     #[inline]
     fn insert(&mut self, insertion: Insertion) {
-        let offset = self
-            .insertions
+        if let Err(offset) = self.offset_of(&insertion) {
+            self.insertions.insert(offset, insertion);
+        }
+    }
+
+    #[inline]
+    fn offset_of(&self, insertion: &Insertion) -> Result<usize, usize> {
+        self.insertions
             .binary_search_by(|probe| probe.start().cmp(&insertion.start()))
-            .unwrap_err();
+    }
 
-        self.insertions.insert(offset, insertion);
+    /// Removes the given insertion, if it was backlogged.
+    #[inline]
+    fn remove(&mut self, insertion: &Insertion) {
+        if let Ok(offset) = self.offset_of(insertion) {
+            self.insertions.remove(offset);
+        }
     }
 }
 
@@ -142,19 +166,27 @@ impl DeletionsBacklog {
         }
     }
 
-    /// # Panics
-    ///
-    /// Panics if the deletion has already inserted.
+    /// It's a no-op if the deletion has already been inserted.
     #[inline]
     fn insert(&mut self, deletion: Deletion) {
-        let offset = self
-            .deletions
-            .binary_search_by(|probe| {
-                probe.deletion_ts().cmp(&deletion.deletion_ts())
-            })
-            .unwrap_err();
-
-        self.deletions.insert(offset, deletion);
+        if let Err(offset) = self.offset_of(&deletion) {
+            self.deletions.insert(offset, deletion);
+        }
+    }
+
+    #[inline]
+    fn offset_of(&self, deletion: &Deletion) -> Result<usize, usize> {
+        self.deletions.binary_search_by(|probe| {
+            probe.deletion_ts().cmp(&deletion.deletion_ts())
+        })
+    }
+
+    /// Removes the given deletion, if it was backlogged.
+    #[inline]
+    fn remove(&mut self, deletion: &Deletion) {
+        if let Ok(offset) = self.offset_of(deletion) {
+            self.deletions.remove(offset);
+        }
     }
 }
 
diff --git a/src/replica.rs b/src/replica.rs
index 2b93869..96309fb 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -715,6 +715,9 @@ impl Replica {
         if deletion.is_no_op() || self.has_merged_deletion(deletion) {
             Vec::new()
         } else if self.can_merge_deletion(deletion) {
+            // If the same deletion was backlogged the last time we received
+            // it we have to make sure that it's not merged twice.
+            self.backlog.remove_deletion(deletion);
             self.merge_unchecked_deletion(deletion)
         } else {
             self.backlog.insert_deletion(deletion.clone());
@@ -774,6 +777,9 @@ impl Replica {
         if insertion.is_no_op() || self.has_merged_insertion(insertion) {
             None
         } else if self.can_merge_insertion(insertion) {
+            // If the same insertion was backlogged the last time we received
+            // it we have to make sure that it's not merged twice.
+            self.backlog.remove_insertion(insertion);
             Some(self.merge_unchecked_insertion(insertion))
         } else {
             self.backlog.insert_insertion(insertion.clone());
-- 
2.43.0


From e7b0d837c79a55daa818d3fe986cae8ae2689a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/10] fix: don't resolve right-biased anchors whose character
 hasn't arrived yet

---
 src/replica.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/replica.rs b/src/replica.rs
index 96309fb..7ef8a6a 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -935,7 +935,20 @@ impl Replica {
     /// ```
     #[inline]
     pub fn resolve_anchor(&self, anchor: Anchor) -> Option<Length> {
-        if self.has_anchor(anchor.inner()) {
+        let inner = anchor.inner();
+
+        // An anchor biased to the right refers to the character *after* its
+        // offset, so that's the one we must have.
+        let has_anchor = match anchor.bias() {
+            AnchorBias::Left => self.has_anchor(inner),
+            AnchorBias::Right => {
+                inner.is_zero()
+                    || self.version_map.get(inner.replica_id())
+                        > inner.offset()
+            },
+        };
+
+        if has_anchor {
             Some(self.run_tree.resolve_anchor(anchor))
         } else {
             None
-- 
2.43.0


From a2545dd9f931ef8b4c73516ca7724d1cd9678dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 03/10] fix: don't overflow the stack draining a backlog with
 many ineffective deletions

---
 src/backlog.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index c7a8817..477a1a6 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -230,24 +230,25 @@ impl Iterator for BackloggedDeletions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let deletions = self.current.as_mut()?;
+        loop {
+            let deletions = self.current.as_mut()?;
 
-        let Some(first) = deletions.deletions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
+            let can_merge_first = deletions
+                .deletions
+                .front()
+                .is_some_and(|first| self.replica.can_merge_deletion(first));
+
+            if !can_merge_first {
+                self.current = self.iter.next();
+                continue;
+            }
 
-        if self.replica.can_merge_deletion(first) {
             let first = deletions.deletions.pop_front().unwrap();
             let ranges = self.replica.merge_unchecked_deletion(&first);
-            if ranges.is_empty() {
-                self.next()
-            } else {
-                Some(ranges)
+
+            if !ranges.is_empty() {
+                return Some(ranges);
             }
-        } else {
-            self.current = self.iter.next();
-            self.next()
         }
     }
 }
-- 
2.43.0


From 8521f479391f840fe6a3ee0e35062366d70ffef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 04/10] fix: yield all the backlogged insertions which are
 ready, not just some

---
 src/backlog.rs | 89 ++++++++++++++++++++++++++++++++------------------
 src/replica.rs | 16 +++++++++
 2 files changed, 73 insertions(+), 32 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 477a1a6..97b763f 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -61,6 +61,30 @@ impl Backlog {
         Self::default()
     }
 
+    /// Returns the next insertion to be merged from the given replica.
+    #[inline]
+    pub fn first_insertion(&self, id: ReplicaId) -> Option<&Insertion> {
+        self.insertions.get(&id)?.insertions.front()
+    }
+
+    /// Removes the next insertion to be merged from the given replica.
+    #[inline]
+    pub fn pop_first_insertion(&mut self, id: ReplicaId) -> Option<Insertion> {
+        self.insertions.get_mut(&id)?.insertions.pop_front()
+    }
+
+    /// Returns the ids of all the replicas with at least one backlogged
+    /// insertion.
+    #[inline]
+    pub fn replicas_with_insertions(&self) -> alloc::vec::IntoIter<ReplicaId> {
+        self.insertions
+            .iter()
+            .filter(|(_, backlog)| !backlog.insertions.is_empty())
+            .map(|(&id, _)| id)
+            .collect::<Vec<_>>()
+            .into_iter()
+    }
+
     /// Removes the given [`Deletion`] from the backlog, if it's there.
     #[inline]
     pub fn remove_deletion(&mut self, deletion: &Deletion) {
@@ -263,30 +287,22 @@ impl core::iter::FusedIterator for BackloggedDeletions<'_> {}
 /// [`Replica`]. See its documentation for more information.
 pub struct BackloggedInsertions<'a> {
     replica: &'a mut Replica,
-    current: Option<&'a mut InsertionsBacklog>,
-    iter: ReplicaIdMapValuesMut<'a, InsertionsBacklog>,
+
+    /// The replica whose insertions are currently being yielded.
+    current: Option<ReplicaId>,
+
+    /// The replicas that are still to be visited in the current pass.
+    to_visit: alloc::vec::IntoIter<ReplicaId>,
+
+    /// Whether any insertion has been merged in the current pass.
+    has_merged: bool,
 }
 
 impl<'a> BackloggedInsertions<'a> {
     #[inline]
     pub(crate) fn from_replica(replica: &'a mut Replica) -> Self {
-        let backlog = replica.backlog_mut();
-
-        // We transmute the exclusive reference to the backlog into the same
-        // type to get around the borrow checker.
-        //
-        // SAFETY: this is safe because in the `Iterator` implementation we
-        // never access the backlog through the `Replica`, neither directly nor
-        // by calling any methods on `Replica` that would access the backlog.
-        let backlog = unsafe {
-            core::mem::transmute::<&mut Backlog, &mut Backlog>(backlog)
-        };
-
-        let mut iter = backlog.insertions.values_mut();
-
-        let current = iter.next();
-
-        Self { replica, current, iter }
+        let to_visit = replica.backlog_mut().replicas_with_insertions();
+        Self { replica, current: None, to_visit, has_merged: false }
     }
 }
 
@@ -295,20 +311,29 @@ impl Iterator for BackloggedInsertions<'_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        let insertions = self.current.as_mut()?;
-
-        let Some(first) = insertions.insertions.front() else {
-            self.current = self.iter.next();
-            return self.next();
-        };
+        loop {
+            if let Some(insertion) = self
+                .current
+                .and_then(|id| self.replica.pop_ready_insertion(id))
+            {
+                self.has_merged = true;
+                let edit = self.replica.merge_unchecked_insertion(&insertion);
+                return Some((insertion.text().clone(), edit));
+            }
 
-        if self.replica.can_merge_insertion(first) {
-            let first = insertions.insertions.pop_front().unwrap();
-            let edit = self.replica.merge_unchecked_insertion(&first);
-            Some((first.text().clone(), edit))
-        } else {
-            self.current = self.iter.next();
-            self.next()
+            self.current = self.to_visit.next();
+
+            // Merging an insertion can make those of the replicas we've
+            // already visited ready to be merged, so we're not done until a
+            // whole pass doesn't merge anything.
+            if self.current.is_none() {
+                if !self.has_merged {
+                    return None;
+                }
+                self.has_merged = false;
+                self.to_visit =
+                    self.replica.backlog_mut().replicas_with_insertions();
+            }
         }
     }
 }
diff --git a/src/replica.rs b/src/replica.rs
index 7ef8a6a..0397d5b 100644
--- a/src/replica.rs
+++ b/src/replica.rs
@@ -573,6 +573,22 @@ impl Replica {
         self.version_map.get(insertion.inserted_by()) > insertion.start()
     }
 
+    /// Removes the next insertion by the given replica from the backlog, if
+    /// it's ready to be merged.
+    #[inline]
+    pub(crate) fn pop_ready_insertion(
+        &mut self,
+        id: ReplicaId,
+    ) -> Option<Insertion> {
+        let first = self.backlog.first_insertion(id)?;
+
+        if self.can_merge_insertion(first) {
+            self.backlog.pop_first_insertion(id)
+        } else {
+            None
+        }
+    }
+
     /// Returns the id of this `Replica`.
     #[inline]
     pub fn id(&self) -> ReplicaId {
-- 
2.43.0


From 55bbf57a6af033d5defc4e8a85ee5bd4172107ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 05/10] fix: don't mutate the Gtree while a shared borrow of it
 is alive

Transmuting the shared reference held by the `Leaves` iterator into an
exclusive one is undefined behaviour, and the iterator was still being used
after the mutation.
---
 src/run_tree.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index e7ce43f..7c9c822 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -604,10 +604,12 @@ impl RunTree {
             }
         };
 
-        let mut runs = self.gtree.leaves::<true>(start_idx);
+        let mut next_idx = Some(start_idx);
 
         loop {
-            let (run_idx, run) = runs.next().unwrap();
+            let run_idx = next_idx.unwrap();
+
+            let run = self.gtree.leaf(run_idx);
 
             if run_idx == end_idx {
                 if run.is_deleted {
@@ -639,6 +641,8 @@ impl RunTree {
                 break;
             }
 
+            next_idx = self.gtree.next_leaf(run_idx);
+
             if run.is_deleted {
                 continue;
             }
@@ -661,11 +665,11 @@ impl RunTree {
                 } else {
                     let delete_up_to = deleted_up_to - run.start();
 
-                    let next_idx = self.delete_leaf_range(
+                    next_idx = Some(self.delete_leaf_range(
                         run_idx,
                         leaf_offset,
                         (0..delete_up_to).into(),
-                    );
+                    ));
 
                     let deletion_start =
                         if let DeletionState::Deleting(start) = state {
@@ -681,29 +685,14 @@ impl RunTree {
                     state = DeletionState::Skipping;
 
                     visible_offset += delete_up_to;
-
-                    runs = self.gtree.leaves::<true>(next_idx);
                 }
 
                 continue;
             }
 
-            // This is awful but I'm not sure it can be avoided. We
-            // transmute a shared reference to the Gtree to an exclusive
-            // one to modify it while we're iterating over it.
-            //
-            // SAFETY: this is safe because deleting a whole run doesn't
-            // modify the Gtree's structure at all (no heap allocations,
-            // etc), only the lengths of all the nodes from the run we're
-            // deleting up to the root.
-            let gtree = unsafe {
-                #[allow(mutable_transmutes)]
-                core::mem::transmute::<&Gtree, &mut Gtree>(&self.gtree)
-            };
-
-            gtree.with_leaf_mut(run_idx, EditRun::delete);
+            self.gtree.with_leaf_mut(run_idx, EditRun::delete);
 
-            gtree.remove_cursor();
+            self.gtree.remove_cursor();
 
             if !matches!(state, DeletionState::Deleting(_)) {
                 state = DeletionState::Deleting(visible_offset);
-- 
2.43.0


From 9d9e74684e93c248744cd25d44ace1aa6791525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 06/10] fix: return an error instead of overflowing when
 deserializing malformed edits

---
 src/deletion.rs | 5 ++++-
 src/text.rs     | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/deletion.rs b/src/deletion.rs
index fe166e9..ccc0b82 100644
--- a/src/deletion.rs
+++ b/src/deletion.rs
@@ -277,9 +277,12 @@ mod encode {
                     let (run_ts, buf) = RunTs::decode(buf)?;
                     let (offset, buf) = Length::decode(buf)?;
                     let (length, buf) = Length::decode(buf)?;
+                    let end_offset = offset
+                        .checked_add(length)
+                        .ok_or(IntDecodeError::Overflow)?;
                     let start = InnerAnchor::new(replica_id, offset, run_ts);
                     let end =
-                        InnerAnchor::new(replica_id, offset + length, run_ts);
+                        InnerAnchor::new(replica_id, end_offset, run_ts);
                     Ok(((start, end), buf))
                 },
             }
diff --git a/src/text.rs b/src/text.rs
index 554cf42..12c5d87 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -140,7 +140,8 @@ mod encode {
             let (inserted_by, buf) = ReplicaId::decode(buf)?;
             let (start, buf) = usize::decode(buf)?;
             let (len, buf) = usize::decode(buf)?;
-            let text = Self { inserted_by, range: start..start + len };
+            let end = start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+            let text = Self { inserted_by, range: start..end };
             Ok((text, buf))
         }
     }
-- 
2.43.0


From 1aeea96003f1943ebeda6edebe1a605b51387f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:35 +0000
Subject: [PATCH 07/10] fix: don't panic when decoding an invalid replica whose
 checksum is correct

The docs promise a `DecodeError::InvalidData` in that case.
---
 src/backlog.rs  |  5 ++++-
 src/gtree.rs    |  5 ++++-
 src/run_tree.rs | 24 ++++++++++++++++++------
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/backlog.rs b/src/backlog.rs
index 97b763f..f72ab7a 100644
--- a/src/backlog.rs
+++ b/src/backlog.rs
@@ -519,9 +519,12 @@ pub(crate) mod encode {
                 let (run_ts, new_buf) = RunTs::decode(new_buf)?;
                 let (lamport_ts, new_buf) = LamportTs::decode(new_buf)?;
 
+                let end =
+                    start.checked_add(len).ok_or(IntDecodeError::Overflow)?;
+
                 let insertion = Insertion::new(
                     anchor,
-                    Text::new(replica_id, start..start + len),
+                    Text::new(replica_id, start..end),
                     lamport_ts,
                     run_ts,
                 );
diff --git a/src/gtree.rs b/src/gtree.rs
index 919eb20..84882b0 100644
--- a/src/gtree.rs
+++ b/src/gtree.rs
@@ -3731,7 +3731,10 @@ pub(crate) mod encode {
             let (num_children, buf) = usize::decode(buf)?;
             let (has_leaves, mut buf) = bool::decode(buf)?;
             let mut children = [NodeIdx::dangling(); N];
-            for idx in &mut children[..num_children] {
+            for idx in children
+                .get_mut(..num_children)
+                .ok_or(IntDecodeError::Overflow)?
+            {
                 let (node_idx, new_buf) = NodeIdx::decode(buf)?;
                 *idx = node_idx;
                 buf = new_buf;
diff --git a/src/run_tree.rs b/src/run_tree.rs
index 7c9c822..f44cf64 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -1234,6 +1234,12 @@ pub(crate) mod encode {
 
             let mut ctx = RunTreeDecodeCtx::default();
 
+            // Every leaf takes up at least one byte, so this is not a valid
+            // encoding if there are more leaves than bytes left.
+            if num_leaves > buf.len() as u64 {
+                return Err(IntDecodeError::NotEnoughBytes.into());
+            }
+
             let dummy_lnode =
                 Lnode::new(EditRun::dummy(), InodeIdx::dangling());
 
@@ -1423,21 +1429,27 @@ pub(crate) mod encode {
             let (leaf_idx, buf) = LeafIdx::<EditRun>::decode(buf)?;
             let (parent_idx, buf) = InodeIdx::decode(buf)?;
 
-            ctx.fragments.append(Fragment::new(len, leaf_idx));
-
             let temporal_start = ctx.temporal_offset;
 
-            ctx.temporal_offset += len;
+            let temporal_end = temporal_start
+                .checked_add(len)
+                .ok_or(IntDecodeError::Overflow)?;
+
+            let lnode = ctx
+                .lnodes
+                .get_mut(leaf_idx.into_usize())
+                .ok_or(IntDecodeError::Overflow)?;
+
+            ctx.fragments.append(Fragment::new(len, leaf_idx));
 
-            let temporal_end = ctx.temporal_offset;
+            ctx.temporal_offset = temporal_end;
 
             let text = Text::new(ctx.replica_id, temporal_start..temporal_end);
 
             let edit_run =
                 EditRun::new(text, ctx.run_ts, lamport_ts, is_deleted);
 
-            ctx.lnodes[leaf_idx.into_usize()] =
-                Lnode::new(edit_run, parent_idx);
+            *lnode = Lnode::new(edit_run, parent_idx);
 
             Ok(((), buf))
         }
-- 
2.43.0


From 369557e7d716f7e88224d953b20edc7c91704320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 08/10] fix: don't let the bounds of a deleted range wrap
 around

In release builds `deleted(0..=usize::MAX)` was silently ignored instead of
panicking like every other out of bounds range.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8c3be08..9f74c9e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -112,12 +112,12 @@ where
 
     let start = match range.start_bound() {
         Bound::Included(&n) => n,
-        Bound::Excluded(&n) => n + 1,
+        Bound::Excluded(&n) => n.saturating_add(1),
         Bound::Unbounded => lo,
     };
 
     let end = match range.end_bound() {
-        Bound::Included(&n) => n + 1,
+        Bound::Included(&n) => n.saturating_add(1),
         Bound::Excluded(&n) => n,
         Bound::Unbounded => hi,
     };
-- 
2.43.0


From f24e6a4353f074dab794b1aaa6cb24d356e097a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:23 +0000
Subject: [PATCH 09/10] fix: extend the anchor run when merging text typed
 after the last run of an inode

---
 src/run_tree.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/run_tree.rs b/src/run_tree.rs
index f44cf64..d8ea15a 100644
--- a/src/run_tree.rs
+++ b/src/run_tree.rs
@@ -760,11 +760,18 @@ impl RunTree {
             if run > *leaf {
                 prev_idx = idx;
             } else {
-                return self.insert_run_after_another(run, prev_idx);
+                break;
             }
         }
 
-        // If we get here we're inserting after the last run in the Gtree.
+        // The anchor run can be the last child of its inode, in which case it
+        // didn't have any siblings to check.
+        if prev_idx == anchor_idx
+            && self.gtree.leaf(anchor_idx).can_append(&run)
+        {
+            return self.append_run_to_another(run, anchor_idx);
+        }
+
         self.insert_run_after_another(run, prev_idx)
     }
 
-- 
2.43.0


From 09b45fa7b3dc9f6c0421af57fc79acd0f92e15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:21 +0000
Subject: [PATCH 10/10] fix: don't trust the length hint when decoding a
 sequence of bytes

A deserializer whose size hint is larger than what can be allocated
panicked with a capacity overflow, or aborted the process.
---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4cc71ed..a3e0914 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -181,7 +181,10 @@ mod serde {
                         where
                             A: ::serde::de::SeqAccess<'de>,
                         {
-                            let size = seq.size_hint().unwrap_or(0);
+                            // The hint comes from the input, so it could
+                            // be anything.
+                            let size =
+                                seq.size_hint().unwrap_or(0).min(4096);
                             let mut buf =
                                 ::alloc::vec::Vec::<u8>::with_capacity(size);
                             while let Some(byte) = seq.next_element()? {
-- 
2.43.0

