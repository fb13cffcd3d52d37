From 3b899958a2bb58c3cdb99da8864f7dec2c11a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 1/7] fix: keep the nearby bounding box from overflowing at the
 high edge of the grid

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..d21aaf0 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -169,8 +169,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding), // ditto, at the other end
+            prox[1].saturating_add(padding), // ditto
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From 2c541206ed1211460fbca85e971463a8c6e5d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 2/7] fix: truncate scores to four bits so they cannot spill
 into the relevance bits

---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..8b43441 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From de0c40337263cf0736b41e811917687b086fa212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 3/7] fix: keep phrases before the first boundary out of the
 first prefix bin

Also ends the endless loop on the largest phrase id.
---
 rust-src/src/gridstore/builder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 8b43441..bd2bf26 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,9 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
             }
 
             current_bin
-- 
2.43.0


From 6531c005788c7f314718b941deaaa91cb9eb6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 4/7] fix: coalescing an empty stack returns no contexts
 instead of panicking

---
 rust-src/src/gridstore/coalesce.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..e564ffa 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -25,6 +25,9 @@ pub fn coalesce<T: Borrow<GridStore> + Clone + Debug>(
     stack: Vec<PhrasematchSubquery<T>>,
     match_opts: &MatchOpts,
 ) -> Result<Vec<CoalesceContext>, Error> {
+    if stack.is_empty() {
+        return Ok(Vec::new());
+    }
     let contexts = if stack.len() <= 1 {
         coalesce_single(&stack[0], match_opts)?
     } else {
-- 
2.43.0


From 0640b5ccfc7d38d7ec6b18de49bcdd5bb2770bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 5/7] fix: do not drop a first feature whose id is zero

---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index e564ffa..d977dc7 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -89,7 +89,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -101,7 +101,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -143,7 +143,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -152,7 +152,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -874,7 +874,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -886,7 +886,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -928,7 +928,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -937,7 +937,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From 328adedb74dd980d31f8ffbae91f99f7e3bc572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 6/7] fix: look up the largest phrase id exactly without
 overflowing

---
 rust-src/src/gridstore/store.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..1207906 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,21 +321,20 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
+        let range_key = match_key.clone();
         let mut db_key: Vec<u8> = Vec::new();
         range_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
-- 
2.43.0


From d02987d84a5e5d9288d396d9da97a7e4ec72323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 7/7] fix: do not stack a phrasematch on an ancestor its index
 is declared not to overlap

---
 rust-src/src/gridstore/stackable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-src/src/gridstore/stackable.rs b/rust-src/src/gridstore/stackable.rs
index ae87be8..06c31ce 100644
--- a/rust-src/src/gridstore/stackable.rs
+++ b/rust-src/src/gridstore/stackable.rs
@@ -226,6 +226,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
         for phrasematch in phrasematch_group.phrasematches.iter() {
             if (node.mask & phrasematch.mask) == 0
                 && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
+                && node.bmask.contains(phrasematch.idx as usize) == false
             {
                 let target_relev = relev_so_far + phrasematch.weight;
                 let max_possible_relev = target_relev + *phrasematch_group.max_relev_after_this;
-- 
2.43.0

