From 614479ee3c33dfd49c4c0d4f6ae6191dd8e89bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 01/12] Add cfg(carmen_verif) hooks to private modules

---
 rust-src/src/gridstore/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rust-src/src/gridstore/mod.rs b/rust-src/src/gridstore/mod.rs
index 3267774..a5fe1f0 100644
--- a/rust-src/src/gridstore/mod.rs
+++ b/rust-src/src/gridstore/mod.rs
@@ -13,6 +13,20 @@ pub use spatial::global_bbox_for_zoom;
 pub use stackable::stackable;
 pub use store::*;
 
+/// Access to private modules for the verification harnesses; absent from ordinary builds.
+#[cfg(carmen_verif)]
+pub mod verif_hooks {
+    pub mod format {
+        pub use super::super::gridstore_format::*;
+    }
+    pub mod spatial {
+        pub use super::super::spatial::*;
+    }
+    pub mod stackable {
+        pub use super::super::stackable::*;
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6a89fe4db3661d5b51b70a45b359798f1fe2abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 02/12] fix: look up an exact phrase without computing id + 1,
 which overflows for u32::MAX

---
 rust-src/src/gridstore/store.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..1207906 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,21 +321,20 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
+        let range_key = match_key.clone();
         let mut db_key: Vec<u8> = Vec::new();
         range_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
-- 
2.43.0


From 96368b97a7abb75541dc9b4b0780718087c9e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 03/12] fix: finish() looped forever on phrase u32::MAX and put
 phrases below the first bin boundary in the first bin

---
 rust-src/src/gridstore/builder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..1dd0cdd 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,9 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
             }
 
             current_bin
-- 
2.43.0


From 9930e7e5617ea0a7e62b22826de1135484cfed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 04/12] fix: truncate a score to four bits so that one above 15
 no longer changes the relevance

---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 1dd0cdd..bd2bf26 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From a16f9383c38b8411a85d0a72fadf34eba8edc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 05/12] fix: treat a bounding box that ends before it starts as
 empty instead of asserting

---
 rust-src/src/gridstore/spatial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 38034b5..ebaa31b 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -12,9 +12,12 @@ use crate::gridstore::gridstore_format;
 /// Returns (Some(min,max)) if the Coord Vector morton order range overlaps with the bounding box,
 /// [`None`] if the Coord Vector morton order range does not overlaps with the bounding box
 pub fn bbox_range<'a>(coords: UniformVec<'a, Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
+    // a box that ends before it starts, as the intersection of disjoint boxes does, is empty
+    if bbox[0] > bbox[2] || bbox[1] > bbox[3] {
+        return None;
+    }
     let min = interleave_morton(bbox[0], bbox[1]);
     let max = interleave_morton(bbox[2], bbox[3]);
-    debug_assert!(min <= max, "Invalid bounding box");
 
     let len = coords.len();
     if len == 0 {
-- 
2.43.0


From aa2dfb4d5f45687c027d45df6d7a8220d239d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 06/12] fix: compute zoom changes in 32 bits so that moving
 between zooms 0 and 16 does not overflow

---
 rust-src/src/gridstore/common.rs  | 15 ++++++++++-----
 rust-src/src/gridstore/spatial.rs | 23 ++++++++++++-----------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..ca02a0e 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -132,18 +132,23 @@ impl MatchOpts {
                         // If this is a zoom out, divide by 2 for every level of zooming out.
                         let zoom_levels = self.zoom - target_z;
                         // Shifting to the right by a number is the same as dividing by 2 that number of times.
-                        Some([x >> zoom_levels, y >> zoom_levels])
+                        // Do this at u32 to allow zooming all the way out from z16.
+                        Some([
+                            (u32::from(*x) >> zoom_levels) as u16,
+                            (u32::from(*y) >> zoom_levels) as u16,
+                        ])
                     } else {
                         // If this is a zoom in, choose the closest to the middle of the possible tiles at the higher zoom level.
                         // The scale of the coordinates for zooming in is 2^(difference in zs).
-                        let scale_multiplier = 1 << (target_z - self.zoom);
+                        // Do this at u32 to allow zooming all the way in to z16.
+                        let scale_multiplier = 1u32 << (target_z - self.zoom);
                         // Pick a coordinate halfway between the possible higher zoom tiles,
                         // subtracting one to pick the one on the top left of the four middle tiles for consistency.
                         let mid_coord_adjuster = scale_multiplier / 2 - 1;
-                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
-                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_x = u32::from(*x) * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_y = u32::from(*y) * scale_multiplier + mid_coord_adjuster;
 
-                        Some([adjusted_x, adjusted_y])
+                        Some([adjusted_x as u16, adjusted_y as u16])
                     }
                 }
                 None => None,
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index ebaa31b..9d11700 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -607,26 +607,27 @@ pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4
         let zoom_levels = source_z - target_z;
         // If this is a zoom out, divide each coordinate by 2^(number of zoom levels).
         // This is the same as shifting bits to the right by the number of zoom levels.
+        // Do this at u32 to allow zooming all the way out from z16.
         [
-            bbox[0] >> zoom_levels,
-            bbox[1] >> zoom_levels,
-            bbox[2] >> zoom_levels,
-            bbox[3] >> zoom_levels,
+            (u32::from(bbox[0]) >> zoom_levels) as u16,
+            (u32::from(bbox[1]) >> zoom_levels) as u16,
+            (u32::from(bbox[2]) >> zoom_levels) as u16,
+            (u32::from(bbox[3]) >> zoom_levels) as u16,
         ]
     } else {
         // If this is a zoom in
-        let scale_multiplier = 1 << (target_z - source_z);
+        // Do this at u32 to allow zooming all the way in to z16.
+        let scale_multiplier = 1u32 << (target_z - source_z);
 
         // Scale the top left (min x and y) tile coordinates by 2^(zoom diff).
         // Scale the bottom right (max x and y) tile coordinates by 2^(zoom diff),
         // and add the new number of tiles (-1) to get the outer edge of possible tiles.
-        // We subtract 1 from the scale_multiplier before adding to prevent an integer overflow
-        // given that we're using a 16bit integer
+        // We subtract 1 from the scale_multiplier before adding so that the result fits in a 16bit integer
         [
-            bbox[0] * scale_multiplier,
-            bbox[1] * scale_multiplier,
-            bbox[2] * scale_multiplier + (scale_multiplier - 1),
-            bbox[3] * scale_multiplier + (scale_multiplier - 1),
+            (u32::from(bbox[0]) * scale_multiplier) as u16,
+            (u32::from(bbox[1]) * scale_multiplier) as u16,
+            (u32::from(bbox[2]) * scale_multiplier + (scale_multiplier - 1)) as u16,
+            (u32::from(bbox[3]) * scale_multiplier + (scale_multiplier - 1)) as u16,
         ]
     }
 }
-- 
2.43.0


From 3c292910ce2b90eb34681bedc2ae38c6169c4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:18 +0000
Subject: [PATCH 07/12] fix: do not overflow at the right and bottom edges of
 zoom 16 when restricting to nearby tiles

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index ca02a0e..6ac0418 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -174,8 +174,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding), // the right and bottom edges overflow likewise at z16
+            prox[1].saturating_add(padding), // ditto
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From 56854ad4b5cfe061c82e6f96ead4306a964d08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 08/12] fix: do not stack a phrase match on an index that an
 earlier member of the stack may not overlap

---
 rust-src/src/gridstore/stackable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-src/src/gridstore/stackable.rs b/rust-src/src/gridstore/stackable.rs
index ae87be8..06c31ce 100644
--- a/rust-src/src/gridstore/stackable.rs
+++ b/rust-src/src/gridstore/stackable.rs
@@ -226,6 +226,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
         for phrasematch in phrasematch_group.phrasematches.iter() {
             if (node.mask & phrasematch.mask) == 0
                 && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
+                && node.bmask.contains(phrasematch.idx as usize) == false
             {
                 let target_relev = relev_so_far + phrasematch.weight;
                 let max_possible_relev = target_relev + *phrasematch_group.max_relev_after_this;
-- 
2.43.0


From bbb755bd566f5b84051e60be9c26b2a55a0565d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 09/12] fix: do not drop an entry of feature 0 with scoredist 0
 from single searches

---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..209c806 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -86,7 +86,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -98,7 +98,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -140,7 +140,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -149,7 +149,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -871,7 +871,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -883,7 +883,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -925,7 +925,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -934,7 +934,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From a0125d2b0b5508f62382e4e763f6662f2485a674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:08 +0000
Subject: [PATCH 10/12] fix: keep a feature's most relevant entry in single
 searches around a proximity point

---
 rust-src/src/gridstore/coalesce.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 209c806..99c72b4 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -100,6 +100,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         // If it's the same feature as the last one, but a lower scoredist don't add it
         if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
+            && coalesce_entry.grid_entry.relev <= previous_relevance
         {
             continue;
         }
@@ -126,11 +127,13 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let current_relev = coalesce_entry.grid_entry.relev;
         let current_scoredist = coalesce_entry.scoredist;
 
-        // If it's the same feature as one that's been added before, but a higher scoredist, update the entry
+        // If it's the same feature as one that's been added before, but a higher relevance (around a proximity
+        // point, entries that aren't demoted can follow ones that are) or scoredist, update the entry
         match coalesced.entry(current_id) {
             Entry::Occupied(mut already_coalesced) => {
-                if current_scoredist > already_coalesced.get().scoredist
-                    && current_relev >= already_coalesced.get().grid_entry.relev
+                if current_relev > already_coalesced.get().grid_entry.relev
+                    || (current_relev == already_coalesced.get().grid_entry.relev
+                        && current_scoredist > already_coalesced.get().scoredist)
                 {
                     already_coalesced.insert(coalesce_entry);
                 }
@@ -885,6 +888,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         // If it's the same feature as the last one, but a lower scoredist don't add it
         if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
+            && coalesce_entry.grid_entry.relev <= previous_relevance
         {
             continue;
         }
@@ -911,11 +915,13 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let current_relev = coalesce_entry.grid_entry.relev;
         let current_scoredist = coalesce_entry.scoredist;
 
-        // If it's the same feature as one that's been added before, but a higher scoredist, update the entry
+        // If it's the same feature as one that's been added before, but a higher relevance (around a proximity
+        // point, entries that aren't demoted can follow ones that are) or scoredist, update the entry
         match coalesced.entry(current_id) {
             Entry::Occupied(mut already_coalesced) => {
-                if current_scoredist > already_coalesced.get().scoredist
-                    && current_relev >= already_coalesced.get().grid_entry.relev
+                if current_relev > already_coalesced.get().grid_entry.relev
+                    || (current_relev == already_coalesced.get().grid_entry.relev
+                        && current_scoredist > already_coalesced.get().scoredist)
                 {
                     already_coalesced.insert(coalesce_entry);
                 }
-- 
2.43.0


From b6721731e5244677fbfc50b2ed31aafa3debccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:08 +0000
Subject: [PATCH 11/12] fix: scale tiles between zooms in 32 bits when
 searching so that zoom 16 stores do not overflow

---
 rust-src/src/gridstore/coalesce.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 99c72b4..352b5a6 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -233,11 +233,12 @@ fn coalesce_multi<T: Borrow<GridStore> + Clone>(
             // See which other zooms are compatible.
             // These should all be lower zooms, so "zoom out" by dividing by 2^(difference in zooms)
             for other_zoom in compatible_zooms.iter() {
-                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
+                // Do this at u32 to allow zooming all the way out from z16.
+                let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - *other_zoom);
                 let other_zxy = (
                     *other_zoom,
-                    entries[0].grid_entry.x / scale_factor,
-                    entries[0].grid_entry.y / scale_factor,
+                    (u32::from(entries[0].grid_entry.x) / scale_factor) as u16,
+                    (u32::from(entries[0].grid_entry.y) / scale_factor) as u16,
                 );
 
                 if let Some(already_coalesced) = coalesced.get(&other_zxy) {
@@ -705,7 +706,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                     let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
 
-                    let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
+                    // do this at u32 to allow zooming all the way out from z16
+                    let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
 
                     let mut state_contexts: Vec<CoalesceContext> = Vec::new();
 
@@ -725,8 +727,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             // we're stacking on top of something that was already there
                             for grid in grids.iter() {
                                 let prev_zoom_xy = (
-                                    grid.grid_entry.x / scale_factor,
-                                    grid.grid_entry.y / scale_factor,
+                                    (u32::from(grid.grid_entry.x) / scale_factor) as u16,
+                                    (u32::from(grid.grid_entry.y) / scale_factor) as u16,
                                 );
 
                                 let entry = grid_to_coalesce_entry(
-- 
2.43.0


From 3aa324bb717c54a9650cdecb0b0a5e02d039e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:39 +0000
Subject: [PATCH 12/12] fix: keep all the match keys of a phrase match that is
 collapsed into an earlier one

---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 352b5a6..03fbbeb 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -971,7 +971,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0

