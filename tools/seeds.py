"""The planted bugs: (id, property, file, [(old, new)], needs, what it breaks, demonstration)."""
G = "rust-src/src/gridstore/"
SEEDS = []


def seed(i, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=i, prop=prop, file=file if file.startswith(("native/", "test_utils/")) else G + file, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("c01-long-list", "C01", "gridstore_format.rs",
     [("""        let (len, len_len) = u32::decode_var(&data[(offset.addr as usize)..]);
        let start = (offset.addr + len_len) as usize;
        FixedVec {""", """        let (len, _) = u32::decode_var(&data[(offset.addr as usize)..]);
        let start = (offset.addr + 1) as usize;
        FixedVec {""")],
     "a tile with 128 or more distinct ids under one relevance and score",
     "the list's length is taken to be one byte long, so every id of a longer list is read one byte early",
     """
    let mut v = vec![];
    for id in 0..200 {
        v.push(e(1.0, 3, 5, 5, id + 1));
    }
    let s = store(&[(1, ALL, v)]);
    let mut ids: Vec<u32> = get(&s, 1, ALL).iter().map(|g| g.id).collect();
    ids.sort();
    assert_eq!(ids, (1..=200).collect::<Vec<u32>>());
""")

seed("c02-last-width", "C02", "gridstore_format.rs",
     [("let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);",
       "let rec_size: usize = s.last().map(|obj| obj.get_min_size()).unwrap_or(255);")],
     "a tile list whose last tile shares an early id list while another tile's id list starts at byte 256 or later",
     "the pointer width is taken from the last tile, so wider pointers are cut off",
     """
    let mut v = vec![];
    for i in 0..100u16 {
        v.push(e(1.0, 3, i + 1, i + 1, if i == 0 || i == 99 { 7 } else { 1000 + i as u32 }));
    }
    let want: Vec<(u16, u32)> = v.iter().rev().map(|g| (g.x, g.id)).collect();
    let s = store(&[(1, ALL, v)]);
    let got: Vec<(u16, u32)> = get(&s, 1, ALL).iter().map(|g| (g.x, g.id)).collect();
    assert_eq!(got, want);
""")

seed("c03-no-language", "C03", "common.rs",
     [("""            0 => {
                db_key.push(0);
            }
            _ => {
                let lang_set""", """            _ => {
                let lang_set""")],
     "an entry stored under the empty language set",
     "the empty language set is written with no language bytes, which is the mark of all languages",
     """
    let s = store(&[(1, 0, vec![e(1.0, 3, 5, 5, 1)]), (1, ALL, vec![e(1.0, 3, 6, 6, 2)])]);
    let k: Vec<GridKey> = s.keys().map(|k| k.unwrap()).collect();
    assert_eq!(k.len(), 2);
    assert_eq!(get(&s, 1, 0)[0].id, 1);
    assert_eq!(get(&s, 1, ALL)[0].id, 2);
""")

seed("c04-signed-range", "C04", "common.rs",
     [("MatchPhrase::Range { start, end } => start <= key_phrase && key_phrase < end,",
       "MatchPhrase::Range { start, end } => {\n                let at = key_phrase as i32;\n                start as i32 <= at && at < end as i32\n            }")],
     "a range of phrases that straddles 2^31",
     "phrase ids are compared as signed numbers, so such a range matches nothing",
     """
    let h = 1u32 << 31;
    let s = store(&[(h - 1, ALL, vec![e(1.0, 3, 5, 5, 1)]), (h, ALL, vec![e(1.0, 2, 6, 6, 2)])]);
    assert_eq!(ask(&s, &range(h - 2, h + 2, 1), &opts(6)).len(), 2);
    assert_eq!(ask(&s, &range(h - 1, h, 1), &opts(6)).len(), 1);
""")

seed("c05-low-languages", "C05", "common.rs",
     [("Ok(self.lang_set & key_lang_set != 0)", "Ok((self.lang_set as u64) & (key_lang_set as u64) != 0)")],
     "a request and an entry whose only common language is the 65th or later",
     "only the first 64 languages are compared",
     """
    let s = store(&[(1, 1u128 << 100, vec![e(1.0, 3, 5, 5, 1)])]);
    assert_eq!(ask(&s, &exact(1, 1u128 << 100), &opts(6))[0].0, 1.0);
    assert_eq!(ask(&s, &exact(1, 1u128 << 36), &opts(6))[0].0, 0.96);
""")

seed("c06-shared-list", "C06", "builder.rs",
     [("id_lists.entry(ids.clone()).or_insert_with(",
       "id_lists\n                .entry((ids.len(), ids.first().cloned(), ids.last().cloned()))\n                .or_insert_with(")],
     "two tiles of a phrase with at least three ids each that differ only between the first and last",
     "id lists are shared when their length and ends agree, so the second tile reads back the first's ids",
     """
    let v = vec![
        e(1.0, 3, 5, 5, 1), e(1.0, 3, 5, 5, 4), e(1.0, 3, 5, 5, 9),
        e(1.0, 3, 6, 6, 1), e(1.0, 3, 6, 6, 5), e(1.0, 3, 6, 6, 9),
    ];
    let s = store(&[(1, ALL, v)]);
    let got: Vec<(u16, u32)> = get(&s, 1, ALL).iter().map(|g| (g.x, g.id)).collect();
    assert_eq!(got, vec![(6, 9), (6, 5), (6, 1), (5, 9), (5, 4), (5, 1)]);
""")

seed("c06-no-dedup", "C06", "builder.rs",
     [("            ids.dedup();\n", "            if ids.len() > 2 {\n                ids.dedup();\n            }\n")],
     "one entry given twice, with no other feature at its tile",
     "a list of two ids is not cleared of duplicates, so the entry comes back twice",
     """
    let s = store(&[(1, ALL, vec![e(1.0, 3, 5, 5, 1), e(1.0, 3, 5, 5, 1)])]);
    assert_eq!(get(&s, 1, ALL).len(), 1);
""")

seed("c07-append-replaces", "C07", "builder.rs",
     [("                    e.get_mut().extend(id_phrases);\n", "                    *e.get_mut() = id_phrases.collect();\n")],
     "two appends to one phrase that meet at a tile with the same relevance and score",
     "the second replaces the features of the first at that tile",
     """
    let p = path();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    b.append(&key(1, ALL), vec![e(1.0, 3, 5, 5, 1)]).unwrap();
    b.append(&key(1, ALL), vec![e(1.0, 3, 5, 5, 2)]).unwrap();
    b.finish().unwrap();
    let s = GridStore::new(&p).unwrap();
    assert_eq!(get(&s, 1, ALL).len(), 2);
""")

seed("c07-compact-once", "C07", "builder.rs",
     [("                HmEntry::Occupied(mut e) => {\n                    e.get_mut().extend_from_slice(&id_hash);\n                }\n",
       "                HmEntry::Occupied(mut e) => {\n                    if e.get().last().map_or(true, |last| last >> 8 != id) {\n                        e.get_mut().extend_from_slice(&id_hash);\n                    }\n                }\n")],
     "two compact appends of one feature at one tile that differ only in the hash of the source phrase",
     "the second is taken for a repetition and dropped",
     """
    let p = path();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    b.compact_append(&key(1, ALL), 1.0, 3, 7, 1, &[(5, 5)]);
    b.compact_append(&key(1, ALL), 1.0, 3, 7, 2, &[(5, 5)]);
    b.finish().unwrap();
    let s = GridStore::new(&p).unwrap();
    let h: Vec<u8> = get(&s, 1, ALL).iter().map(|g| g.source_phrase_hash).collect();
    assert_eq!(h, vec![2, 1]);
""")

seed("c08-keep-number", "C08", "builder.rs",
     [("                .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;",
       "                .unwrap_or(&key.phrase_id);")],
     "renumbering with a table that has no place for some phrase",
     "the phrase silently keeps its temporary number instead of the renumbering failing",
     """
    let mut b = GridStoreBuilder::new(path()).unwrap();
    b.append(&key(0, ALL), vec![e(1.0, 3, 5, 5, 1)]).unwrap();
    b.append(&key(2, ALL), vec![e(1.0, 3, 5, 5, 2)]).unwrap();
    assert!(b.renumber(&[1, 0]).is_err());
""")

seed("c09-half-bin", "C09", "store.rs",
     [("if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {",
       "if self.bin_boundaries.contains(&start) {")],
     "a range that starts at a bin boundary and ends inside the bin",
     "the whole bin is returned",
     """
    let d = [(1, ALL, vec![e(1.0, 3, 5, 5, 1)]), (2, ALL, vec![e(1.0, 2, 6, 6, 2)])];
    let s = store_with(&d, 6, 0, 0.0, vec![[0, 0, 63, 63]], vec![0, 4]);
    assert_eq!(ask(&s, &range(0, 2, 1), &opts(6)).len(), 1);
    assert_eq!(ask(&s, &range(0, 4, 1), &opts(6)).len(), 2);
""")

seed("c09-bin-overwrites", "C09", "builder.rs",
     [("            zcoord_entry.extend(values.iter().cloned());\n",
       "            if zcoord_entry.is_empty() {\n                zcoord_entry.extend(values.iter().cloned());\n            }\n")],
     "two phrases of one bin with entries at the same tile, relevance and score",
     "the bin keeps only the first phrase's features of that tile",
     """
    let d = [(1, ALL, vec![e(1.0, 3, 5, 5, 1)]), (2, ALL, vec![e(1.0, 3, 5, 5, 2)])];
    let s = store_with(&d, 6, 0, 0.0, vec![[0, 0, 63, 63]], vec![0, 4]);
    assert_eq!(ask(&s, &range(0, 4, 1), &opts(6)).len(), 2);
""")

seed("c10-last-corner", "C10", "spatial.rs",
     [("    if max < range_end {\n", "    if max <= range_end {\n")],
     "a box whose lower right corner is the very last tile of the list",
     "the list is taken to lie outside the box",
     """
    let s = store(&[(1, ALL, vec![e(1.0, 3, 5, 5, 1), e(1.0, 3, 9, 9, 2)])]);
    let o = MatchOpts { bbox: Some([2, 2, 5, 5]), ..opts(6) };
    assert_eq!(ask(&s, &exact(1, 1), &o).len(), 1);
""")

seed("c11-signed-point", "C11", "spatial.rs",
     [("    let prox_pt = interleave_morton(proximity[0], proximity[1]) as i64;\n    let len = coords.len() as u32;\n",
       "    let prox_pt = i64::from(interleave_morton(proximity[0], proximity[1]) as i32);\n    let len = coords.len() as u32;\n")],
     "a proximity point in the lower half of zoom 16, with tiles on both sides of it in z-order",
     "the point's z-order number is sign-extended, so every tile before it is taken for nearer than any after it",
     """
    let s = store_with(&[(1, ALL, vec![e(1.0, 3, 40010, 40000, 1), e(1.0, 3, 0, 0, 2)])], 16, 0, 0.0, global_bbox_for_zoom(16), vec![]);
    let o = MatchOpts { proximity: Some([40000, 40000]), ..opts(16) };
    let got: Vec<u32> = ask(&s, &exact(1, 1), &o).iter().map(|g| g.4).collect();
    assert_eq!(got, vec![1, 2]);
""")

seed("c12-short-head", "C12", "spatial.rs",
     [("    let head = (range.0..prox_mid).rev().filter_map(filtered_get);\n",
       "    let head = (range.0..prox_mid.min(range.1)).rev().filter_map(filtered_get);\n")],
     "a box together with a proximity point that lies after every tile of the box in z-order",
     "the last tile of the box is lost",
     """
    let s = store(&[(1, ALL, vec![e(1.0, 3, 9, 9, 1), e(1.0, 3, 8, 8, 2), e(1.0, 3, 3, 3, 3), e(1.0, 3, 0, 0, 4)])]);
    let o = MatchOpts { bbox: Some([8, 8, 9, 9]), proximity: Some([0, 0]), zoom: 6 };
    assert_eq!(ask(&s, &exact(1, 1), &o).len(), 2);
""")

seed("c13-radius-edge", "C13", "store.rs",
     [("distance <= spatial::proximity_radius(*zoom, coalesce_radius),", "distance < spatial::proximity_radius(*zoom, coalesce_radius),")],
     "an entry in another language exactly as far from the proximity point as the radius",
     "it is penalised as though it were outside",
     """
    // at zoom 14 a radius of 400 is exactly 320 tiles
    let s = store_with(&[(1, 2, vec![e(1.0, 3, 1320, 1000, 1), e(1.0, 3, 1321, 1000, 2)])], 14, 0, 400.0, global_bbox_for_zoom(14), vec![]);
    let o = MatchOpts { proximity: Some([1000, 1000]), ..opts(14) };
    for g in ask(&s, &exact(1, 1), &o) {
        assert_eq!(g.0, if g.4 == 1 { 1.0 } else { 0.96 });
    }
""")

seed("c14-early-stop", "C14", "store.rs",
     [("                    if worst_entry >= &queue_element {\n                        continue;\n",
       "                    if worst_entry >= &queue_element {\n                        break;\n")],
     "a cap, and a range whose earlier phrases fill it before a bad phrase and then a good one",
     "the phrases after the first one that does not fit are never looked at",
     """
    let s = store(&[
        (1, ALL, vec![e(0.8, 3, 5, 5, 1)]),
        (2, ALL, vec![e(0.6, 3, 6, 6, 2)]),
        (3, ALL, vec![e(1.0, 3, 7, 7, 3)]),
    ]);
    let best: Vec<u32> = s.streaming_get_matching(&range(1, 4, 1), &opts(6), 1).unwrap().map(|m| m.grid_entry.id).collect();
    assert_eq!(best[0], 3);
""")

seed("c17-lost-edge", "C17", "common.rs",
     [("                std::cmp::max(old_box[1], new_box[1]),\n", "                std::cmp::max(old_box[1], new_box[0]),\n")],
     "a nearby-only request with a bounding box that reaches further up than the nearby area",
     "the upper edge of the area is taken from its left edge",
     """
    let o = MatchOpts { proximity: Some([500, 900]), bbox: Some([0, 0, 16383, 16383]), zoom: 14 };
    assert_eq!(o.with_nearby_only().bbox, Some([483, 883, 517, 917]));
""")

seed("c18-score-bits", "C18", "spatial.rs",
     [("    if score > 7 {\n        score = 7;\n    }\n", "    score &= 7;\n")],
     "a score above 7 in a request with a proximity point",
     "score 8 counts as score 0",
     """
    let s = store_with(&[(1, ALL, vec![e(1.0, 8, 5, 5, 1), e(1.0, 2, 5, 5, 2)])], 6, 0, 200.0, global_bbox_for_zoom(6), vec![]);
    let o = MatchOpts { proximity: Some([5, 5]), ..opts(6) };
    assert_eq!(ask(&s, &exact(1, 1), &o)[0].4, 1);
""")

seed("c19-one-too-many", "C19", "common.rs",
     [("        if self.heap.len() >= self.max_size {\n", "        if self.heap.len() > self.max_size {\n")],
     "more elements than the queue may hold",
     "the queue keeps one element too many",
     """
    let mut q = ConstrainedPriorityQueue::new(3);
    for i in 0..10 {
        q.push(i);
    }
    assert_eq!(q.into_vec_desc(), vec![9, 8, 7]);
""")

seed("c20-forgotten-exclusion", "C20", "stackable.rs",
     [("                let mut target_bmask: FixedBitSet = node.bmask.clone();\n                target_bmask.union_with(&phrasematch.non_overlapping_indexes);\n",
       "                let target_bmask: FixedBitSet = phrasematch.non_overlapping_indexes.clone();\n")],
     "three phrase matches, the first of whose exclusions names the third's index",
     "only the exclusions of the latest member of a stack are kept, so the third is stacked on the first",
     """
    let (a, b, c) = (at(6, 0, vec![]), at(8, 1, vec![]), at(10, 2, vec![]));
    let mut v = vec![pm(&a, 1, 0.3, 1, 1), pm(&b, 2, 0.3, 2, 2), pm(&c, 3, 0.3, 4, 3)];
    v[0].non_overlapping_indexes.insert(3);
    let t = stackable(&v);
    // the deepest relevance is that of two, not three
    assert!((t.root.max_relev - 0.6).abs() < 1e-9);
""")

seed("c21-first-child", "C21", "stackable.rs",
     [("                    if max_relev > node.max_relev {\n", "                    if node.children.len() == 1 {\n")],
     "a stack whose best continuation is of a later type than its first one",
     "a node's best relevance is that of its first child",
     """
    let (a, b) = (at(6, 0, vec![]), at(8, 1, vec![]));
    let v = vec![pm(&a, 1, 0.3, 1, 1), pm(&b, 2, 0.9, 1, 2)];
    assert!((stackable(&v).root.max_relev - 0.9).abs() < 1e-9);
""")

seed("c22-relative-cut", "C22", "coalesce.rs",
     [("        if max_relevance - coalesce_entry.grid_entry.relev >= 0.25 {\n", "        if max_relevance - coalesce_entry.grid_entry.relev >= 0.25 * subquery.weight {\n", 0)],
     "a phrase match of weight below 1 with features 0.4 apart in stored relevance",
     "the cut-off is scaled by the weight, so features less than 0.25 below the best are dropped",
     """
    let s = at(6, 0, vec![e(1.0, 3, 5, 5, 7), e(0.6, 3, 9, 9, 8)]);
    let r = coalesce(vec![pm(&s, 1, 0.5, 1, 1)], &opts(6)).unwrap();
    assert_eq!(r.len(), 2);
""")

seed("c23-double-count", "C23", "coalesce.rs",
     [("                                context_relevance -= prev_relev;\n", "")],
     "four phrase matches where two alternatives for the same part of the query, the better of the higher index, cover the tile of the last",
     "the better alternative's relevance is added on top of the one it replaces",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = at(6, 1, vec![e(1.0, 3, 5, 5, 2)]);
    let c = at(6, 2, vec![e(1.0, 3, 5, 5, 3)]);
    let d = at(6, 3, vec![e(1.0, 3, 5, 5, 4)]);
    let v = vec![pm(&a, 1, 0.2, 1, 1), pm(&b, 2, 0.2, 2, 2), pm(&c, 3, 0.3, 2, 3), pm(&d, 4, 0.2, 4, 4)];
    for r in coalesce(v, &opts(6)).unwrap() {
        let sum: f64 = r.entries.iter().map(|e| e.grid_entry.relev).sum();
        assert!(r.relev <= sum + 1e-9, "{} > {}", r.relev, sum);
    }
""")

seed("c24-equal-zoom", "C24", "coalesce.rs",
     [("|| subquery.store.borrow().zoom < subquery_b.store.borrow().zoom\n", "|| subquery.store.borrow().zoom <= subquery_b.store.borrow().zoom\n")],
     "two indexes of the same zoom with features at the same tile",
     "indexes of equal zoom no longer combine",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = at(6, 1, vec![e(1.0, 3, 5, 5, 2)]);
    let r = coalesce(vec![pm(&a, 1, 0.5, 1, 1), pm(&b, 2, 0.5, 2, 2)], &opts(6)).unwrap();
    assert_eq!(r[0].entries.len(), 2);
""")

seed("c25-same-number", "C25", "coalesce.rs",
     [("sets.insert(context.entries[0].tmp_id.into())", "sets.insert(context.entries[0].grid_entry.id.into())")],
     "results headed by features of two indexes that happen to have the same number",
     "the second is dropped as a repetition of the first",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 7)]);
    let b = at(6, 1, vec![e(1.0, 3, 20, 20, 7)]);
    let r = coalesce(vec![pm(&a, 1, 0.5, 1, 1), pm(&b, 2, 0.5, 2, 2)], &opts(6)).unwrap();
    assert_eq!(r.len(), 2);
""")

seed("c26-carried-penalty", "C26", "coalesce.rs",
     [("""                                    let mut out_context = new_context.clone();
                                    penalize_multi_context(&mut out_context);
                                    step_contexts.push(out_context);

                                    if step""",
       """                                    penalize_multi_context(&mut new_context);
                                    step_contexts.push(new_context.clone());

                                    if step""")],
     "a stack of three whose first two are in descending order of mask",
     "the penalty of the two is carried into the relevance of the three",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = at(6, 1, vec![e(1.0, 3, 5, 5, 2)]);
    let c = at(6, 2, vec![e(1.0, 3, 5, 5, 3)]);
    let v = vec![pm(&a, 1, 0.3, 1, 1), pm(&b, 2, 0.3, 2, 2), pm(&c, 3, 0.3, 4, 3)];
    let r = stack_and_coalesce(&v, &opts(6)).unwrap();
    assert_eq!(r[0].entries.len(), 3);
    assert!((r[0].relev - 0.89).abs() < 1e-9, "{}", r[0].relev);
""")

seed("c27-merged-masks", "C27", "coalesce.rs",
     [("        group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx, phrasematch.mask);\n",
       "        group_hash = (OrderedFloat(phrasematch.weight), phrasematch.idx);\n")],
     "two phrase matches of one index and weight for different parts of the query",
     "they are merged, and the second is searched under the first's mask",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let v = collapse_phrasematches(vec![pm(&a, 1, 0.5, 1, 1), pm(&a, 1, 0.5, 2, 2)]);
    assert_eq!(v.iter().map(|p| (p.mask, p.match_keys.len())).collect::<Vec<_>>(), vec![(1, 1), (2, 1)]);
""")

seed("c30-loose-equality", "C30", "common.rs",
     [("""impl PartialEq for CoalesceContext {
    fn eq(&self, other: &Self) -> bool {
        self.sort_key() == other.sort_key()""", """impl PartialEq for CoalesceContext {
    fn eq(&self, other: &Self) -> bool {
        let (a, b) = (self.sort_key(), other.sort_key());
        (a.0, a.1, a.3, a.4, a.5) == (b.0, b.1, b.3, b.4, b.5)""")],
     "two contexts that differ only in the index their first entry comes from",
     "they compare as equal and as ordered at once",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 7)]);
    let r = coalesce(vec![pm(&a, 1, 1.0, 1, 1)], &opts(6)).unwrap();
    let x = r[0].clone();
    let mut y = x.clone();
    y.entries[0].idx += 1;
    assert_eq!(x == y, x.cmp(&y) == std::cmp::Ordering::Equal);
""")

seed("c31-first-box", "C31", "coalesce.rs",
     [("                                let overlaps = child_bboxes.iter().any(|bbox| {\n", "                                let overlaps = child_bboxes.first().map_or(false, |bbox| {\n")],
     "an index that covers two areas, with a stack in the second one only",
     "only the first area an index covers is compared, so the stack is never searched",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = store_with(&[(1, ALL, vec![e(1.0, 3, 5, 5, 2)])], 6, 1, 200.0, vec![[40, 40, 50, 50], [4, 4, 6, 6]], vec![]);
    let r = stack_and_coalesce(&vec![pm(&a, 1, 0.5, 1, 1), pm(&b, 2, 0.5, 2, 2)], &opts(6)).unwrap();
    assert_eq!(r[0].entries.len(), 2);
""")

seed("c31-one-per-tile", "C31", "coalesce.rs",
     [("""                            unique_ids.insert((
                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))
""", """                            unique_ids.insert((grid.grid_entry.x, grid.grid_entry.y))
""")],
     "two features of one index at the same tile, stacked in the tree search",
     "only the first feature of a tile is kept",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = at(6, 1, vec![e(1.0, 3, 5, 5, 2), e(1.0, 2, 5, 5, 3)]);
    let r = stack_and_coalesce(&vec![pm(&a, 1, 0.5, 1, 1), pm(&b, 2, 0.5, 2, 2)], &opts(6)).unwrap();
    assert_eq!(r.iter().filter(|c| c.entries.len() == 2).count(), 2);
""")

seed("c32-unordered-ties", "C32", "coalesce.rs",
     [("""            OrderedFloat(context.relev),
            OrderedFloat(context.entries[0].scoredist),
            context.entries[0].grid_entry.x,
            context.entries[0].grid_entry.y,
            context.entries[0].grid_entry.id,
        ))
    });

    contexts.truncate(MAX_CONTEXTS);""", """            OrderedFloat(context.relev),
            OrderedFloat(context.entries[0].scoredist),
        ))
    });

    contexts.truncate(MAX_CONTEXTS);""")],
     "several features of equal relevance and scoredist in a single-query search",
     "their order is that of the hash map, which differs from run to run",
     """
    let s = at(6, 0, (1..30).map(|i| e(1.0, 3, i, i, i as u32)).collect());
    let first = show(&coalesce(vec![pm(&s, 1, 1.0, 1, 1)], &opts(6)).unwrap());
    for _ in 0..10 {
        assert_eq!(show(&coalesce(vec![pm(&s, 1, 1.0, 1, 1)], &opts(6)).unwrap()), first);
    }
""")

seed("c33-order-matters", "C33", "coalesce.rs",
     [("    stack.sort_by_key(|subquery| (subquery.store.borrow().zoom, subquery.idx));\n", "    stack.sort_by_key(|subquery| subquery.store.borrow().zoom);\n")],
     "two indexes of one zoom, given in either order",
     "which index heads the results depends on the order the subqueries come in",
     """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = at(6, 1, vec![e(1.0, 3, 5, 5, 2)]);
    let x = coalesce(vec![pm(&a, 1, 0.5, 1, 1), pm(&b, 2, 0.5, 2, 2)], &opts(6)).unwrap();
    let y = coalesce(vec![pm(&b, 2, 0.5, 2, 2), pm(&a, 1, 0.5, 1, 1)], &opts(6)).unwrap();
    assert_eq!(show(&x), show(&y));
""")

seed("c34-short-boundary", "C34", "store.rs",
     [("Some(u32::from_le_bytes(chunk.try_into().unwrap()))", "Some(u32::from(u16::from_le_bytes(chunk[..2].try_into().unwrap())))")],
     "a bin boundary of 65536 or more",
     "only the low half of a boundary is read back when the store is opened",
     """
    let d = [(70000, ALL, vec![e(1.0, 3, 5, 5, 1)])];
    let s = store_with(&d, 6, 0, 0.0, vec![[0, 0, 63, 63]], vec![0, 65540, 80000]);
    let mut b: Vec<u32> = s.bin_boundaries.iter().cloned().collect();
    b.sort();
    assert_eq!(b, vec![0, 65540, 80000]);
""")

seed("c15-all-levels", "C15", "spatial.rs",
     [("        let zoom_levels = source_z - target_z;\n", "        let zoom_levels = (source_z - target_z).min(15);\n")],
     "a box moved all the way from zoom 16 to zoom 0",
     "it is moved by 15 levels only, so it names tiles that zoom 0 does not have",
     """
    let o = MatchOpts { bbox: Some([40000, 0, 65535, 20]), zoom: 16, ..MatchOpts::default() };
    assert_eq!(o.adjust_to_zoom(0).bbox, Some([0, 0, 0, 0]));
    assert_eq!(o.adjust_to_zoom(1).bbox, Some([1, 0, 1, 0]));
""")

seed("c16-near-corner", "C16", "common.rs",
     [("let mid_coord_adjuster = scale_multiplier / 2 - 1;", "let mid_coord_adjuster = (scale_multiplier / 2 - 1).min(255);")],
     "a point moved in by ten levels or more",
     "it lands near the tile's corner rather than its middle",
     """
    let o = MatchOpts { proximity: Some([3, 1]), zoom: 3, ..MatchOpts::default() };
    assert_eq!(o.adjust_to_zoom(12).proximity, Some([3 * 512 + 255, 512 + 255]));
    assert_eq!(o.adjust_to_zoom(13).proximity, Some([3 * 1024 + 511, 1024 + 511]));
""")

seed("c28-split-runs", "C28", "common.rs",
     [("                        if *o != k {\n", "                        if *o != k || running_group.len() >= 64 {\n")],
     "a run of more than 64 items of one key",
     "it is given out in pieces of 64",
     """
    let v: Vec<u32> = (0..200).map(|i| if i == 3 { 9 } else { 7 }).collect();
    let g: Vec<(u32, usize)> = somewhat_eager_groupby(v.into_iter(), |x| *x).map(|(k, v)| (k, v.len())).collect();
    assert_eq!(g, vec![(7, 3), (9, 1), (7, 196)]);
""")

seed("c29-single-precision", "C29", "common.rs",
     [("        2 => 0.8,\n", "        2 => f64::from(0.8f32),\n")],
     "the relevance 0.8",
     "it comes back as the nearest single-precision number, which is not 0.8",
     """
    for r in &[0.4, 0.6, 0.8, 1.0] {
        assert_eq!(relev_int_to_float(relev_float_to_int(*r)), *r);
    }
""")

seed("c39-nearby-sticks", "C39", "coalesce.rs",
     [("""                for key_group in subquery.match_keys.iter() {
                    if is_single || !data_cache.contains_key(&key_group.id) {
                        let match_opts = if key_group.nearby_only {
                            step.match_opts.with_nearby_only()
                        } else {
                            step.match_opts.clone()
                        };
""", """                let mut match_opts = step.match_opts.clone();
                for key_group in subquery.match_keys.iter() {
                    if is_single || !data_cache.contains_key(&key_group.id) {
                        if key_group.nearby_only {
                            match_opts = match_opts.with_nearby_only();
                        }
"""), ("match_opts: match_opts,\n", "match_opts: match_opts.clone(),\n")],
     "a phrase match whose nearby-only key comes before one that is not, around a point",
     "the later key is confined to the area around the point as well",
     """
    let s = store_with(&[(1, ALL, vec![e(1.0, 3, 8000, 8000, 1)]), (2, ALL, vec![e(1.0, 3, 100, 100, 2)])], 14, 1, 200.0, global_bbox_for_zoom(14), vec![]);
    let mut q = pm(&s, 1, 0.5, 1, 7);
    q.match_keys.push(MatchKeyWithId { key: exact(2, 1), id: 8, ..MatchKeyWithId::default() });
    q.match_keys[0].nearby_only = true;
    let o = MatchOpts { zoom: 14, proximity: Some([8000, 8000]), bbox: None };
    let mut ids: Vec<u32> = stack_and_coalesce(&vec![q], &o).unwrap().iter().map(|c| c.entries[0].grid_entry.id).collect();
    ids.sort();
    assert_eq!(ids, vec![1, 2]);
""")

seed("c42-single-phrase-scan", "C42", "coalesce.rs",
     [("MatchPhrase::Range { start, end } => end - start > 1,", "MatchPhrase::Range { start, end } => end > start,")],
     "more than eight one-letter requests for ranges of a single phrase",
     "they are counted as scans, and those after the eighth are dropped",
     """
    let s = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let q: Vec<_> = (0..12)
        .map(|i| {
            let mut q = pm(&s, i + 1, 0.5, 1, i as u32 + 1);
            q.match_keys[0].key = range(1, 2, 1);
            q.match_keys[0].phrase_length = 1;
            q
        })
        .collect();
    assert_eq!(stack_and_coalesce(&q, &opts(6)).unwrap().len(), 12);
""")

seed("c43-step-by-step", "C43", "coalesce.rs",
     [("zoom_adjusted_match_options = match_opts.adjust_to_zoom(subquery.store.borrow().zoom);",
       "zoom_adjusted_match_options =\n                zoom_adjusted_match_options.adjust_to_zoom(subquery.store.borrow().zoom);")],
     "a search of indexes of several zooms around a point given at the deepest of them",
     "the point is moved from index to index, and what a shallow zoom rounds off is lost for the deeper one",
     """
    let a = at(6, 0, vec![e(1.0, 3, 31, 31, 1)]);
    let b = at(14, 1, vec![e(1.0, 3, 31 * 256 + 9, 31 * 256 + 7, 2)]);
    let o = MatchOpts { zoom: 14, proximity: Some([31 * 256 + 9, 31 * 256 + 7]), bbox: None };
    let v = coalesce(vec![pm(&a, 1, 0.5, 1, 1), pm(&b, 2, 0.5, 2, 2)], &o).unwrap();
    let d: Vec<f64> = v.iter().flat_map(|c| c.entries.iter()).filter(|c| c.idx == 2).map(|c| c.distance).collect();
    assert!(d.len() > 0 && d.iter().all(|d| *d == 0.0), "{:?}", d);
""")

seed("c44-half-the-features", "C44", "coalesce.rs",
     [("""    let bigger_max = 2 * MAX_CONTEXTS;

    let mut max_relevance""", """    let bigger_max = MAX_CONTEXTS;

    let mut max_relevance""")],
     "a search without a point in which the first forty changes of feature visit only a few features",
     "the tree search stops after half as many features as the plain one, so those after are missing",
     """
    let v: Vec<GridEntry> = (0..70u16).map(|i| e(1.0, 15 - (i / 5) as u8, 60 - i % 50, 5, if i < 50 { 1 + i as u32 % 2 } else { i as u32 })).collect();
    let s = at(6, 0, v);
    let a = show(&coalesce(vec![pm(&s, 1, 1.0, 1, 1)], &opts(6)).unwrap());
    let b = show(&stack_and_coalesce(&vec![pm(&s, 1, 1.0, 1, 1)], &opts(6)).unwrap());
    assert_eq!(a, b);
""")

N = "native/src/"
seed("c35-last-language", "C35", N + "gridstore.rs",
     [("    for j in 0..128 {\n", "    for j in 0..127 {\n")],
     "a key whose languages include number 127",
     "the key iterator leaves that language out",
     """
    let m = module();
    let p = path();
    let b = does(&m, "GridStoreBuilder", vec![text(&p)]);
    run(b, "insert", vec![js_key(1, array(vec![num(5u8), num(127u8)])), js_entries(&[e(1.0, 3, 5, 5, 1)])]);
    run(b, "finish", vec![]);
    let s = does(&m, "GridStore", vec![text(&p)]);
    let it = does(&m, "GridStoreKeyIterator", vec![s]);
    let k = field(run(it, "next", vec![]), "value");
    let l: Vec<u64> = items(field(k, "lang_set")).iter().map(|v| as_int(v)).collect();
    assert_eq!(l, vec![5, 127]);
""")

seed("c35-signed-phrase", "C35", N + "gridstore.rs",
     [("""        method compactAppend(mut cx) {
            let grid_key = cx.argument::<JsObject>(0)?;
            let phrase_id: u32 = grid_key
                .get(&mut cx, "phrase_id")?
                .downcast::<JsNumber>()
                .or_throw(&mut cx)?
                .value() as u32;
""", """        method compactAppend(mut cx) {
            let grid_key = cx.argument::<JsObject>(0)?;
            let phrase_id: u32 = grid_key
                .get(&mut cx, "phrase_id")?
                .downcast::<JsNumber>()
                .or_throw(&mut cx)?
                .value() as i32 as u32;
""")],
     "compactAppend under a phrase id of 2^31 or more",
     "all such ids are written as 2^31 - 1",
     """
    let m = module();
    let p = path();
    let b = does(&m, "GridStoreBuilder", vec![text(&p)]);
    for id in &[3u32, 0x8000_0005] {
        let coords = array(vec![array(vec![num(4u8), num(5u8)])]);
        run(b, "compactAppend", vec![js_key(*id, null()), num(1.0), num(3u8), num(7u8), num(0u8), coords]);
    }
    run(b, "finish", vec![]);
    let s = GridStore::new(&p).unwrap();
    let k: Vec<u32> = s.keys().map(|k| k.unwrap().phrase_id).collect();
    assert_eq!(k, vec![3, 0x8000_0005]);
""")

SEARCH = """
    fn ask(store: V, idx: u16, skip: u32, phrase: &str) -> V {
        object(&[
            ("store", store),
            ("weight", num(0.5)),
            ("mask", num(1u32 << (idx % 2))),
            ("idx", num(idx)),
            ("id", num(idx)),
            ("match_key", object(&[("match_phrase", object(&[("Range", object(&[("start", num(0u8)), ("end", num(9u8))]))])), ("lang_set", null())])),
            ("non_overlapping_indexes", array(vec![num(skip)])),
            ("phrase", text(phrase)),
        ])
    }
    fn search(m: &[(String, V)], asks: Vec<V>) -> Vec<V> {
        let cb = callback();
        let o = object(&[("zoom", num(6u8))]);
        does(m, "stackAndCoalesce", vec![array(asks), o, cb]);
        let got = match &*cb.kind.borrow() {
            neon::Kind::Callback(v) => items(v[0].clone().unwrap()),
            _ => unreachable!(),
        };
        got
    }
    let m = module();
    let p = path();
    let b = does(&m, "GridStoreBuilder", vec![text(&p)]);
    run(b, "insert", vec![js_key(1, null()), js_entries(&[e(1.0, 3, 5, 5, 1)])]);
    run(b, "finish", vec![]);
    let open = |type_id: u16| {
        let bboxes = array(vec![array(vec![num(0u8), num(0u8), num(63u8), num(63u8)])]);
        let o = object(&[("zoom", num(6u8)), ("type_id", num(type_id)), ("coalesce_radius", num(200.0)), ("bboxes", bboxes), ("max_score", num(15.0))]);
        does(&m, "GridStore", vec![text(&p), o])
    };
"""
seed("c36-characters", "C36", N + "gridstore.rs",
     [("""js_phrasematch.get(cx, "phrase")?.downcast::<JsString>().or_throw(cx)?.size() as usize;""",
       """js_phrasematch.get(cx, "phrase")?.downcast::<JsString>().or_throw(cx)?.value().chars().count();""")],
     "more than eight prefix scans for one character that takes several bytes",
     "the phrase's length is counted in characters, so they are held to the one-letter limit",
     SEARCH + """
    let asks: Vec<V> = (0..12).map(|i| ask(open(1), i + 1, 0, "\\u{4eac}")).collect();
    assert_eq!(search(&m, asks.clone()).len(), 12);
""")

seed("c36-short-index", "C36", N + "gridstore.rs",
     [("                .map(|n| n as usize)\n", "                .map(|n| n as u8 as usize)\n")],
     "a phrase match not to be combined with an index numbered 256 or more",
     "the index's number is cut to a byte, so the two are combined after all",
     SEARCH + """
    let asks = vec![ask(open(1), 2, 301, "ab"), ask(open(2), 301, 0, "ab")];
    assert_eq!(search(&m, asks).iter().filter(|c| items(field(c, "entries")).len() == 2).count(), 0);
""")

seed("c37-skipped-language", "C37", N + "gridstore.rs",
     [("""                lang_array.get(cx, i)?.downcast::<JsNumber>().or_throw(cx)?.value() as usize;
""", """                lang_array.get(cx, i)?.downcast::<JsNumber>().map(|n| n.value() as usize).unwrap_or(128);
""")],
     "a list of languages with a member that is not a number",
     "the member is passed over in silence and the entry is written",
     """
    let m = module();
    let p = path();
    let b = does(&m, "GridStoreBuilder", vec![text(&p)]);
    let k = js_key(1, array(vec![num(1u8), text("2")]));
    assert!(method(b, "insert", vec![k, js_entries(&[e(1.0, 3, 5, 5, 1)])]).is_none());
    run(b, "finish", vec![]);
    assert_eq!(GridStore::new(&p).unwrap().keys().count(), 0);
""")

seed("c37-finished-twice", "C37", N + "gridstore.rs",
     [("""                    None => {
                        Err("unable to finish()".to_string())
                    }
""", """                    None => Ok(()),
""")],
     "finishing a builder twice",
     "the second call is taken for a success",
     """
    let m = module();
    let b = does(&m, "GridStoreBuilder", vec![text(&path())]);
    run(b, "finish", vec![]);
    assert!(method(b, "finish", vec![]).is_none());
""")

seed("c38-wrapped-distance", "C38", N + "fuzzy_phrase.rs",
     [("""            let phrases: Vec<(Vec<String>, EndingType)> = match neon_serde::from_value(&mut cx, js_phrases) {
                Ok(v) => v,
                Err(e) => return cx.throw_type_error(e.to_string())
            };

            let max_word_dist = cx.argument::<JsNumber>(1)?.value() as u8;
""", """            let phrases: Vec<(Vec<String>, EndingType)> = match neon_serde::from_value(&mut cx, js_phrases) {
                Ok(v) => v,
                Err(e) => return cx.throw_type_error(e.to_string())
            };

            let max_word_dist = cx.argument::<JsNumber>(1)?.value() as u32 as u8;
""")],
     "fuzzyMatchMulti with a word distance above 255",
     "the distance wraps around instead of being capped",
     """
    let m = module();
    let s = does(&m, "FuzzyPhraseSet", vec![text("/mem/set")]);
    run(s, "fuzzyMatchMulti", vec![array(vec![]), num(300u16), num(2u8)]);
    assert_eq!(script(|s| s.asked_dist), (255, 2));
""")

seed("c38-first-bin", "C38", N + "fuzzy_phrase.rs",
     [("if let Some(bin) = bins.last() {", "if let Some(bin) = bins.first() {")],
     "a phrase set of two or more bins",
     "the last boundary is the first bin's end",
     """
    let m = module();
    let s = does(&m, "FuzzyPhraseSet", vec![text("/mem/set")]);
    let bin = |a, b| PrefixBin { prefix: vec![], first: Output(a), last: Output(b), size: (b - a + 1) as usize };
    script(|s| s.bins = vec![bin(0, 4)]);
    assert_eq!(as_buffer(run(s, "getPrefixBins", vec![num(9u8)])), vec![0, 5]);
    script(|s| s.bins = vec![bin(0, 4), bin(5, 11)]);
    assert_eq!(as_buffer(run(s, "getPrefixBins", vec![num(9u8)])), vec![0, 5, 12]);
""")

seed("c45-hash-not-dumped", "C45", "common.rs",
     [("    pub source_phrase_hash: u8,\n}", "    #[serde(default, skip_serializing)] pub source_phrase_hash: u8,\n}")],
     "a store with a phrase hash other than zero, dumped and loaded",
     "the hash is left out of the dump and read back as zero",
     """
    let p = path();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    let mut x = e(1.0, 3, 5, 5, 7);
    x.source_phrase_hash = 9;
    b.insert(&key(1, ALL), vec![e(1.0, 4, 5, 5, 8), x]).unwrap();
    b.finish().unwrap();
    let dir = std::env::var("TMPDIR").unwrap();
    let (dat, splits) = (dir.clone() + "/a.gridstore.dat", dir + "/a.gridstore.splits");
    dump_db_to_json(&p, &dat);
    let q = path();
    load_db_from_json(&dat, &splits, &q);
    let t = GridStore::new(&q).unwrap();
    let hashes: Vec<u8> = get(&t, 1, ALL).iter().map(|g| g.source_phrase_hash).collect();
    assert_eq!(hashes, vec![0, 9]);
""")

CUT = """
    // the build is cut short at every point in turn
    for at in 1..12 {
        let p = path();
        let mut b = GridStoreBuilder::new(&p).unwrap();
        for id in &[1u32, 4, 12] {
            b.insert(&key(*id, ALL), vec![e(1.0, 3, 5, 5, *id)]).unwrap();
        }
        b.load_bin_boundaries(vec![0, 10, 20]).unwrap();
        rocksdb::verif_fail_after(at);
        let r = b.finish();
        let failed = rocksdb::verif_failed() > 0;
        rocksdb::verif_fail_after(0);
        assert_eq!(r.is_err(), failed);
        if let Ok(s) = GridStore::new(&p) {
            let keys: Vec<u32> = s.keys().map(|k| k.unwrap().phrase_id).collect();
            for (a, z) in &[(0, 10), (10, 20), (0, 20)] {
                let want = keys.iter().filter(|k| *k >= a && *k < z).count();
                assert_eq!(ask(&s, &range(*a, *z, ALL), &opts(6)).len(), want);
            }
        }
    }
"""
seed("c46-bounds-first", "C46", "builder.rs",
     [("""        let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);

        let mut bin_seq""", """        let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);

        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries.iter() {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;

        let mut bin_seq"""),
      ("""        // bake the prefix boundaries
        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }
        db.put("~BOUNDS", &encoded_boundaries)?;

        db.compact""", "        db.compact")],
     "a build whose database fails between two lists of a bin",
     "the boundaries are written before the bins they announce, so a store whose build was cut short misses its last lists in range requests",
     CUT)

seed("c46-bins-best-effort", "C46", "builder.rs",
     [("                    db.put(&db_key, &grouped_db_data)?;", "                    let _ = db.put(&db_key, &grouped_db_data);")],
     "a database that fails only once, while a bin is written",
     "the failure is dropped: the build is reported as a success and the bin is missing",
     CUT.replace("verif_fail_after(at)", "verif_fail_at(at)"))

seed("c46-unread-is-absent", "C46", "store.rs",
     [("        Ok(match self.db.get(&db_key)? {", "        Ok(match self.db.get(&db_key).unwrap_or(None) {")],
     "a database that fails to read a list",
     "a list that cannot be read is taken to be absent",
     """
    let s = store(&[(1, ALL, vec![e(1.0, 3, 5, 5, 1)])]);
    rocksdb::verif_fail_at(1);
    assert!(s.get(&key(1, ALL)).is_err());
    assert!(s.get(&key(1, ALL)).unwrap().is_some());
    assert!(s.get(&key(2, ALL)).unwrap().is_none());
""")

seed("c46-boundless", "C46", "store.rs",
     [("match db.get(\"~BOUNDS\")? {", "match db.get(\"~BOUNDS\").ok().and_then(|b| b) {")],
     "a database that fails while the boundaries are read",
     "a store whose boundaries cannot be read is opened as one without bins",
     """
    let p = path();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    b.insert(&key(1, ALL), vec![e(1.0, 3, 5, 5, 1)]).unwrap();
    b.load_bin_boundaries(vec![0, 10]).unwrap();
    b.finish().unwrap();
    for at in 1..3 {
        rocksdb::verif_fail_at(at);
        assert!(GridStore::new(&p).is_err());
    }
    assert_eq!(GridStore::new(&p).unwrap().bin_boundaries.len(), 2);
""")

ORDERS = """
    // every order of the tasks of the search
    static NEXT: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());
    fn choose(n: u32) -> u32 {
        let mut v = NEXT.lock().unwrap();
        if v.is_empty() { 0 } else { v.remove(0) % n }
    }
    fn same(pm: &Vec<PhrasematchSubquery<&GridStore>>, o: &MatchOpts) {
        let show = |v: Vec<CoalesceContext>| -> Vec<String> { v.iter().map(|c| format!("{:?}", c)).collect() };
        let want = show(stack_and_coalesce(pm, o).unwrap());
        for i in 0..24u32 {
            *NEXT.lock().unwrap() = vec![i % 4, i / 4 % 3, i / 12, i % 2, i % 3];
            sched::explore(Some(choose), 0);
            let got = show(stack_and_coalesce(pm, o).unwrap());
            sched::explore(None, 0);
            assert_eq!(got, want);
        }
    }
"""

seed("c40-shared-dedup", "C40", "coalesce.rs",
     [("        let key_data: Vec<Result<_, Error>> = keys\n", "        let unique_ids = std::sync::Mutex::new(FxHashSet::default());\n        let key_data: Vec<Result<_, Error>> = keys\n"),
      ("                    let mut unique_ids = FxHashSet::default();\n", ""),
      ("                            unique_ids.insert((\n", "                            unique_ids.lock().unwrap().insert((\n                                key_step.subquery.mask,\n")],
     "two requests of a phrase match's key groups that name the same feature, read in parallel",
     "the requests read in one round share their set of entries already seen, so whichever runs first takes the common ones away from the other",
     ORDERS + """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = store_with(&[(1, ALL, vec![e(1.0, 3, 5, 5, 1)]), (2, ALL, vec![e(0.8, 9, 5, 5, 1), e(0.8, 9, 5, 5, 2)])], 6, 1, 200.0, global_bbox_for_zoom(6), vec![]);
    let mut q = pm(&b, 1, 0.5, 2, 20);
    q.match_keys.push(MatchKeyWithId { key: exact(2, 1), id: 21, ..MatchKeyWithId::default() });
    same(&vec![pm(&a, 0, 0.5, 1, 10), q], &opts(6));
""")

seed("c40-best-so-far", "C40", "coalesce.rs",
     [("        let key_data: Vec<Result<_, Error>> = keys\n", "        let best_so_far = std::sync::atomic::AtomicU64::new(0);\n        let key_data: Vec<Result<_, Error>> = keys\n"),
      ("""                    for entry in coalesced {
                        step_contexts.push(entry);
                    }
""", """                    for entry in coalesced {
                        // relevances are positive, so their bits compare as they do
                        let relev = entry.relev.to_bits();
                        let best = best_so_far.fetch_max(relev, std::sync::atomic::Ordering::SeqCst).max(relev);
                        if f64::from_bits(best) - entry.relev < 0.25 {
                            step_contexts.push(entry);
                        }
                    }
""")],
     "a weak phrase match and a strong one that are searched in parallel",
     "what is 0.25 below the best found so far is dropped at once, and what has been found so far depends on which task ran first",
     ORDERS + """
    let a = at(6, 0, vec![e(1.0, 3, 5, 5, 1)]);
    let b = at(6, 1, vec![e(1.0, 3, 9, 9, 2)]);
    same(&vec![pm(&a, 0, 0.5, 1, 10), pm(&b, 1, 1.0, 1, 20)], &opts(6));
    same(&vec![pm(&a, 0, 1.0, 1, 10), pm(&b, 1, 0.5, 1, 20)], &opts(6));
""")

seed("c40-as-they-finish", "C40", "coalesce.rs",
     [("        let key_data: Vec<Result<_, Error>> = keys\n            .into_par_iter()", "        let key_data = std::sync::Mutex::new(Vec::with_capacity(keys.len()));\n        keys.into_par_iter()"),
      ("""            })
            .collect();

        for result in key_data {
""", """            })
            .for_each(|result: Result<_, Error>| key_data.lock().unwrap().push(result));

        for result in key_data.into_inner().unwrap() {
""")],
     "two match keys of a phrase match that give results alike in everything the order compares",
     "results are taken as the tasks finish, so equal ones come in the order of the schedule",
     ORDERS + """
    let a = store_with(&[(1, ALL, vec![e(1.0, 3, 5, 5, 1)]), (2, ALL, vec![e(1.0, 3, 5, 5, 1)])], 6, 0, 200.0, global_bbox_for_zoom(6), vec![]);
    let mut q = pm(&a, 0, 1.0, 1, 20);
    q.match_keys.push(MatchKeyWithId { key: exact(2, 1), id: 21, ..MatchKeyWithId::default() });
    same(&vec![q], &opts(6));
""")

RECORDED = """
    let read = |text: String| {
        rusoto_s3::verif_serve("s.gridstore.dat.lz4", b"");
        rusoto_s3::verif_serve("s.gridstore.splits.lz4", b"[]");
        rusoto_s3::verif_serve("queries.lz4", text.as_bytes());
        prepare_phrasematches("queries.lz4")
    };
    let p = "/mem/s.gridstore.rocksdb";
    GridStoreBuilder::new(p).unwrap().finish().unwrap();
    let s = GridStore::new_with_options(p, 6, 1, 100.0, vec![[0, 0, 63, 63]], %s).unwrap();
    let mut a = pm(&s, 2, 0.5, 1, 7);
"""

seed("c47-excluded-index-narrow", "C47", "common.rs",
     [("    serializer.collect_seq(bits.ones())", "    serializer.collect_seq(bits.ones().map(|i| i as u8))")],
     "a recorded subquery that excludes an index above 255",
     "a recorded subquery excludes another index than it did",
     RECORDED % "15.0" + """
    a.non_overlapping_indexes.grow(400);
    a.non_overlapping_indexes.insert(3);
    a.non_overlapping_indexes.insert(300);
    let got = read(serde_json::to_string(&(vec![a], opts(6))).unwrap());
    let mut bits: Vec<usize> = got[0].0[0].non_overlapping_indexes.ones().collect();
    bits.sort();
    assert_eq!(bits, vec![3, 300]);
""")

seed("c47-usual-length-left-out", "C47", "common.rs",
     [("    pub id: u32,\n    #[serde(default)]\n    pub phrase_length: usize,\n}",
       "    pub id: u32,\n    #[serde(default, skip_serializing_if = \"is_default_length\")]\n    pub phrase_length: usize,\n}\n\n"
       "fn is_default_length(length: &usize) -> bool {\n    *length == MatchKeyWithId::default().phrase_length\n}")],
     "a recorded key of the length keys have by default (2)",
     "the length is left out of the record and read back as 0",
     RECORDED % "15.0" + """
    a.match_keys[0].phrase_length = 2;
    let mut b = a.clone();
    b.match_keys[0].phrase_length = 3;
    let got = read(serde_json::to_string(&(vec![a, b], opts(6))).unwrap());
    let lens: Vec<usize> = got[0].0.iter().map(|q| q.match_keys[0].phrase_length).collect();
    assert_eq!(lens, vec![2, 3]);
""")

seed("c47-score-limit-whole", "C47", "store.rs",
     [("    pub bboxes: Vec<[u16; 4]>,\n    pub max_score: f64,\n}",
       "    pub bboxes: Vec<[u16; 4]>,\n    #[serde(serialize_with = \"serialize_whole\")] pub max_score: f64,\n}\n\n"
       "/// whole numbers are shorter without the fraction\n"
       "fn serialize_whole<S: serde::Serializer>(n: &f64, s: S) -> Result<S::Ok, S::Error> {\n"
       "    if *n >= 1.0 {\n        s.serialize_u64(*n as u64)\n    } else {\n        s.serialize_f64(*n)\n    }\n}")],
     "a recorded search of a store whose score limit is above one and not whole",
     "the fraction of the score limit is lost in the record",
     RECORDED % "12.5" + """
    a.idx = 3;
    let got = read(serde_json::to_string(&(vec![a], opts(6))).unwrap());
    assert_eq!(got[0].0[0].store.max_score, 12.5);
""")
