//! What is recorded of searches reads back as it was.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use harness::gen::*;
use harness::search::same;
use harness::*;
use std::sync::Arc;
use test_utils::*;

type Read = (Vec<PhrasematchSubquery<Arc<GridStore>>>, MatchOpts);

/// A number near 0, near the top of its width or in the middle.
fn edge(bits: u32) -> u32 {
    let v = sym(4) as u32;
    let top = ((1u64 << bits) - 16) as u32;
    v + [0, 95, top / 3, top][fork(4) as usize].min(top)
}
fn langs() -> u128 {
    [0, 1, 1 << 63, 1 << 64, 1 << 127 | 2, u128::MAX][fork(6) as usize]
}
fn weight() -> f64 {
    [1.0, 0.5, 0.3333333333333333, 0.0625, 1e-7][fork(5) as usize]
}
fn phrase() -> MatchPhrase {
    match fork(2) {
        0 => MatchPhrase::Exact(edge(32)),
        _ => MatchPhrase::Range { start: edge(32), end: edge(32) },
    }
}
fn opts() -> MatchOpts {
    let mut o = MatchOpts::default();
    match fork(4) {
        0 => o.zoom = fork(17) as u16,
        1 => o.proximity = Some([edge(16) as u16, 7]),
        2 => o.bbox = Some([0, 1, 65535, edge(16) as u16]),
        _ => {
            o.bbox = Some([edge(16) as u16, 2, 3, 4]);
            o.proximity = Some([5, 6]);
        }
    }
    o
}
fn write<T: serde::Serialize>(v: &T) -> String {
    serde_json::to_string(v).unwrap()
}
fn read<T: serde::de::DeserializeOwned>(s: &str) -> T {
    match serde_json::from_str(s) {
        Ok(v) => v,
        Err(_) => {
            check(false, "what was written can be read");
            unreachable!()
        }
    }
}
fn again<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> T {
    read(&write(v))
}
fn same_opts(a: &MatchOpts, b: &MatchOpts) -> bool {
    (a.zoom == b.zoom) & (a.bbox == b.bbox) & (a.proximity == b.proximity)
}
fn same_phrase(a: &MatchPhrase, b: &MatchPhrase) -> bool {
    match (a, b) {
        (MatchPhrase::Exact(a), MatchPhrase::Exact(b)) => a == b,
        (MatchPhrase::Range { start: a, end: b }, MatchPhrase::Range { start: c, end: d }) => (a == c) & (b == d),
        _ => false,
    }
}
fn same_key(a: &MatchKeyWithId, b: &MatchKeyWithId) -> bool {
    same_phrase(&a.key.match_phrase, &b.key.match_phrase)
        & (a.key.lang_set == b.key.lang_set)
        & (a.id == b.id)
        & (a.nearby_only == b.nearby_only)
        & (a.phrase_length == b.phrase_length)
}
fn same_grid(a: &GridEntry, b: &GridEntry) -> bool {
    (a.relev.to_bits() == b.relev.to_bits()) & (a.score == b.score) & (a.x == b.x) & (a.y == b.y) & (a.id == b.id) & (a.source_phrase_hash == b.source_phrase_hash)
}

/// Values of the interface, one field at the edges of its width.
fn values() {
    match fork(6) {
        0 => {
            let k = GridKey { phrase_id: edge(32), lang_set: langs() };
            let l: GridKey = again(&k);
            check((k.phrase_id == l.phrase_id) & (k.lang_set == l.lang_set), "a key reads back as it was");
        }
        1 => {
            let k = MatchKeyWithId { key: MatchKey { match_phrase: phrase(), lang_set: langs() }, id: 9, nearby_only: fork(2) == 1, phrase_length: 3 };
            check(same_key(&k, &again(&k)), "a match key reads back as it was");
        }
        2 => {
            let k = MatchKeyWithId { key: MatchKey::default(), id: edge(32), nearby_only: fork(2) == 1, phrase_length: edge(32) as usize };
            check(same_key(&k, &again(&k)), "a match key with its number reads back as it was");
        }
        3 => {
            let o = opts();
            check(same_opts(&o, &again(&o)), "options read back as they were");
        }
        4 => {
            let mut g = GridEntry { relev: 0.6, score: 7, x: 2, y: 3, id: 9, source_phrase_hash: 11 };
            match fork(3) {
                0 => g.x = edge(16) as u16,
                1 => g.id = edge(32),
                _ => g.source_phrase_hash = edge(8) as u8,
            }
            check(same_grid(&g, &again(&g)), "an entry reads back as it was");
        }
        _ => {
            let mut e = CoalesceEntry {
                grid_entry: GridEntry { relev: 0.6, score: 7, x: 2, y: 3, id: 9, source_phrase_hash: 11 },
                matches_language: fork(2) == 1,
                idx: 3,
                tmp_id: 100663305,
                mask: 5,
                distance: [0.0, 12.5][fork(2) as usize],
                scoredist: 7.25,
                phrasematch_id: 4,
            };
            match fork(4) {
                0 => e.idx = edge(16) as u16,
                1 => e.tmp_id = edge(32),
                2 => e.mask = edge(32),
                _ => e.phrasematch_id = edge(32),
            }
            let c = CoalesceContext { mask: e.mask, relev: weight(), entries: vec![e.clone(), e] };
            let d: CoalesceContext = again(&c);
            check(same(&c, &d), "a result reads back as it was");
            let mut ok = true;
            for (a, b) in c.entries.iter().zip(d.entries.iter()) {
                ok &= same_grid(&a.grid_entry, &b.grid_entry) & (a.idx == b.idx) & (a.mask == b.mask) & (a.phrasematch_id == b.phrasematch_id) & (a.tmp_id == b.tmp_id);
                ok &= (a.distance == b.distance) & (a.scoredist == b.scoredist) & (a.matches_language == b.matches_language);
            }
            check(ok, "a result's entries read back as they were");
        }
    }
    cover("value");
}

/// A key as records had it before they said whether only what is nearby counts, and how long the phrase is.
fn older() {
    let id = edge(32);
    let mut t = format!("{{\"key\":{{\"match_phrase\":{{\"Exact\":7}},\"lang_set\":{}}},\"id\":{}", langs(), id);
    let near = fork(2) == 1;
    if near {
        t.push_str(",\"nearby_only\":true");
    }
    let long = fork(2) == 1;
    if long {
        t.push_str(",\"phrase_length\":6");
    }
    t.push('}');
    let k: MatchKeyWithId = read(&t);
    check(k.id == id, "an older record has the key's number");
    check(k.nearby_only == near, "an older record does not ask for what is nearby");
    check(k.phrase_length == if long { 6 } else { 0 }, "an older record says nothing of the length");
    cover("older");
}

const NAMES: [&str; 2] = ["a-country.gridstore", "b-place.gridstore"];

/// A store at `/mem/NAME.rocksdb`, and its dump where downloads come from.
fn publish(i: usize, v: Vec<GridEntry>, opts: (u16, u16, f64, Vec<[u16; 4]>, f64)) -> GridStore {
    let p = format!("/mem/{}.rocksdb", NAMES[i]);
    let mut w = must(GridStoreBuilder::new(&p));
    must(w.insert(&GridKey { phrase_id: 1, lang_set: 1 }, v));
    must(w.load_bin_boundaries(vec![0, 5]));
    must(w.finish());
    let dat = format!("/mem/{}.dat", NAMES[i]);
    dump_db_to_json(&p, &dat);
    for (from, to) in [(dat, ".dat.lz4"), (format!("/mem/{}.splits", NAMES[i].replace(".gridstore", "") + ".gridstore"), ".splits.lz4")] {
        rusoto_s3::verif_serve(&format!("{}{}", NAMES[i], to), &std_tools::verif_read(&from).unwrap());
    }
    must(GridStore::new_with_options(&p, opts.0, opts.1, opts.2, opts.3, opts.4))
}
fn grid(x: u16, y: u16, id: u32) -> GridEntry {
    GridEntry { relev: 1.0, score: 3, x, y, id, source_phrase_hash: 0 }
}
fn excluded(v: &[usize]) -> FixedBitSet {
    let mut b = FixedBitSet::with_capacity(128);
    for i in v {
        b.grow(*i + 1);
        b.insert(*i);
    }
    b
}
fn ask<'a>(s: &'a GridStore, idx: u16, mask: u32) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store: s,
        idx,
        non_overlapping_indexes: excluded(&[]),
        weight: 0.5,
        mask,
        match_keys: vec![MatchKeyWithId { key: MatchKey { match_phrase: MatchPhrase::Exact(1), lang_set: 1 }, id: idx as u32 + 40, ..MatchKeyWithId::default() }],
    }
}

/// The subquery read is the one written. `stub`: read for stacking only, with a store that has other data.
fn same_sub(a: &PhrasematchSubquery<&GridStore>, b: &PhrasematchSubquery<Arc<GridStore>>, stub: bool) {
    check((a.idx == b.idx) & (a.mask == b.mask), "a subquery's index and mask read back as they were");
    check(a.weight == b.weight, "a subquery's weight reads back as it was");
    let bits: Vec<usize> = a.non_overlapping_indexes.ones().collect();
    check(bits == b.non_overlapping_indexes.ones().collect::<Vec<_>>(), "a subquery's excluded indexes read back as they were");
    check(a.match_keys.len() == b.match_keys.len(), "a subquery has as many keys");
    let mut ok = true;
    for (x, y) in a.match_keys.iter().zip(b.match_keys.iter()) {
        ok &= same_key(x, y);
    }
    check(ok, "a subquery's keys read back as they were");
    let (s, t) = (a.store, &b.store);
    check((s.zoom == t.zoom) & (s.type_id == t.type_id) & (s.coalesce_radius == t.coalesce_radius), "a store's zoom, type and radius read back as they were");
    if !stub {
        check((s.max_score == t.max_score) & (s.bboxes == t.bboxes), "a store's score limit and boxes read back as they were");
        check(s.bin_boundaries.len() == t.bin_boundaries.len(), "a store's boundaries are those dumped");
    }
}

/// Records of searches, with blank lines, read as records.
fn records() {
    let mut e = grid(2, 3, 5);
    let mut o = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let mut st = (6u16, 1u16, 100.0, global_bbox_for_zoom(6), 15.0);
    let what = fork(10);
    match what {
        0 => e.x = below(6, 64) as u16,
        1 => st.1 = edge(16) as u16,
        2 => st.2 = [0.0, 400.0, 12.5][fork(3) as usize],
        3 => st.3 = vec![[0, 0, 9, edge(16) as u16], [1, 2, 3, 4]],
        4 => st.4 = [1.0, 15.0, 0.5, 12.5][fork(4) as usize],
        5 => o = opts(),
        _ => {}
    }
    let s = [publish(0, vec![e, grid(9, 9, 6)], st), publish(1, vec![grid(2, 3, 1)], (6, 0, 100.0, global_bbox_for_zoom(6), 15.0))];
    let mut a = ask(&s[0], 2, 1);
    match what {
        6 => a.idx = edge(16) as u16,
        7 => a.mask = edge(32) | 1,
        8 => a.weight = weight(),
        9 => {
            a.non_overlapping_indexes = excluded([&[][..], &[0], &[127], &[3, 64], &[299, 7]][fork(5) as usize]);
            a.match_keys.push(MatchKeyWithId { nearby_only: true, phrase_length: 1, id: edge(32), key: MatchKey::default() });
        }
        _ => {}
    }
    let both = fork(2) == 1;
    // two records; the second asks for the first store again
    let mut one = vec![a.clone()];
    if both {
        one.push(ask(&s[1], 7, 2));
    }
    let two = vec![ask(&s[0], 2, 4)];
    let p = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let mut text = write(&(&one, &o));
    text.push_str(["\n", "\n\n\n"][fork(2) as usize]);
    text.push_str(&write(&(&two, &p)));
    if fork(2) == 1 {
        text.push('\n');
    }
    rusoto_s3::verif_serve("queries.lz4", text.as_bytes());
    let got: Vec<Read> = prepare_phrasematches("queries.lz4");
    check(got.len() == 2, "each record is read, blank lines are not");
    for ((subs, opts), (want, o)) in got.iter().zip([(&one, &o), (&two, &p)]) {
        check(same_opts(opts, o), "the options read back as they were");
        check(subs.len() == want.len(), "a record has as many subqueries");
        for (x, y) in want.iter().zip(subs.iter()) {
            same_sub(x, y, false);
        }
    }
    // a search that was recorded gives the same again
    if what == 0 || what == 8 {
        let (x, y) = (must(coalesce(one.clone(), &o)), must(coalesce(got[0].0.clone(), &got[0].1)));
        check(x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same(x, y)), "a recorded search gives the same results again");
        observe(x.len() as u64);
        cover("searched");
    }
    cover(if both { "two" } else { "one" });
}

/// Records read for stacking.
fn stacks() {
    let s = publish(0, vec![grid(2, 3, 5)], (6, 1, 100.0, global_bbox_for_zoom(6), 15.0));
    rusoto_s3::verif_serve("aa-country-both_wvus-fa5c865008-e06f993377.gridstore.dat.lz4", b"");
    rusoto_s3::verif_serve("aa-country-both_wvus-fa5c865008-e06f993377.gridstore.splits.lz4", b"[]");
    let mut a = ask(&s, 2, 1);
    match fork(4) {
        0 => a.idx = edge(16) as u16,
        1 => a.mask = edge(32),
        2 => a.weight = weight(),
        _ => a.non_overlapping_indexes = excluded([&[][..], &[0], &[127], &[3, 64], &[299, 7]][fork(5) as usize]),
    }
    let one = vec![a, ask(&s, 9, 8)];
    let text = format!("\n{}\n\n{}", write(&(&one, &MatchOpts::default())), write(&(&one, &MatchOpts::default())));
    rusoto_s3::verif_serve("stacks.lz4", text.as_bytes());
    let got = prepare_stackable_phrasematches("stacks.lz4");
    check(got.len() == 2, "each record is read, blank lines are not");
    for subs in got.iter() {
        check(subs.len() == 2, "a record has as many subqueries");
        for (x, y) in one.iter().zip(subs.iter()) {
            same_sub(x, y, true);
        }
    }
    cover("stacks");
}

pub fn run() {
    match case() {
        0 => values(),
        1 => older(),
        2 => records(),
        3 => stacks(),
        _ => {}
    }
}
harness::entry!(run);
