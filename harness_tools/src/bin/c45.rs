//! A dumped store loads back as the same store, or the dump fails.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use harness::gen::*;
use harness::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use test_utils::*;

const DUMP: &str = "/mem/x.gridstore.dat";
const SPLITS: &str = "/mem/x.gridstore.splits";

/// Every list of entries, in order.
fn contents(s: &GridStore) -> Vec<(GridKey, Vec<GridEntry>)> {
    s.iter().map(must).collect()
}
fn same_entry(a: &GridEntry, b: &GridEntry) -> bool {
    (a.relev.to_bits() == b.relev.to_bits())
        & (a.score == b.score)
        & (a.x == b.x)
        & (a.y == b.y)
        & (a.id == b.id)
        & (a.source_phrase_hash == b.source_phrase_hash)
}
fn same(a: &GridStore, b: &GridStore) {
    let (p, q) = (contents(a), contents(b));
    check(p.len() == q.len(), "the loaded store has as many lists of entries as the dumped one");
    let mut entries = 0;
    for (x, y) in p.iter().zip(q.iter()) {
        check((x.0.phrase_id == y.0.phrase_id) & (x.0.lang_set == y.0.lang_set), "the keys are the dumped ones");
        check(x.1.len() == y.1.len(), "a key has as many entries as in the dumped store");
        let mut ok = true;
        for (e, f) in x.1.iter().zip(y.1.iter()) {
            ok &= same_entry(e, f);
            entries += 1;
        }
        check(ok, "the entries are the dumped ones");
    }
    check(a.bin_boundaries.len() == b.bin_boundaries.len(), "the loaded store has as many bin boundaries");
    let mut ok = true;
    for v in a.bin_boundaries.iter() {
        ok &= b.bin_boundaries.contains(v);
    }
    check(ok, "the bin boundaries are the dumped ones");
    observe(entries);
    if a.bin_boundaries.len() > 0 {
        cover("bins");
    }
}
fn load() -> GridStore {
    let p = path();
    load_db_from_json(DUMP, SPLITS, &p);
    must(GridStore::new(&p))
}
fn langs() -> u128 {
    [0, 1, 1 << 63, 1 << 64, 1 << 127 | 2, u128::MAX][fork(6) as usize]
}
fn entry() -> GridEntry {
    GridEntry { relev: 1.0, score: 7, x: 2, y: 3, id: 9, source_phrase_hash: 11 }
}

/// A number near 0, near the top of its width or in the middle.
fn edge(bits: u32) -> u32 {
    let v = sym(4) as u32;
    let top = ((1u64 << bits) - 16) as u32;
    v + [0, 95, top / 3, top][fork(4) as usize].min(top)
}

/// One field of an entry or key, at the edges of its width.
fn fields() {
    let mut e = entry();
    let mut k = GridKey { phrase_id: 5, lang_set: 3 };
    match fork(8) {
        0 => e.relev = relev(),
        1 => e.score = fork(16) as u8,
        2 => e.x = edge(16) as u16,
        3 => e.y = edge(16) as u16,
        4 => e.id = edge(24),
        5 => e.source_phrase_hash = edge(8) as u8,
        6 => k.phrase_id = edge(32),
        _ => k.lang_set = langs(),
    }
    let (mut w, p) = builder();
    must(w.insert(&k, vec![e.clone()]));
    let s = finish(w, &p);
    dump_db_to_json(&p, DUMP);
    let t = load();
    same(&s, &t);
    let c = contents(&t);
    check(c.len() == 1 && c[0].1.len() == 1, "there is one entry");
    check(same_entry(&c[0].1[0], &e), "the entry is the one inserted");
    check((c[0].0.phrase_id == k.phrase_id) & (c[0].0.lang_set == k.lang_set), "the key is the one inserted");
    cover("loaded");
}

/// What a request finds, whatever the store was made from.
fn ask(s: &GridStore, k: &MatchKey) -> Vec<(u32, bool)> {
    must(s.streaming_get_matching(k, &MatchOpts::default(), 1000)).map(|m| (m.grid_entry.id, m.matches_language)).collect()
}

/// Several keys, in any order of insertion, with bins.
fn several() {
    let n = fork(4) as usize;
    let (mut w, p) = builder();
    let mut used: Vec<(u32, u128)> = Vec::new();
    for i in 0..n {
        let k = GridKey { phrase_id: [8, 9, 300][(i + fork(2) as usize) % 3], lang_set: [1, 1 << 100][(i + fork(2) as usize) % 2] };
        for u in &used {
            assume((u.0 != k.phrase_id) | (u.1 != k.lang_set));
        }
        used.push((k.phrase_id, k.lang_set));
        let mut v = Vec::new();
        for j in 0..(i % 2 + 1) as u16 {
            v.push(GridEntry { relev: RELEVS[(i + j as usize) % 4], score: 3 * i as u8, x: 7 - j, y: 40 + sym(1) as u16, id: 1 + i as u32, source_phrase_hash: 0 });
        }
        must(w.insert(&k, v));
    }
    let bins = [vec![], vec![8, 9, 301]][fork(2) as usize].clone();
    must(w.load_bin_boundaries(bins));
    let s = finish(w, &p);
    dump_db_to_json(&p, DUMP);
    let t = load();
    same(&s, &t);
    let r = [range(0, 400, 1), range(8, 9, 1 << 100), range(9, 301, 0), exact(9, 1)][fork(4) as usize].clone();
    let (a, b) = (ask(&s, &r), ask(&t, &r));
    check(a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x == y), "a request of the loaded store finds what it finds in the dumped one");
    observe(a.len() as u64);
    cover(["nothing", "one key", "two keys", "three keys"][n]);
}

static WRITES: AtomicUsize = AtomicUsize::new(0);
/// Bytes in the whole dump's files: lines, boundaries.
static WHOLE: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// Set for a file when a write failed, other than its last: 1, its last: 2, when one longer than a buffer was not whole: 4.
static FAULTS: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
/// Bytes of a short write that may not be written any more.
static LOST: AtomicUsize = AtomicUsize::new(0);
const BUFFER: usize = 8192;

/// What becomes of a write of `n` bytes: all of it, a part of it, or an error; at most two are not whole.
fn fault(p: &std::path::Path, at: usize, n: usize) -> std::io::Result<usize> {
    if WRITES.load(Relaxed) == 2 {
        return Ok(n);
    }
    let file = (p == std::path::Path::new(SPLITS)) as usize;
    let note = |bit| {
        FAULTS[file].fetch_or(bit, Relaxed);
    };
    let k = fork(4);
    if k > 0 {
        WRITES.fetch_add(1, Relaxed);
    }
    match k {
        0 => Ok(n),
        1 => {
            cover("a short write");
            if n >= BUFFER {
                note(4);
                LOST.store(n / 2, Relaxed);
            }
            Ok((n + 1) / 2)
        }
        2 => {
            cover("an interrupted write");
            Err(std::io::ErrorKind::Interrupted.into())
        }
        _ => {
            cover("a failed write");
            let left = WHOLE[file].load(Relaxed).wrapping_sub(at + n);
            note(if left == 0 || left == LOST.load(Relaxed) { 2 } else { 1 });
            Err(std::io::ErrorKind::Other.into())
        }
    }
}
/// A dump that ended without an error has written a file as it should be, whatever became of its writes.
fn whole(file: usize, name: &str, want: &[u8]) {
    let same = std_tools::verif_read(name).unwrap_or_default() == want;
    // what is lost is told apart by the writes that were not whole
    let f = FAULTS[file].load(Relaxed);
    if f & 1 > 0 {
        check(same, "a failed write, other than the last, ends the dump with an error");
    } else if f & 4 > 0 {
        check(same, "a write longer than the buffer is continued when it was short");
    } else if f & 2 > 0 {
        check(same, ["a failed last write of entries ends the dump with an error", "a failed last write of boundaries ends the dump with an error"][file]);
    } else {
        check(same, "a dump has written everything");
    }
}

/// Writes that fail, are interrupted, or write a part: a dump that ends without an error is whole.
fn faults() {
    let (mut w, p) = builder();
    // longer than a buffer, or not
    let n = [1, 150][fork(2) as usize];
    let mut v = Vec::new();
    for i in 0..n {
        v.push(GridEntry { relev: 1.0, score: 7, x: i, y: 3, id: 1000 + i as u32, source_phrase_hash: 11 });
    }
    must(w.insert(&GridKey { phrase_id: 1, lang_set: 1 }, v));
    if fork(2) == 1 {
        must(w.insert(&GridKey { phrase_id: 2, lang_set: 1 }, vec![entry()]));
    }
    must(w.load_bin_boundaries(vec![0, 2, 3]));
    must(w.finish());
    dump_db_to_json(&p, DUMP);
    let (lines, splits) = (std_tools::verif_read(DUMP).unwrap_or_default(), std_tools::verif_read(SPLITS).unwrap_or_default());
    check(lines.len() > 0 && splits.len() > 0, "a dump has lines and boundaries");
    WHOLE[0].store(lines.len(), Relaxed);
    WHOLE[1].store(splits.len(), Relaxed);
    std_tools::verif_faults(Some(fault));
    may_panic(true);
    dump_db_to_json(&p, DUMP);
    may_panic(false);
    std_tools::verif_faults(None);
    whole(0, DUMP, &lines);
    whole(1, SPLITS, &splits);
    if n > 1 {
        cover("a long line");
    }
    cover("whole");
}

/// The store made for a test has what it was given.
fn created() {
    let mut blocks = Vec::new();
    let mut want = Vec::new();
    for i in 0..1 + fork(3) {
        let mut e = entry();
        e.x = u16s();
        e.score = (2 * i) as u8;
        e.id = 20 - i;
        want.push((3 * i, e.clone()));
        blocks.push(StoreEntryBuildingBlock { grid_key: GridKey { phrase_id: 3 * i, lang_set: 1 }, entries: vec![e] });
    }
    if fork(2) == 1 {
        blocks.reverse();
    }
    let mut no = FixedBitSet::with_capacity(128);
    no.insert(5);
    let (idx, zoom, ty, radius) = (u16s(), fork(17) as u16, u16s(), [0.0, 400.0][fork(2) as usize]);
    let t = create_store(blocks, idx, zoom, ty, no, radius);
    check(t.idx == idx, "the index number is the one given");
    check(t.non_overlapping_indexes.count_ones(..) == 1 && t.non_overlapping_indexes.contains(5), "the excluded indexes are those given");
    let s = &t.store;
    check((s.zoom == zoom) & (s.type_id == ty), "the zoom and type are those given");
    check(s.coalesce_radius == radius && s.max_score == 1.0, "the radius is the one given");
    check(s.bboxes.len() == 1, "the whole world is covered by one box");
    let b = s.bboxes[0];
    let last = if zoom == 0 { 0 } else { ((1u32 << zoom) - 1) as u16 };
    check(b[0] == 0 && b[1] == 0 && b[2] >= last && b[3] >= last, "the whole world is covered");
    let c = contents(s);
    check(c.len() == want.len(), "there are as many keys as given");
    for ((id, e), (k, v)) in want.iter().zip(c.iter()) {
        check(k.phrase_id == *id && v.len() == 1, "the keys are those given");
        check(same_entry(e, &v[0]), "the entries are those given");
    }
    cover("created");
}

/// A list of languages becomes the set with exactly these.
fn languages() {
    let n = fork(4) as usize;
    let v: Vec<u32> = (0..n).map(|_| below(7, 128) as u32).collect();
    let got = langarray_to_langfield(&v);
    let j = below(7, 128) as u32;
    let mut want = false;
    for l in &v {
        want |= *l == j;
    }
    check(((got >> j) & 1 == 1) == want, "the set has a language exactly when the list has it");
    cover(["none", "one", "two", "three"][n]);
}

/// A file with blank lines, with or without a newline at its end.
fn written() {
    let a = r#"{"grid_key":{"phrase_id":7,"lang_set":340282366920938463463374607431768211455},"entries":[{"relev":0.6,"score":4,"x":1,"y":2,"id":3,"source_phrase_hash":5}]}"#;
    let b = r#"{"grid_key":{"phrase_id":6,"lang_set":0},"entries":[{"relev":1.0,"score":15,"x":65535,"y":0,"id":16777215,"source_phrase_hash":255},{"relev":0.4,"score":0,"x":1,"y":2,"id":0,"source_phrase_hash":0}]}"#;
    let mut t = String::new();
    for (i, l) in [a, b].iter().enumerate() {
        for _ in 0..fork(3) {
            t.push('\n');
        }
        t.push_str(l);
        if i == 0 || fork(2) == 1 {
            t.push('\n');
        }
    }
    std_tools::verif_write(DUMP, t.as_bytes());
    let (text, bins): (&str, &[u32]) = [("[]", &[][..]), ("[3, 7,\n4294967295]\n", &[3, 7, u32::MAX][..])][fork(2) as usize];
    std_tools::verif_write(SPLITS, text.as_bytes());
    let s = load();
    let c = contents(&s);
    check(c.len() == 2, "each line that is not blank is a key");
    let e = |relev, score, x, y, id, h| GridEntry { relev, score, x, y, id, source_phrase_hash: h };
    let want = [
        (6, 0, vec![e(1.0, 15, 65535, 0, 16777215, 255), e(0.4, 0, 1, 2, 0, 0)]),
        (7, u128::MAX, vec![e(0.6, 4, 1, 2, 3, 5)]),
    ];
    for (w, (k, v)) in want.iter().zip(c.iter()) {
        check(k.phrase_id == w.0 && k.lang_set == w.1, "the keys are those in the file");
        check(v.len() == w.2.len(), "there are as many entries as in the file");
        for (x, y) in w.2.iter().zip(v.iter()) {
            check(same_entry(x, y), "the entries are those in the file");
        }
    }
    check(s.bin_boundaries.len() == bins.len(), "there are as many boundaries as in the file");
    for v in bins {
        check(s.bin_boundaries.contains(v), "the boundaries are those in the file");
    }
    cover("loaded");
}

pub fn run() {
    match case() {
        0 => fields(),
        1 => several(),
        2 => faults(),
        3 => created(),
        4 => languages(),
        5 => written(),
        _ => {}
    }
}
harness::entry!(run);
