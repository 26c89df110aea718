// Shared by the demonstrations: small stores through the public interface.
#![allow(dead_code, unused_imports)]
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);
pub const ALL: u128 = u128::MAX;

pub fn path() -> String {
    format!("/mem/{}", N.fetch_add(1, Ordering::SeqCst))
}
pub fn e(relev: f64, score: u8, x: u16, y: u16, id: u32) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: 0 }
}
pub fn key(phrase_id: u32, lang_set: u128) -> GridKey {
    GridKey { phrase_id, lang_set }
}
pub fn exact(id: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Exact(id), lang_set }
}
pub fn range(start: u32, end: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set }
}
pub fn store(data: &[(u32, u128, Vec<GridEntry>)]) -> GridStore {
    store_with(data, 6, 0, 0.0, vec![[0, 0, 63, 63]], vec![])
}
pub fn store_with(data: &[(u32, u128, Vec<GridEntry>)], zoom: u16, type_id: u16, radius: f64, boxes: Vec<[u16; 4]>, bins: Vec<u32>) -> GridStore {
    let p = path();
    let mut b = GridStoreBuilder::new(&p).unwrap();
    for (id, lang, v) in data {
        b.append(&key(*id, *lang), v.clone()).unwrap();
    }
    if !bins.is_empty() {
        b.load_bin_boundaries(bins).unwrap();
    }
    b.finish().unwrap();
    GridStore::new_with_options(&p, zoom, type_id, radius, boxes, 15.0).unwrap()
}
pub fn at(zoom: u16, type_id: u16, v: Vec<GridEntry>) -> GridStore {
    store_with(&[(1, ALL, v)], zoom, type_id, 200.0, global_bbox_for_zoom(zoom), vec![])
}
pub fn opts(zoom: u16) -> MatchOpts {
    MatchOpts { zoom, ..MatchOpts::default() }
}
/// (relev, score, x, y, id) of a request's entries, in order
pub fn ask(s: &GridStore, k: &MatchKey, o: &MatchOpts) -> Vec<(f64, u8, u16, u16, u32)> {
    s.streaming_get_matching(k, o, 100_000)
        .unwrap()
        .map(|m| (m.grid_entry.relev, m.grid_entry.score, m.grid_entry.x, m.grid_entry.y, m.grid_entry.id))
        .collect()
}
pub fn get(s: &GridStore, id: u32, lang: u128) -> Vec<GridEntry> {
    s.get(&key(id, lang)).unwrap().map(|i| i.collect()).unwrap_or_default()
}
pub fn pm<'a>(s: &'a GridStore, idx: u16, weight: f64, mask: u32, id: u32) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store: s,
        idx,
        non_overlapping_indexes: FixedBitSet::with_capacity(128),
        weight,
        mask,
        match_keys: vec![MatchKeyWithId { key: exact(1, 1), id, ..MatchKeyWithId::default() }],
    }
}
/// (relev, ids of the entries) of a search's results
pub fn show(v: &[CoalesceContext]) -> Vec<(i64, Vec<u32>)> {
    v.iter().map(|c| ((c.relev * 1e6).round() as i64, c.entries.iter().map(|e| e.grid_entry.id).collect())).collect()
}
