//! Phrase matches and the stacks of a tree, for the checks of stacking and searching.
use crate::gen::*;
use crate::*;
use carmen_core::gridstore::*;
use fixedbitset::FixedBitSet;

/// A store without data.
pub fn empty_store(zoom: u16, type_id: u16) -> GridStore {
    let (w, p) = builder();
    must(w.finish());
    must(GridStore::new_with_options(&p, zoom, type_id, 0.0, global_bbox_for_zoom(zoom), 0.0))
}

pub fn key_of(id: u32, key: MatchKey) -> MatchKeyWithId {
    MatchKeyWithId { key, nearby_only: false, id, phrase_length: 2 }
}

pub fn phrasematch(store: &GridStore, idx: u16, weight: f64, mask: u32, id: u32) -> PhrasematchSubquery<&GridStore> {
    PhrasematchSubquery {
        store,
        idx,
        non_overlapping_indexes: FixedBitSet::with_capacity(128),
        weight,
        mask,
        match_keys: vec![key_of(id, exact(1, 1))],
    }
}
