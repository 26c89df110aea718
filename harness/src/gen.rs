//! Builders shared by the harnesses.
use crate::*;
use carmen_core::gridstore::*;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

static N: AtomicU32 = AtomicU32::new(0);

/// A path no other store of this run uses.
pub fn path() -> String {
    let n = N.fetch_add(1, Relaxed);
    let mut s = String::from("/mem/");
    s.push((b'a' + (n / 26) as u8) as char);
    s.push((b'a' + (n % 26) as u8) as char);
    s
}

pub fn builder() -> (GridStoreBuilder, String) {
    let p = path();
    (must(GridStoreBuilder::new(&p)), p)
}

/// unwrap without pulling in the error's formatting
pub fn must<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(v) => v,
        Err(_) => {
            check(false, "an operation that must succeed returned an error");
            unreachable!()
        }
    }
}

pub fn finish(b: GridStoreBuilder, p: &str) -> GridStore {
    must(b.finish());
    must(GridStore::new(p))
}

pub const RELEVS: [f64; 4] = [0.4, 0.6, 0.8, 1.0];

/// One of the four relevances, by fork.
pub fn relev() -> f64 {
    RELEVS[fork(4) as usize]
}

pub fn exact(id: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Exact(id), lang_set }
}
pub fn range(start: u32, end: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set }
}

/// Independent z-order interleaving: bit 2k is bit k of x, bit 2k+1 is bit k of y.
pub fn z(x: u16, y: u16) -> u32 {
    let mut r = 0u32;
    let mut k = 0;
    while k < 16 {
        r |= (((x >> k) & 1) as u32) << (2 * k);
        r |= (((y >> k) & 1) as u32) << (2 * k + 1);
        k += 1;
    }
    r
}

/// Number of true values.
pub fn count(it: impl Iterator<Item = bool>) -> u32 {
    let mut n = 0;
    for x in it {
        n += x as u32;
    }
    n
}
