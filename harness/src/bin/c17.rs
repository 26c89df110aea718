//! Nearby-only confines a request to the area around its proximity point.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::near::*;
use harness::*;

/// 25 miles in tiles, rounded up: 25 / (24901 / 2^z)
fn pad(z: u32) -> u32 {
    (25 * (1u32 << z) + 24900) / 24901
}

fn d(a: u16, b: u16) -> u32 {
    (a as i32 - b as i32).abs() as u32
}

fn area() {
    let z = fork(17);
    let n = 1u64 << z;
    let p = [below(16, n) as u16, below(16, n) as u16];
    let old = match fork(2) {
        0 => None,
        _ => Some([below(16, n) as u16, below(16, n) as u16, below(16, n) as u16, below(16, n) as u16]),
    };
    let o = MatchOpts { bbox: old, proximity: Some(p), zoom: z as u16 };
    let r = o.with_nearby_only();
    check((r.zoom == z as u16) & (r.proximity == Some(p)), "the point and the zoom stay");
    let t = (below(16, n) as u16, below(16, n) as u16);
    let mut want = (d(t.0, p[0]) <= pad(z)) & (d(t.1, p[1]) <= pad(z));
    if let Some(b) = &old {
        want &= inside(&t, b);
        cover("boxed");
    } else {
        cover("free");
    }
    match r.bbox {
        Some(b) => {
            check(inside(&t, &b) == want, "exactly the tiles around the point, within the old box, remain");
            observe(b[0] as u64 | (b[2] as u64) << 16);
        }
        None => check(false, "nearby-only gives a box"),
    }
}

fn without_point() {
    let z = fork(17);
    let old = match fork(2) {
        0 => None,
        _ => Some([u16s(), u16s(), u16s(), u16s()]),
    };
    let o = MatchOpts { bbox: old, proximity: None, zoom: z as u16 };
    let r = o.with_nearby_only();
    check((r.zoom == o.zoom) & (r.proximity == o.proximity) & (r.bbox == o.bbox), "without a point nothing changes");
    cover("unchanged");
}

/// A request with the result returns exactly the stored tiles around the point.
fn request() {
    let z = [16, 15, 14, 12][fork(4) as usize];
    let p = [below(16, 1 << z) as u16, below(16, 1 << z) as u16];
    let q = [100u16, 60000 & ((1u32 << z) - 1) as u16];
    let t = match fork(2) {
        0 => vec![(below(16, 1 << z) as u16, below(16, 1 << z) as u16)],
        _ => {
            let mut t = vec![(q[0], q[1]), (q[0] + pad(z) as u16, q[1]), (q[0] + pad(z) as u16 + 1, q[1]), (q[0], q[1] - pad(z) as u16), (q[0], q[1] - pad(z) as u16 - 1)];
            t.sort_by_key(|t| std::cmp::Reverse(harness::gen::z(t.0, t.1)));
            t
        }
    };
    let s = store(&t);
    let old = [0, 0, 65535, 150];
    let old = match fork(2) {
        0 => None,
        _ => Some(old),
    };
    let o = MatchOpts { bbox: old, proximity: Some(p), zoom: z as u16 };
    let got = ask(&s, &o.with_nearby_only());
    let mut n = 0;
    for t in t.iter() {
        let mut want = (d(t.0, p[0]) <= pad(z)) & (d(t.1, p[1]) <= pad(z));
        if let Some(b) = &old {
            want &= inside(t, b);
        }
        n += want as usize;
        check(count(got.iter().map(|m| (m.grid_entry.x == t.0) & (m.grid_entry.y == t.1))) == want as u32, "nearby tiles, and only those, come back");
    }
    check(got.len() == n, "nothing else comes back");
    cover(if n == 0 { "none" } else { "near" });
    observe(got.len() as u64);
}

fn main_() {
    match case() {
        0 => area(),
        1 => without_point(),
        2 => request(),
        _ => {}
    }
}
entry!(main_);
