//! A bounding box moves between zooms exactly.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::*;

fn sorted_box(z: u32) -> [u16; 4] {
    let n = 1u64 << z;
    let v = [below(16, n) as u16, below(16, n) as u16, below(16, n) as u16, below(16, n) as u16];
    assume((v[0] <= v[2]) & (v[1] <= v[3]));
    v
}

fn zooms() {
    let (from, to) = (fork(17), fork(17));
    let b = sorted_box(from);
    let o = MatchOpts { bbox: Some(b), proximity: None, zoom: from as u16 };
    let r = o.adjust_to_zoom(to as u16);
    check(r.zoom == to as u16, "the options move to the zoom asked for");
    check(r.proximity.is_none(), "no proximity point appears");
    let n = match r.bbox {
        Some(n) => n,
        None => {
            check(false, "the box stays");
            return;
        }
    };
    let mut ok = true;
    if to < from {
        cover("out");
        // each edge is the tile that contains the old one
        let d = from - to;
        for k in 0..4 {
            let lo = (n[k] as u32) << d;
            ok &= (lo <= b[k] as u32) & ((b[k] as u32) < lo + (1 << d));
        }
    } else {
        cover(if to == from { "same" } else { "in" });
        let d = to - from;
        for k in 0..2 {
            ok &= n[k] as u32 == (b[k] as u32) << d;
            ok &= n[k + 2] as u32 == ((b[k + 2] as u32 + 1) << d) - 1;
        }
    }
    check(ok, "a box moved to another zoom covers the same area");
    // an arbitrary tile of the deeper zoom lies in one exactly when its parent lies in the other
    if to > from {
        let d = to - from;
        let t = (below(16, 1 << to) as u16, below(16, 1 << to) as u16);
        let up = ((t.0 as u32 >> d) as u16, (t.1 as u32 >> d) as u16);
        check(harness::near::inside(&t, &n) == harness::near::inside(&up, &b), "a tile lies in the moved box exactly when its parent lies in the box");
        let back = r.adjust_to_zoom(from as u16);
        check(back.bbox == Some(b), "moving in and back out gives the box again");
    }
    observe(n[0] as u64 | (n[1] as u64) << 16 | (n[2] as u64) << 32 | (n[3] as u64) << 48);
}

fn global() {
    let z = fork(17);
    let g = global_bbox_for_zoom(z as u16);
    let t = (u16s(), u16s());
    let n = count_in(&g, &t);
    let valid = (t.0 as u32) < (1 << z) && (t.1 as u32) < (1 << z);
    check(n == valid as u32, "the global box is exactly the tiles of the zoom");
    cover("global");
    observe(n as u64);
}

fn count_in(g: &[[u16; 4]], t: &(u16, u16)) -> u32 {
    harness::gen::count(g.iter().map(|b| harness::near::inside(t, b)))
}

fn main_() {
    match case() {
        0 => zooms(),
        1 => global(),
        _ => {}
    }
}
entry!(main_);
