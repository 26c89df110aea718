//! A proximity point moves between zooms into the right tile.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::*;

fn zooms() {
    let (from, to) = (fork(17), fork(17));
    let p = [below(16, 1 << from) as u16, below(16, 1 << from) as u16];
    let o = MatchOpts { bbox: None, proximity: Some(p), zoom: from as u16 };
    let r = o.adjust_to_zoom(to as u16);
    check(r.zoom == to as u16, "the options move to the zoom asked for");
    check(r.bbox.is_none(), "no box appears");
    let q = match r.proximity {
        Some(q) => q,
        None => {
            check(false, "the point stays");
            return;
        }
    };
    let mut ok = true;
    let mut valid = true;
    for k in 0..2 {
        valid &= (q[k] as u32) < 1 << to;
        if to < from {
            ok &= q[k] as u32 == p[k] as u32 >> (from - to);
        } else if to == from {
            ok &= q[k] == p[k];
        } else {
            let d = to - from;
            // the last tile before the middle of the area
            ok &= q[k] as u32 + 1 == ((2 * p[k] as u32 + 1) << d) / 2;
            ok &= q[k] as u32 >> d == p[k] as u32;
        }
    }
    cover(if to < from { "out" } else if to == from { "same" } else { "in" });
    check(valid, "the point is a tile of the new zoom");
    check(ok, "the point moves to the tile that contains it, or to the middle of the area it covers");
    if to > from {
        check(r.adjust_to_zoom(from as u16).proximity == Some(p), "moving in and back out gives the point again");
    }
    observe(q[0] as u64 | (q[1] as u64) << 16);
}

/// Points and boxes move independently of each other.
fn both() {
    let (from, to) = (fork(17), fork(17));
    let n = 1u64 << from;
    let p = [below(16, n) as u16, below(16, n) as u16];
    let b = [below(16, n) as u16, below(16, n) as u16, below(16, n) as u16, below(16, n) as u16];
    let o = MatchOpts { bbox: Some(b), proximity: Some(p), zoom: from as u16 };
    let r = o.adjust_to_zoom(to as u16);
    let rb = MatchOpts { proximity: None, ..o.clone() }.adjust_to_zoom(to as u16);
    let rp = MatchOpts { bbox: None, ..o.clone() }.adjust_to_zoom(to as u16);
    check((r.bbox == rb.bbox) & (r.proximity == rp.proximity), "the point and the box move independently");
    check((o.zoom == from as u16) & (o.bbox == Some(b)) & (o.proximity == Some(p)), "the options themselves do not change");
    cover("both");
}

fn main_() {
    match case() {
        0 => zooms(),
        1 => both(),
        _ => {}
    }
}
entry!(main_);
