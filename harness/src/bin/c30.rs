//! Contexts are totally ordered, consistently with equality.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::*;
use std::cmp::Ordering::{self, *};

struct C {
    relev: f64,
    scoredist: f64,
    idx: u16,
    x: u16,
    y: u16,
    id: u32,
}

fn any(floats: bool) -> C {
    let f = || if floats { f64::from_bits(sym(64)) } else { [0.0, -0.0, 1.0, f64::NAN][fork(4) as usize] };
    C { relev: f(), scoredist: f(), idx: u16s(), x: u16s(), y: u16s(), id: u32s() }
}

fn context(c: &C, extra: bool) -> CoalesceContext {
    let e = |c: &C, n: u32| CoalesceEntry {
        grid_entry: GridEntry { relev: 1.0, score: n as u8, x: c.x, y: c.y, id: c.id, source_phrase_hash: 0 },
        matches_language: true,
        idx: c.idx,
        tmp_id: n,
        mask: n,
        distance: 0.0,
        scoredist: c.scoredist,
        phrasematch_id: n,
    };
    let mut entries = vec![e(c, 1)];
    if extra {
        entries.push(e(&C { relev: 0.0, scoredist: 9.0, idx: 7, x: 1, y: 2, id: 3 }, 2));
    }
    CoalesceContext { mask: 1 + extra as u32, relev: c.relev, entries }
}

/// IEEE order with every NaN equal and above everything
fn fcmp(a: f64, b: f64) -> Ordering {
    let (an, bn) = (a != a, b != b);
    if an | bn {
        return an.cmp(&bn);
    }
    if a < b {
        Less
    } else if a > b {
        Greater
    } else {
        Equal
    }
}

fn want(a: &C, b: &C) -> Ordering {
    fcmp(a.relev, b.relev)
        .then_with(|| fcmp(a.scoredist, b.scoredist))
        .then_with(|| b.idx.cmp(&a.idx))
        .then_with(|| a.x.cmp(&b.x))
        .then_with(|| a.y.cmp(&b.y))
        .then_with(|| a.id.cmp(&b.id))
}

fn two() {
    let (a, b) = (any(true), any(true));
    let (ca, cb) = (context(&a, false), context(&b, fork(2) == 1));
    let o = ca.cmp(&cb);
    check(o == want(&a, &b), "contexts order by relevance, scoredist, lower index, tile and id");
    check(cb.cmp(&ca) == o.reverse(), "the order is antisymmetric");
    check(ca.partial_cmp(&cb) == Some(o), "the partial order is the order");
    check((ca == cb) == (o == Equal), "equality agrees with the order");
    check(ca.cmp(&ca) == Equal, "a context equals itself");
    cover(match o {
        Less => "less",
        Equal => "equal",
        Greater => "greater",
    });
    observe((o as i8 + 1) as u64);
}

fn three() {
    let (a, b, c) = (any(false), any(false), any(false));
    let (a, b, c) = (context(&a, false), context(&b, false), context(&c, false));
    let (ab, bc) = (a.cmp(&b), b.cmp(&c));
    if ab != Greater && bc != Greater {
        let ac = a.cmp(&c);
        check(ac != Greater, "the order is transitive");
        check((ac == Equal) == (ab == Equal && bc == Equal), "strictness is transitive");
        cover("chain");
    }
}

fn main_() {
    match case() {
        0 => two(),
        1 => three(),
        _ => {}
    }
}
entry!(main_);
