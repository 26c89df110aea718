//! The tree search finds every overlapping stack.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::search::*;
use harness::*;

/// One entry of each of some subqueries, by position; None where the subquery takes no part.
type Pick = Vec<Option<usize>>;

/// What must be found: every combination of entries whose tiles contain one another.
fn complete(subs: Vec<Sub>, o: MatchOpts, order: &[usize]) {
    let stores: Vec<GridStore> = subs.iter().map(|s| s.store()).collect();
    let pm: Vec<_> = order.iter().map(|i| subs[*i].ask(&stores[*i])).collect();
    let v = must(stack_and_coalesce(&pm, &o));
    let within = |s: &Sub, e: &GridEntry| o.adjust_to_zoom(s.zoom).bbox.map_or(true, |b| (b[0] <= e.x) & (e.x <= b[2]) & (b[1] <= e.y) & (e.y <= b[3]));
    let n = subs.len();
    let mut picks: Vec<Pick> = vec![Vec::new()];
    for s in subs.iter() {
        let mut next = Vec::new();
        for p in picks {
            for e in 0..=s.entries.len() {
                let mut q = p.clone();
                q.push(if e == 0 { None } else { Some(e - 1) });
                next.push(q);
            }
        }
        picks = next;
    }
    let mut present = true;
    let mut many = 0;
    for p in picks.iter() {
        let used: Vec<usize> = (0..n).filter(|i| p[*i].is_some()).collect();
        if used.is_empty() {
            continue;
        }
        // a lone entry of a phrase match nothing can be stacked on is only kept within 0.25 of its best
        let mut fits = true;
        let mut mask = 0;
        for (k, &i) in used.iter().enumerate() {
            let e = &subs[i].entries[p[i].unwrap()];
            fits &= within(&subs[i], e) & (mask & subs[i].mask == 0);
            mask |= subs[i].mask;
            if k > 0 {
                let b = used[k - 1];
                fits &= covers(subs[b].zoom, &subs[b].entries[p[b].unwrap()], subs[i].zoom, e);
            }
        }
        if used.len() > 1 && used.iter().map(|i| subs[*i].mask.count_ones()).sum::<u32>() != mask.count_ones() {
            continue;
        }
        let mut found = false;
        for c in v.iter() {
            // entries come deepest first
            if c.entries.len() == used.len() {
                let mut it = true;
                for (k, &i) in used.iter().rev().enumerate() {
                    let e = &subs[i].entries[p[i].unwrap()];
                    let g = &c.entries[k];
                    it &= (g.idx == subs[i].idx) & (g.grid_entry.id == e.id) & (g.grid_entry.x == e.x) & (g.grid_entry.y == e.y);
                }
                found |= it;
            }
        }
        present &= !fits | found;
        many += (used.len() > 1 && fits && found) as u32;
    }
    check(present, "every combination of entries whose tiles contain one another is found");
    for c in v.iter() {
        consistent(&subs, c, true, 0);
        let mut ok = true;
        for e in c.entries.iter() {
            ok &= within(owner(&subs, e), &e.grid_entry);
        }
        check(ok, "nothing outside the box is found");
    }
    cover(["none", "one", "several"][many.min(2) as usize]);
    observe(v.len() as u64);
    for c in v.iter() {
        observe(digest(c));
    }
}

const ZOOMS: [[u16; 3]; 8] = [[6, 6, 6], [6, 14, 14], [0, 16, 16], [4, 6, 16], [12, 13, 13], [14, 14, 16], [0, 0, 1], [16, 16, 16]];
const ORDERS: [[usize; 3]; 3] = [[0, 1, 2], [2, 1, 0], [1, 0, 2]];

fn entries(z: u16, n: usize, id: u32) -> Vec<GridEntry> {
    (0..n)
        .map(|i| {
            let t = tile(z);
            entry([1.0, 0.8][i % 2], i as u8, t.0, t.1, id + i as u32)
        })
        .collect()
}

/// Ten phrase matches of one type below one of another: more stacks than are searched at a time.
fn wide() {
    let z = [[6u16, 6], [6, 14], [4, 6]][fork(3) as usize];
    let deep = fork(2) == 1;
    let (n0, n1) = if deep { (1, 10) } else { (10, 1) };
    let at = fork(3) as usize * 4;
    let mut subs = Vec::new();
    for i in 0..n0 + n1 {
        let t = (i >= n0) as usize;
        let many = (t == 1) == deep;
        let k = if deep { i.max(1) - 1 } else { i };
        let xy = if !many || k == at { tile(z[t]) } else { (3 << (z[t] - z[0]), 5 << (z[t] - z[0])) };
        let mut s = Sub::new(i, z[t], if many { [0.5, 0.25, 0.375][k % 3] } else { 0.5 }, vec![entry([1.0, 0.8][k % 2], 3, xy.0, xy.1, 1)]);
        s.type_id = t as u16;
        s.mask = 1 << t;
        subs.push(s);
    }
    let order: Vec<usize> = (0..n0 + n1).collect();
    complete(subs, MatchOpts { zoom: z[1], ..MatchOpts::default() }, &order)
}

/// The deeper index covers two arbitrary areas.
fn areas() {
    let z = [[6u16, 6], [6, 14], [0, 16], [14, 16]][fork(4) as usize];
    let a = Sub::new(0, z[0], 0.5, entries(z[0], 2, 1));
    let mut b = Sub::new(1, z[1], 0.5, entries(z[1], 1, 1));
    let n = 1u64 << z[1];
    let mut boxes = Vec::new();
    let mut inside = false;
    for _ in 0..2 {
        let (x0, y0, x1, y1) = (below(16, n), below(16, n), below(16, n), below(16, n));
        assume((x0 <= x1) & (y0 <= y1));
        let e = &b.entries[0];
        inside |= (x0 <= e.x as u64) & (e.x as u64 <= x1) & (y0 <= e.y as u64) & (e.y as u64 <= y1);
        boxes.push([x0 as u16, y0 as u16, x1 as u16, y1 as u16]);
    }
    assume(inside);
    b.boxes = Some(boxes);
    complete(vec![a, b], MatchOpts { zoom: z[1], ..MatchOpts::default() }, &[0, 1])
}

fn run() {
    match case() {
        6 => return areas(),
        7 => return wide(),
        9 => {
            let s = chain(5);
            let z = s[4].zoom;
            return complete(s, MatchOpts { zoom: z, ..MatchOpts::default() }, [&[0, 1, 2, 3, 4], &[3, 0, 4, 2, 1]][fork(2) as usize]);
        }
        8 => {
            let z = CROWDS[fork(5) as usize];
            let [a, b] = crowd(12, z, [0.5, 0.5], &|i| [1.0, 0.8][i % 2]);
            return complete(vec![a, b], MatchOpts { zoom: z[1], ..MatchOpts::default() }, &[[0, 1], [1, 0]][fork(2) as usize])
        }
        _ => {}
    }
    let z = ZOOMS[fork(8) as usize];
    let mut o = MatchOpts { zoom: z[2], ..MatchOpts::default() };
    match case() {
        0 => {
            let a = Sub::new(0, z[0], 0.5, entries(z[0], 2, 1));
            let b = Sub::new(1, z[1], 0.5, entries(z[1], 1, 1));
            complete(vec![a, b], o, &[[0, 1], [1, 0]][fork(2) as usize])
        }
        1 => {
            let mut a = Sub::new(0, z[0], 0.5, entries(z[0], 1, 1));
            let mut b = Sub::new(1, z[1], 0.5, entries(z[1], 2, 1));
            a.lang = fork(2) == 1;
            b.mask = [1, 2, 6][fork(3) as usize];
            a.mask = [1, 8][fork(2) as usize];
            complete(vec![a, b], o, &[0, 1])
        }
        2 => {
            let subs = (0..3).map(|i| Sub::new(i, z[i], [0.5, 0.25, 0.25][i], entries(z[i], 1, 7))).collect();
            complete(subs, o, &ORDERS[fork(3) as usize])
        }
        // a box at some zoom
        3 => {
            let bz = [16, 6, 0][fork(3) as usize];
            o.zoom = bz;
            let n = 1u64 << bz;
            let (x0, y0, x1, y1) = (below(16, n), below(16, n), below(16, n), below(16, n));
            assume((x0 <= x1) & (y0 <= y1));
            o.bbox = Some([x0 as u16, y0 as u16, x1 as u16, y1 as u16]);
            let a = Sub::new(0, z[0], 0.5, entries(z[0], 1, 1));
            let b = Sub::new(1, z[1], 0.5, entries(z[1], 1, 1));
            complete(vec![a, b], o, &[0, 1])
        }
        4 => {
            let subs = (0..3).map(|i| Sub::new(i, z[i], [0.5, 0.25, 0.25][i], entries(z[i], 1 + (i == 1) as usize, 7))).collect();
            complete(subs, o, &ORDERS[0])
        }
        5 => {
            let a = Sub::new(0, z[0], 0.5, entries(z[0], 2, 1));
            let b = Sub::new(1, z[1], 0.5, entries(z[1], 2, 1));
            complete(vec![a, b], o, &[[0, 1], [1, 0]][fork(2) as usize])
        }
        _ => {}
    }
}
entry!(run);
