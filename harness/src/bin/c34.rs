//! Opening a store restores its options and bin boundaries.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn write(bounds: Option<Vec<u32>>) -> String {
    let (mut w, p) = builder();
    must(w.insert(&GridKey { phrase_id: 5, lang_set: 1 }, vec![GridEntry { relev: 1.0, score: 1, x: 1, y: 1, id: 1, source_phrase_hash: 0 }]));
    if let Some(b) = bounds {
        must(w.load_bin_boundaries(b));
    }
    must(w.finish());
    p
}

fn boundaries() {
    let n = fork(5) as usize;
    let b: Vec<u32> = (0..n).map(|_| u32s()).collect();
    for i in 1..n {
        assume(b[i - 1] < b[i]);
    }
    let p = write(if n == 4 { None } else { Some(b.clone()) });
    let b = if n == 4 { Vec::new() } else { b };
    let s = must(GridStore::new(&p));
    let q = u32s();
    let mut has = false;
    for x in b.iter() {
        has |= *x == q;
    }
    check(s.bin_boundaries.len() == b.len(), "as many boundaries as were set");
    check(s.bin_boundaries.contains(&q) == has, "exactly the boundaries set are restored");
    cover(if n == 4 { "unset" } else if n == 0 { "empty" } else { "some" });
    observe(b.len() as u64);
    // the boundaries are not phrases
    let k: Vec<GridKey> = s.keys().map(|k| must(k)).collect();
    check((k.len() == 1) && (k[0].phrase_id == 5) && (k[0].lang_set == 1), "boundaries do not show as phrases");
}

/// Many boundaries, one arbitrary.
fn many() {
    let n = [127, 128, 129, 300][fork(4) as usize];
    let mut b: Vec<u32> = (0..n).map(|i| i * 0x0010_1041).collect();
    let at = [0, n / 2, n - 1][fork(3) as usize] as usize;
    b[at] = u32s();
    for i in [at, at + 1] {
        if i > 0 && i < b.len() {
            assume(b[i - 1] < b[i]);
        }
    }
    let s = must(GridStore::new(&write(Some(b.clone()))));
    check(s.bin_boundaries.len() == b.len(), "as many boundaries as were set");
    let mut ok = true;
    for x in b.iter() {
        ok &= s.bin_boundaries.contains(x);
    }
    check(ok, "exactly the boundaries set are restored");
    check(s.keys().count() == 1, "boundaries do not show as phrases");
    cover("many");
    observe(n as u64);
}

fn options() {
    let p = write(None);
    let s = must(GridStore::new(&p));
    check((s.zoom == 6) & (s.type_id == 0) & (s.coalesce_radius == 0.0) & (s.max_score == 0.0), "the defaults");
    check((s.bboxes.len() == 1) && (s.bboxes[0] == [0, 0, 63, 63]), "the default box");
    let (zoom, type_id) = (u16s(), u16s());
    let (r, m) = (sym(64), sym(64));
    let b: Vec<[u16; 4]> = (0..fork(3)).map(|_| [u16s(), u16s(), u16s(), u16s()]).collect();
    let s = must(GridStore::new_with_options(&p, zoom, type_id, f64::from_bits(r), b.clone(), f64::from_bits(m)));
    check((s.zoom == zoom) & (s.type_id == type_id), "zoom and type are those given");
    check((s.coalesce_radius.to_bits() == r) & (s.max_score.to_bits() == m), "radius and score are those given");
    check(s.bboxes == b, "the boxes are those given");
    check(s.might_be_slow() == (zoom >= 14), "stores of high zooms may be slow");
    check(s.path.to_str() == Some(&p[..]), "the path is the one given");
    // the options do not change what is read
    let got: Vec<GridEntry> = must(s.get(&GridKey { phrase_id: 5, lang_set: 1 })).unwrap().collect();
    check((got.len() == 1) && (got[0].id == 1), "the data is there");
    cover("options");
    observe(zoom as u64);
}

fn run() {
    match case() {
        0 => boundaries(),
        1 => options(),
        2 => many(),
        _ => {}
    }
}
entry!(run);
