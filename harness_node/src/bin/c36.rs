//! The JavaScript searches give what the Rust ones give for what the script describes.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness_node::*;
use neon::{Kind, V};

/// A phrase match as a script describes it.
struct Ask {
    path: String,
    zoom: u16,
    type_id: u16,
    radius: f64,
    bboxes: Vec<[u16; 4]>,
    max_score: f64,
    plain: bool,
    idx: u16,
    weight: f64,
    mask: u32,
    id: u32,
    key: MatchPhrase,
    langs: Option<Vec<u8>>,
    nearby: Option<bool>,
    skip: Vec<u32>,
    phrase: &'static str,
}
impl Ask {
    fn new(i: usize, path: String, zoom: u16) -> Ask {
        Ask {
            path, zoom, type_id: i as u16, radius: 200.0, bboxes: global_bbox_for_zoom(zoom), max_score: 15.0, plain: false,
            idx: i as u16 + 1, weight: 0.5, mask: 1 << i, id: i as u32 + 10, key: MatchPhrase::Exact(1), langs: None,
            nearby: None, skip: vec![], phrase: "ab",
        }
    }
    fn store(&self) -> GridStore {
        must(if self.plain {
            GridStore::new(&self.path)
        } else {
            GridStore::new_with_options(&self.path, self.zoom, self.type_id, self.radius, self.bboxes.clone(), self.max_score)
        })
    }
    fn subquery<'a>(&self, store: &'a GridStore) -> PhrasematchSubquery<&'a GridStore> {
        let lang_set = match &self.langs {
            None => u128::MAX,
            Some(v) => v.iter().fold(0, |a, l| a | 1u128 << l),
        };
        PhrasematchSubquery {
            store,
            idx: self.idx,
            non_overlapping_indexes: self.skip.iter().map(|i| *i as usize).collect(),
            weight: self.weight,
            mask: self.mask,
            match_keys: vec![MatchKeyWithId {
                key: MatchKey { match_phrase: self.key.clone(), lang_set },
                nearby_only: self.nearby.unwrap_or(false),
                id: self.id,
                phrase_length: self.phrase.len(),
            }],
        }
    }
    fn js_store(&self, m: &[(String, V)]) -> V {
        let mut a = vec![text(&self.path)];
        if !self.plain {
            a.push(object(&[
                ("zoom", num(self.zoom)),
                ("type_id", num(self.type_id)),
                ("coalesce_radius", num(self.radius)),
                ("bboxes", array(self.bboxes.iter().map(|b| array(b.iter().map(|x| num(*x)).collect())).collect())),
                ("max_score", num(self.max_score)),
            ]));
        }
        does(m, "GridStore", a)
    }
    fn js(&self, m: &[(String, V)]) -> V {
        let phrase = match &self.key {
            MatchPhrase::Exact(p) => object(&[("Exact", num(*p))]),
            MatchPhrase::Range { start, end } => object(&[("Range", object(&[("start", num(*start)), ("end", num(*end))]))]),
        };
        let langs = match &self.langs {
            None => null(),
            Some(v) => array(v.iter().map(|l| num(*l)).collect()),
        };
        let mut f = vec![
            ("store", self.js_store(m)),
            ("weight", num(self.weight)),
            ("match_key", object(&[("match_phrase", phrase), ("lang_set", langs)])),
            ("idx", num(self.idx)),
            ("non_overlapping_indexes", array(self.skip.iter().map(|i| num(*i)).collect())),
            ("mask", num(self.mask)),
            ("id", num(self.id)),
            ("phrase", text(self.phrase)),
        ];
        if let Some(b) = self.nearby {
            f.push(("nearby_only", boolean(b)));
        }
        object(&f)
    }
}

fn js_opts(o: &MatchOpts) -> V {
    let mut f = vec![("zoom", num(o.zoom))];
    if let Some(b) = o.bbox {
        f.push(("bbox", array(b.iter().map(|x| num(*x)).collect())));
    }
    if let Some(p) = o.proximity {
        f.push(("proximity", array(p.iter().map(|x| num(*x)).collect())));
    }
    object(&f)
}

fn same_result(v: V, c: &CoalesceContext) -> bool {
    let es = items(field(v, "entries"));
    check(es.len() == c.entries.len(), "a script sees as many entries of a result as there are");
    let mut ok = (as_num(field(v, "relev")) == c.relev) & (as_int(field(v, "mask")) == c.mask as u64);
    for (e, d) in es.iter().zip(c.entries.iter()) {
        ok &= same_entry(field(e, "grid_entry"), &d.grid_entry);
        ok &= as_bool(field(e, "matches_language")) == d.matches_language;
        ok &= (as_int(field(e, "idx")) == d.idx as u64) & (as_int(field(e, "tmp_id")) == d.tmp_id as u64);
        ok &= (as_int(field(e, "mask")) == d.mask as u64) & (as_int(field(e, "phrasematch_id")) == d.phrasematch_id as u64);
        ok &= (as_num(field(e, "distance")) == d.distance) & (as_num(field(e, "scoredist")) == d.scoredist);
    }
    ok
}

/// Both searches of what is described, both ways.
fn compare(asks: &[Ask], o: &MatchOpts) {
    compare_by(asks, o, fork(2) == 1)
}
fn compare_by(asks: &[Ask], o: &MatchOpts, tree: bool) {
    let m = module();
    let js: Vec<V> = asks.iter().map(|a| a.js(&m)).collect();
    let cb = callback();
    let r = does(&m, if tree { "stackAndCoalesce" } else { "coalesce" }, vec![array(js), js_opts(o), cb]);
    check(is_undefined(r), "a search returns nothing");
    let stores: Vec<GridStore> = asks.iter().map(|a| a.store()).collect();
    let sub: Vec<_> = asks.iter().zip(stores.iter()).map(|(a, s)| a.subquery(s)).collect();
    let want = must(if tree { stack_and_coalesce(&sub, o) } else { coalesce(sub, o) });
    let calls = match &*cb.kind.borrow() {
        Kind::Callback(c) => c.clone(),
        _ => vec![],
    };
    check(calls.len() == 1, "the callback is called once");
    let got = match &calls[0] {
        Ok(v) => items(v),
        Err(_) => {
            check(false, "the callback gets results");
            vec![]
        }
    };
    check(got.len() == want.len(), "a script gets as many results as there are");
    let mut ok = true;
    for (g, w) in got.iter().zip(want.iter()) {
        ok &= same_result(g, w);
        observe(w.relev.to_bits());
        observe(w.entries[0].tmp_id as u64);
        observe(w.entries[0].phrasematch_id as u64);
    }
    check(ok, "a script gets the results the Rust search gives");
    cover(["none", "one", "several"][got.len().min(2)]);
}

fn written(v: &[(u32, u128, Vec<GridEntry>)]) -> String {
    let (mut w, p) = builder();
    for (phrase_id, lang_set, e) in v {
        must(w.insert(&GridKey { phrase_id: *phrase_id, lang_set: *lang_set }, e.clone()));
    }
    must(w.finish());
    p
}
fn entry(relev: f64, score: u8, x: u16, y: u16, id: u32) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: 3 }
}
fn id() -> u32 {
    below(24, 1 << 24) as u32
}

/// Two phrase matches with any tiles and ids, however they are described.
fn two() {
    let z = [(6, 6), (4, 7), (3, 9)][fork(3) as usize];
    let t = |z: u16| (below(16, 1 << z) as u16, below(16, 1 << z) as u16);
    let (a, b, c) = (t(z.0), t(z.1), t(z.1));
    let p = written(&[(1, 1 << 5, vec![entry(1.0, 3, a.0, a.1, id())])]);
    let q = written(&[(1, u128::MAX, vec![entry(0.8, 7, b.0, b.1, 21), entry(1.0, 0, c.0, c.1, 22)])]);
    let (mut x, mut y) = (Ask::new(0, p, z.0), Ask::new(1, q, z.1));
    match fork(9) {
        0 => {}
        7 => y.idx = 300,
        8 => {
            x.skip = vec![0];
            y.idx = 0;
        }
        1 => x.langs = Some(vec![5, 9]),
        2 => x.langs = Some(vec![]),
        3 => y.mask = 5,
        4 => x.skip = vec![0, 2],
        5 => {
            x.weight = 0.25;
            y.weight = 1.0;
            y.idx = 127;
        }
        _ => x.type_id = 1,
    }
    compare(&[x, y], &MatchOpts { zoom: 9, ..MatchOpts::default() });
}

/// One phrase match by exact phrase or range, with any box.
fn boxed() {
    let p = written(&[
        (1, u128::MAX, vec![entry(1.0, 3, 20, 30, id()), entry(0.6, 9, 21, 30, 8)]),
        (2, 1, vec![entry(0.8, 1, 20, 31, 9)]),
    ]);
    let mut x = Ask::new(0, p, 6);
    x.key = match fork(3) {
        0 => MatchPhrase::Exact(2),
        1 => MatchPhrase::Range { start: 0, end: 2 },
        _ => MatchPhrase::Range { start: below(32, 4) as u32, end: 3 },
    };
    x.langs = [None, Some(vec![1])][fork(2) as usize].clone();
    let b = [below(16, 64) as u16, below(16, 64) as u16, 20 + below(2, 4) as u16, 30 + below(2, 4) as u16];
    assume((b[0] <= b[2]) & (b[1] <= b[3]));
    compare(&[x], &MatchOpts { zoom: 6, bbox: Some(b), ..MatchOpts::default() });
}

/// Points, options of the store, and nearby-only requests.
fn near() {
    let e = vec![entry(1.0, 3, 20, 30, id()), entry(1.0, 9, 45, 31, 8), entry(1.0, 1, 2, 60, 9)];
    let p = written(&[(1, u128::MAX, e)]);
    let mut x = Ask::new(0, p, 6);
    x.nearby = [None, Some(false), Some(true)][fork(3) as usize];
    match fork(5) {
        0 => x.plain = true,
        1 => x.radius = [0.5, 41.5][fork(2) as usize],
        2 => x.bboxes = vec![[0, 0, 25, 40], [40, 30, 50, 63]],
        3 => x.max_score = 3.0,
        _ => x.type_id = 9,
    }
    let z = [6, 8, 14][fork(3) as usize];
    let at = [[20u16, 30], [46, 31], [63, 0]][fork(3) as usize];
    let s = z - 6;
    let o = MatchOpts { zoom: z, proximity: Some([at[0] << s, at[1] << s]), bbox: None };
    // a plain search of one subquery is asked at its own zoom
    let tree = z != 6 || fork(2) == 1;
    compare_by(&[x], &o, tree);
}

/// Requests for one-letter phrases past what one search looks up: a phrase's length is that of its UTF-8 form.
fn letters() {
    let phrase = ["a", "ab", "\u{e9}", ""][fork(4) as usize];
    let x = sym(6) as u16;
    let mut v = Vec::new();
    let n = 12;
    for i in 0..n {
        let p = written(&[(1, u128::MAX, vec![entry(1.0, 3, if i == n - 1 { x } else { 30 }, 30, 100 + i as u32)])]);
        let mut a = Ask::new(i, p, 6);
        a.type_id = 0;
        a.mask = 1;
        a.key = MatchPhrase::Range { start: 0, end: 9 };
        a.phrase = phrase;
        // which are looked up first
        a.max_score = ((i * 5) % 12) as f64 / 2.0;
        v.push(a);
    }
    compare(&v, &MatchOpts { zoom: 6, ..MatchOpts::default() });
}

/// Two phrase matches of any two indexes, each kept apart from any index.
fn kept_apart() {
    const IDX: [u16; 7] = [0, 1, 44, 255, 256, 300, 65535];
    const SKIP: [u32; 8] = [0, 1, 44, 255, 256, 300, 65535, 65836];
    let t = below(8, 64) as u16;
    let p = written(&[(1, u128::MAX, vec![entry(1.0, 3, 20, 30, 7)])]);
    let q = written(&[(1, u128::MAX, vec![entry(1.0, 7, 160, t + 200, 21)])]);
    let (mut x, mut y) = (Ask::new(0, p, 6), Ask::new(1, q, 9));
    x.idx = IDX[fork(7) as usize];
    y.idx = IDX[fork(7) as usize];
    let k = SKIP[fork(8) as usize];
    if fork(2) == 0 {
        x.skip = vec![k];
    } else {
        y.skip = vec![k, 9];
    }
    compare_by(&[x, y], &MatchOpts { zoom: 9, ..MatchOpts::default() }, true);
}

fn run_case() {
    match case() {
        0 => two(),
        1 => boxed(),
        2 => near(),
        3 => letters(),
        4 => kept_apart(),
        _ => {}
    }
}
harness::entry!(run_case);
