//! The four relevance levels survive storage.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::gen::*;
use harness::*;

fn main_() {
    match case() {
        0 => {
            // any number at all
            let bits = sym(64);
            let x = f64::from_bits(bits);
            let c = relev_float_to_int(x);
            let y = relev_int_to_float(c);
            let level = (x == 0.4) | (x == 0.6) | (x == 0.8) | (x == 1.0);
            check(c < 4, "a code takes two bits");
            check((y == 0.4) | (y == 0.6) | (y == 0.8) | (y == 1.0), "a code stands for a level");
            check(!level | (y == x), "a level survives");
            check(level | (y == 1.0), "anything else counts as 1");
            cover("any");
            observe(c as u64);
        }
        1 => {
            let (a, c) = (u8s(), u8s());
            let (x, y) = (relev_int_to_float(a), relev_int_to_float(c));
            let level = (x == 0.4) | (x == 0.6) | (x == 0.8) | (x == 1.0);
            check(level, "every code stands for a level");
            check((a > c) | (x <= y), "codes order as levels do");
            check((a > 3) | (relev_float_to_int(x) == a), "a code survives");
            cover("codes");
            observe((x * 10.0) as u64);
        }
        2 => {
            // through a store, with any score beside it
            let (w, p) = builder();
            let mut w = w;
            let k = GridKey { phrase_id: 1, lang_set: u128::MAX };
            let x = match fork(5) {
                4 => f64::from_bits(sym(64)),
                i => RELEVS[i as usize],
            };
            let score = u8s();
            must(w.insert(&k, vec![GridEntry { relev: x, score, x: 1, y: 1, id: 1, source_phrase_hash: 0 }]));
            let s = finish(w, &p);
            let got: Vec<GridEntry> = must(s.get(&k)).unwrap().collect();
            check(got.len() == 1, "one entry");
            let y = got[0].relev;
            let level = (x == 0.4) | (x == 0.6) | (x == 0.8) | (x == 1.0);
            check(if level { y == x } else { y == 1.0 }, "a stored level is read unchanged, anything else as 1");
            check(got[0].score == score & 15, "the score beside it is not touched");
            cover("stored");
            observe(got[0].score as u64);
        }
        _ => {}
    }
}
entry!(main_);
