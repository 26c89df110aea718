//! The bounded queue keeps the largest of what was pushed.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::*;
use harness::*;

fn queue(steps: usize, max: u32) {
    let size = fork(max + 1) as usize;
    queue_by(steps, size, 0)
}

/// With `any` arbitrary values and the others fixed in one of four orders, or with all of them arbitrary.
fn queue_by(steps: usize, size: usize, any: usize) {
    let order = if any == 0 { 0 } else { fork(4) };
    let pops = if any == 0 { 0 } else { fork(3) };
    let mut q = ConstrainedPriorityQueue::new(size);
    // ascending
    let mut m: Vec<u32> = Vec::new();
    for i in 0..steps {
        let pop = if any == 0 { i > 0 && fork(3) == 0 } else { (pops == 1 && i % 5 == 4) || (pops == 2 && i > 8 && i % 2 == 1) };
        if pop {
            let want = m.pop();
            let got = q.pop_max();
            check(got.is_some() == want.is_some(), "there is something to take exactly when something is held");
            check(got.unwrap_or(0) == want.unwrap_or(0), "the largest element is taken");
            cover("pop");
        } else {
            let v = if any == 0 || (i % 5 == 2 && i / 5 < any) {
                u32s()
            } else {
                [10 * i as u32 + 5, 1000 - 10 * i as u32, (i as u32 * 37) % 64 * 8, [7, u32::MAX, 0][i % 3]][order as usize]
            };
            let full = m.len() >= size;
            let keep = if !full {
                true
            } else if m.is_empty() {
                false
            } else {
                v > m[0]
            };
            let told = q.push(v);
            check(told == keep, "push tells whether the element is kept");
            if keep {
                if full {
                    m.remove(0);
                    cover("replaced");
                }
                let at = m.iter().filter(|x| **x <= v).count();
                m.insert(at, v);
            }
        }
        check(q.len() == m.len(), "the number of elements held");
        check(q.len() <= size, "never more than the size allows");
        check(q.peek_min().cloned() == m.first().cloned(), "the smallest element held");
        check(q.peek_max().cloned() == m.last().cloned(), "the largest element held");
    }
    m.reverse();
    if fork(2) == 0 {
        let d = q.into_vec_desc();
        check(d.len() == m.len(), "draining gives every element");
        let mut ok = true;
        for (a, b) in d.iter().zip(m.iter()) {
            ok &= a == b;
            observe(*a as u64);
        }
        check(ok, "draining gives the largest first");
        cover("drained");
    } else {
        let d: Vec<u32> = q.into_iter().collect();
        check(d.len() == m.len(), "iterating gives every element");
        let mut ok = true;
        for a in m.iter() {
            ok &= harness::gen::count(d.iter().map(|x| x == a)) == harness::gen::count(m.iter().map(|x| x == a));
        }
        check(ok, "iterating gives the same elements");
        cover("iterated");
    }
}

fn main_() {
    match case() {
        0 => queue(4, 3),
        1 => queue(5, 4),
        2 => queue_by(14, fork(8) as usize + 1, 1),
        3 => queue_by(12, fork(8) as usize + 1, 2),
        _ => {}
    }
}
entry!(main_);
