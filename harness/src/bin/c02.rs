//! Packed coordinate lists: any pointer magnitude, and reading by position equals iterating.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::verif_hooks::format::*;
use harness::*;

struct Pad(usize);
impl FixedEncodable for Pad {
    const SIZE: usize = 0;
    fn write_fixed_to(&self, buffer: &mut Vec<u8>) {
        buffer.resize(buffer.len() + self.0, 0x5a);
    }
    fn read_fixed_from(_: &[u8], _: FixedScalarOffset<Self>) -> Self {
        Pad(0)
    }
}

fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| u8s()).collect()
}
fn le(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate() {
        v |= (*x as u64) << (8 * i);
    }
    v
}
fn full(c: &Coord) -> u64 {
    let mut o = Vec::new();
    c.write_with_size_to(8, &mut o);
    check(o.len() == 8, "a coordinate of width 8 takes 8 bytes");
    le(&o)
}
fn dummy() -> Coord {
    let mut w = Writer::new();
    let ids = w.write_fixed_vec::<u32>(&[]);
    Coord { coord: 0, ids }
}

/// Every stored coordinate, of every width, survives being packed at its own minimal width.
fn any_coord() {
    let size = 5 + fork(4) as usize;
    let b = bytes(size);
    let at0 = || Writer::new().write_uniform_scalar_with_size(dummy(), 8);
    let c = Coord::read_with_size_from(&b, size, at0());
    let v = full(&c);
    check_eq(v, le(&b), "reading zero-extends the pointer and keeps the coordinate");
    let m = c.get_min_size();
    check(m >= 5 && m <= 8, "a minimal width is between 5 and 8");
    let mut packed = Vec::new();
    c.write_with_size_to(m, &mut packed);
    check(packed.len() == m, "a packed coordinate takes its width");
    let back = Coord::read_with_size_from(&packed, m, at0());
    check_eq(full(&back), v, "a coordinate packed at its minimal width reads back");
    check((m == 5) | (v >> 32 > (1u64 << (8 * (m - 5))) - 1), "the minimal width is minimal");
    observe(v);
    cover(match m {
        5 => "width5",
        6 => "width6",
        7 => "width7",
        _ => "width8",
    });
}

/// The two kinds of pointers to lists, any magnitude.
fn any_pointer() {
    // a varint of any 32-bit value
    let n = 1 + fork(5) as usize;
    let mut b = bytes(1 + n);
    for i in 1..n {
        b[i] |= 0x80;
    }
    b[n] &= if n == 5 { 0x0f } else { 0x7f };
    b.extend_from_slice(&[0xff; 6]);
    let mut want = 0u64;
    for i in 1..=n {
        want |= ((b[i] & 0x7f) as u64) << (7 * (i - 1));
    }
    let mut w = Writer::new();
    let coords = w.write_uniform_vec::<Coord>(&[]);
    let mut w = Writer::new();
    let at0 = w.write_var_scalar(RelevScore { relev_score: 0, coords });
    let (rs, used) = RelevScore::read_from(&b, at0);
    check(used == 1 + n, "the reader consumes the pointer it read");
    check_eq(rs.relev_score as u64, b[0] as u64, "score byte");
    // what is written for it denotes the same pointer
    let mut out = Vec::new();
    let wrote = rs.write_to(&mut out);
    check(wrote == out.len(), "the writer reports the bytes it wrote");
    let mut v = 0u64;
    for (i, x) in out[1..].iter().enumerate() {
        v |= ((*x & 0x7f) as u64) << (7 * i);
        check((x & 0x80 != 0) == (i + 1 < out.len() - 1), "continuation bits");
    }
    check_eq(v, want, "pointer value survives");
    let (again, used2) = {
        let mut w = Writer::new();
        let c0 = w.write_uniform_vec::<Coord>(&[]);
        let at0 = Writer::new().write_var_scalar(RelevScore { relev_score: 0, coords: c0 });
        RelevScore::read_from(&out, at0)
    };
    check(used2 == out.len(), "the reader consumes what was written");
    let mut out2 = Vec::new();
    again.write_to(&mut out2);
    check(out2.len() == out.len(), "stable length");
    for (p, q) in out.iter().zip(out2.iter()) {
        check_eq(*p as u64, *q as u64, "stable bytes");
    }
    observe(v);
    cover("pointer");
}

/// The root's pointer, any magnitude, at any root position.
fn any_root() {
    let lead = fork(5) as usize;
    let b = bytes(lead + 4);
    let r = Reader::new(&b[..]);
    let rec = read_phrase_record_from(&r);
    let mut out = Vec::new();
    rec.write_fixed_to(&mut out);
    check(out.len() == 4, "a root takes four bytes");
    check_eq(le(&out), le(&b[lead..]), "root pointer survives");
    observe(le(&out));
    cover("root");
}

/// Lists whose members point near and far.
fn mixed(first: usize, second: usize) {
    let mut w = Writer::new();
    w.write_fixed_scalar(Pad(first));
    let a = [u32s(), u32s()];
    let ids_a = w.write_fixed_vec(&a);
    let used = 1 + 8;
    let pad = second.saturating_sub(first + used);
    w.write_fixed_scalar(Pad(pad));
    let b = [u32s()];
    let ids_b = w.write_fixed_vec(&b);
    let cs = [u32s(), u32s(), u32s()];
    let order = fork(3);
    let far = |i: u32| match order {
        0 => i == 2,
        1 => i == 0,
        _ => i != 1,
    };
    let list: Vec<Coord> = (0..3u32)
        .map(|i| Coord { coord: cs[i as usize], ids: if far(i) { ids_b } else { ids_a } })
        .collect();
    let at = w.write_uniform_vec(&list);
    let at2 = w.write_uniform_vec(&list[1..2]);
    w.write_fixed_scalar(Pad(3));
    let data = w.finish();
    let r = Reader::new(&data[..]);
    let v = r.read_uniform_vec(at);
    check(v.len() == 3, "length");
    let n = v.iter().enumerate().fold(0, |n, (i, c)| {
        one(&data, &c, cs[i], far(i as u32), &a, &b);
        one(&data, &v.get(i), cs[i], far(i as u32), &a, &b);
        n + 1
    });
    check(n == 3, "iterates to its length");
    let v2 = read_uniform_vec_raw(&data, at2);
    check(v2.len() == 1, "length of the short list");
    one(&data, &v2.get(0), cs[1], far(1), &a, &b);
    cover("mixed");
}
/// A list of n tiles, one of which points far: by position, borrowed and owned iteration, and its length.
fn long(n: usize, gap: usize) {
    let mut w = Writer::new();
    let near = w.write_fixed_vec(&[1u32]);
    w.write_fixed_scalar(Pad(gap));
    let x = u32s();
    let far = w.write_fixed_vec(&[x, 2]);
    let at_far = [0, n / 2, n - 1][fork(3) as usize];
    let v = u32s();
    let tiles: Vec<u32> = (0..n as u32).map(|i| if i as usize == at_far { v } else { i * 5 + 1 }).collect();
    let list: Vec<Coord> = tiles
        .iter()
        .enumerate()
        .map(|(i, t)| Coord { coord: *t, ids: if i == at_far { far } else { near } })
        .collect();
    let at = w.write_uniform_vec(&list);
    let data = w.finish();
    let r = Reader::new(&data[..]);
    let got = r.read_uniform_vec(at);
    check(got.len() == n, "length of the list");
    let ok = |c: &Coord, i: usize| {
        check(i < n, "the list ends");
        check_eq(c.coord as u64, tiles[i] as u64, "tile of the list");
        let ids = r.read_fixed_vec(c.ids);
        check(ids.len() == if i == at_far { 2 } else { 1 }, "ids behind a tile");
        check_eq(ids.get(0) as u64, if i == at_far { x as u64 } else { 1 }, "id behind a tile");
    };
    let mut i = 0;
    for c in got.iter() {
        ok(&c, i);
        ok(&got.get(i), i);
        i += 1;
    }
    check(i == n, "iterates to its length");
    i = 0;
    for c in got.into_iter() {
        ok(&c, i);
        i += 1;
    }
    check(i == n, "iterates to its length (owned)");
    observe(v as u64);
    cover("long");
}

/// One tile alone, written at any width that holds it.
fn alone() {
    let mut w = Writer::new();
    w.write_fixed_scalar(Pad([0usize, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24][fork(7) as usize]));
    let x = u32s();
    let ids = w.write_fixed_vec(&[x]);
    let t = u32s();
    let tile = Coord { coord: t, ids };
    let min = tile.get_min_size();
    let size = min + fork((Coord::MAX_SIZE - min + 1) as u32) as usize;
    w.write_fixed_scalar(Pad(fork(3) as usize));
    let at = w.write_uniform_scalar_with_size(tile, size);
    let data = w.finish();
    let c = Reader::new(&data[..]).read_uniform_scalar(size, at);
    check_eq(c.coord as u64, t as u64, "tile read back alone");
    check(read_fixed_vec_raw(&data, c.ids).len() == 1, "its ids");
    check_eq(read_fixed_vec_raw(&data, c.ids).get(0) as u64, x as u64, "its id");
    observe(t as u64);
    cover("alone");
}
fn one(data: &[u8], c: &Coord, coord: u32, far: bool, a: &[u32], b: &[u32]) {
    check_eq(c.coord as u64, coord as u64, "coordinate");
    let ids = read_fixed_vec_raw(data, c.ids);
    let want = if far { b } else { a };
    check(ids.len() == want.len(), "number of ids behind the pointer");
    for (i, w) in want.iter().enumerate() {
        check_eq(ids.get(i) as u64, *w as u64, "id behind the pointer");
        observe(ids.get(i) as u64);
    }
    let mut n = 0;
    for (x, w) in ids.into_iter().zip(want) {
        check_eq(x as u64, *w as u64, "id behind the pointer, iterated");
        n += 1;
    }
    check(n == want.len(), "ids iterate to their count");
}

fn run() {
    match case() {
        0 => any_coord(),
        1 => any_pointer(),
        2 => any_root(),
        3 => {
            let k = fork(20) as usize;
            mixed([0, 246, 230, 250][fork(4) as usize], 240 + k)
        }
        4 => {
            let k = fork(20) as usize;
            mixed([0, 250, 300, 65520, 65536][fork(5) as usize], 65525 + k)
        }
        5 => {
            let k = fork(12) as usize;
            mixed([0, 65530, 70000][fork(3) as usize], (1 << 24) - 6 + k)
        }
        6 => {
            let n = [1usize, 2, 127, 128, 129, 255, 256, 257][fork(8) as usize];
            long(n, [0usize, 250, 251, 65529, 65530][fork(5) as usize])
        }
        7 => long([65535usize, 65536, 66000][fork(3) as usize], [0, 300, 70000][fork(3) as usize]),
        8 => alone(),
        _ => {}
    }
}
entry!(run);
