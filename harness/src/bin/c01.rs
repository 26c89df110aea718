//! Record format round-trip: whatever phrase record is written reads back as the same record.
#![cfg_attr(carmen_sym, no_main)]
use carmen_core::gridstore::verif_hooks::format::*;
use harness::*;

/// n filler bytes
struct Pad(usize);
impl FixedEncodable for Pad {
    const SIZE: usize = 0;
    fn write_fixed_to(&self, buffer: &mut Vec<u8>) {
        buffer.resize(buffer.len() + self.0, 0xa5);
    }
    fn read_fixed_from(_: &[u8], _: FixedScalarOffset<Self>) -> Self {
        Pad(0)
    }
}

/// Shape: number of ids per coord per relev-score group.
fn roundtrip(shape: &[&[usize]], pads: [usize; 3], tail: usize) {
    let mut w = Writer::new();
    w.write_fixed_scalar(Pad(pads[0]));
    let mut model: Vec<(u8, Vec<(u32, Vec<u32>)>)> = Vec::new();
    let mut rses = Vec::new();
    for group in shape {
        let rs = u8s();
        let mut mc = Vec::new();
        let mut coords = Vec::new();
        for nids in group.iter() {
            let c = u32s();
            let ids: Vec<u32> = (0..*nids).map(|_| u32s()).collect();
            let w_ids = w.write_fixed_vec(&ids);
            coords.push(Coord { coord: c, ids: w_ids });
            mc.push((c, ids));
        }
        w.write_fixed_scalar(Pad(pads[1]));
        let w_coords = w.write_uniform_vec(&coords);
        rses.push(RelevScore { relev_score: rs, coords: w_coords });
        model.push((rs, mc));
    }
    w.write_fixed_scalar(Pad(pads[2]));
    let w_rses = w.write_var_vec(&rses);
    // anything may sit between the list and the root
    for _ in 0..tail {
        w.write_fixed_scalar(u32s());
    }
    w.write_fixed_scalar(PhraseRecord { relev_scores: w_rses });
    let data = w.finish();

    let r = Reader::new(&data[..]);
    let rec = read_phrase_record_from(&r);
    let list = r.read_var_vec(rec.relev_scores);
    check(list.len() == model.len(), "number of relevance-score groups");
    let mut gi = 0;
    for (rs, m) in list.iter().zip(model.iter()) {
        check_eq(rs.relev_score as u64, m.0 as u64, "relevance-score byte reads back");
        observe(rs.relev_score as u64);
        let coords = r.read_uniform_vec(rs.coords);
        check(coords.len() == m.1.len(), "number of coordinates");
        let mut n = 0;
        for (i, (c, mc)) in coords.iter().zip(m.1.iter()).enumerate() {
            check_eq(c.coord as u64, mc.0 as u64, "coordinate reads back");
            check_eq(coords.get(i).coord as u64, mc.0 as u64, "coordinate reads back by position");
            let ids = r.read_fixed_vec(c.ids);
            let by_pos = r.read_fixed_vec(coords.get(i).ids);
            check((ids.len() == mc.1.len()) & (by_pos.len() == mc.1.len()), "number of ids");
            let got: Vec<u32> = ids.iter().collect();
            let raw: Vec<u32> = read_fixed_vec_raw(&data, c.ids).into_iter().collect();
            check(got.len() == mc.1.len() && raw.len() == mc.1.len(), "ids iterate to their count");
            for (k, want) in mc.1.iter().enumerate() {
                check_eq(got[k] as u64, *want as u64, "id reads back");
                check_eq(raw[k] as u64, *want as u64, "id reads back (owned)");
                check_eq(ids.get(k) as u64, *want as u64, "id reads back by position");
                observe(got[k] as u64);
            }
            n += 1;
        }
        check(n == m.1.len(), "coordinates iterate to their count");
        gi += 1;
    }
    check(gi == model.len(), "groups iterate to their count");
    // the owned iterators used by the store
    let mut gi = 0;
    let rec = read_phrase_record_from(&r);
    for (rs, m) in read_var_vec_raw(&data, rec.relev_scores).into_iter().zip(model.iter()) {
        check_eq(rs.relev_score as u64, m.0 as u64, "relevance-score byte reads back (owned)");
        let mut n = 0;
        for (c, mc) in read_uniform_vec_raw(&data, rs.coords).into_iter().zip(m.1.iter()) {
            check_eq(c.coord as u64, mc.0 as u64, "coordinate reads back (owned)");
            n += 1;
        }
        check(n == m.1.len(), "owned coordinates iterate to their count");
        gi += 1;
    }
    check(gi == model.len(), "owned groups iterate to their count");
    cover("end");
}

fn run() {
    match case() {
        // every small shape
        0 => {
            let shapes: [&[&[usize]]; 8] = [
                &[&[1]],
                &[&[0]],
                &[&[3]],
                &[&[1, 2]],
                &[&[1], &[2]],
                &[&[2, 0, 1], &[1]],
                &[&[1, 1, 1], &[2, 2], &[1]],
                &[],
            ];
            let s = fork(8) as usize;
            roundtrip(shapes[s], [0, 0, 0], 0);
        }
        // the same, with the pieces at addresses around every width boundary
        1 => {
            let sizes = [0usize, 1, 119, 120, 123, 127, 128, 246, 247, 250, 251, 255, 256, 300];
            let a = sizes[fork(sizes.len() as u32) as usize];
            let b = sizes[fork(sizes.len() as u32) as usize];
            roundtrip(&[&[1, 2], &[1]], [a, b, 0], 1);
        }
        2 => {
            let base = 16384 - 24;
            let a = fork(32) as usize + base;
            roundtrip(&[&[1, 1], &[1]], [a, 0, 0], fork(2) as usize);
        }
        3 => {
            let base = 65536 - 24;
            let a = fork(32) as usize + base;
            let b = [0usize, 65536][fork(2) as usize];
            roundtrip(&[&[1, 1], &[1]], [a, b, 0], 0);
        }
        // the list of groups and the coordinates beyond a varint boundary of their own
        4 => {
            let a = [0usize, 127, 16383, 65535, (1 << 21) - 8, (1 << 21) + 1][fork(6) as usize];
            let c = [0usize, 128, 65536, (1 << 21) - 16][fork(4) as usize];
            roundtrip(&[&[1], &[2]], [0, a, c], 0);
        }
        // list lengths around the varint boundaries
        5 => {
            let all = [1usize, 2, 126, 127, 128, 129, 255, 256, 257, 300];
            let pick = |k: u32| all[k as usize];
            lengths(pick(fork(10)), pick(fork(10)), pick(fork(10)));
        }
        6 => {
            let n = [16383usize, 16384, 16385, 32767, 32768, 32769][fork(6) as usize];
            match fork(3) {
                0 => lengths(n, 2, 3),
                1 => lengths(3, n, 2),
                _ => lengths(2, 3, n),
            }
        }
        7 => {
            let n = [65535usize, 65536, 65537, 70001][fork(4) as usize];
            match fork(3) {
                0 => lengths(n, 2, 3),
                1 => lengths(3, n, 2),
                _ => lengths(2, 3, n),
            }
        }
        8 => scalars(),
        // a group list and a tile list both beyond 2^24
        9 => {
            let a = (1usize << 24) - 6 + fork(12) as usize;
            match fork(3) {
                0 => roundtrip(&[&[1], &[2]], [a, 0, 0], 0),
                1 => roundtrip(&[&[1], &[2]], [0, a, 0], 0),
                _ => roundtrip(&[&[1], &[2]], [0, 0, a], 1),
            }
        }
        _ => {}
    }
}

/// Lists of `n` groups, tiles and ids, a few of each arbitrary: every member, by position and by each way of iterating.
fn lengths(n_groups: usize, n_coords: usize, n_ids: usize) {
    let mut w = Writer::new();
    let marks = |n: usize| [0, n / 2, n - 1];
    let vals: Vec<u32> = (0..3).map(|_| u32s()).collect();
    let mut ids: Vec<u32> = (0..n_ids as u32).map(|i| i.wrapping_mul(2654435761)).collect();
    for (m, v) in marks(n_ids).iter().zip(vals.iter()) {
        ids[*m] = *v;
    }
    let w_one = w.write_fixed_vec(&[7u32]);
    let w_ids = w.write_fixed_vec(&ids);
    let mut tiles: Vec<u32> = (0..n_coords as u32).map(|i| i * 3).collect();
    for (m, v) in marks(n_coords).iter().zip(vals.iter()) {
        tiles[*m] = *v ^ 0x55;
    }
    let last_tile = n_coords - 1;
    let coords: Vec<Coord> = tiles
        .iter()
        .enumerate()
        .map(|(i, t)| Coord { coord: *t, ids: if i == last_tile { w_ids } else { w_one } })
        .collect();
    let w_few = w.write_uniform_vec(&coords[..1]);
    let w_coords = w.write_uniform_vec(&coords);
    let mut scores: Vec<u8> = (0..n_groups).map(|i| (i * 7) as u8).collect();
    for (m, v) in marks(n_groups).iter().zip(vals.iter()) {
        scores[*m] = (*v >> 8) as u8;
    }
    let last_group = n_groups - 1;
    let rses: Vec<RelevScore> = scores
        .iter()
        .enumerate()
        .map(|(i, s)| RelevScore { relev_score: *s, coords: if i == last_group { w_coords } else { w_few } })
        .collect();
    let w_rses = w.write_var_vec(&rses);
    w.write_fixed_scalar(PhraseRecord { relev_scores: w_rses });
    let data = w.finish();

    let r = Reader::new(&data[..]);
    let rec = read_phrase_record_from(&r);
    let groups = r.read_var_vec(rec.relev_scores);
    check(groups.len() == n_groups, "number of groups survives");
    let mut n = 0;
    let mut last = None;
    for g in groups.iter() {
        check(n < n_groups, "groups end");
        check_eq(g.relev_score as u64, scores[n] as u64, "score byte of a long list");
        check(r.read_uniform_vec(g.coords).len() == if n == last_group { n_coords } else { 1 }, "tiles of a group");
        n += 1;
        last = Some(g.coords);
    }
    check(n == n_groups, "groups iterate to their count");
    n = 0;
    let rec = read_phrase_record_from(&r);
    for g in read_var_vec_raw(&data, rec.relev_scores).into_iter() {
        check(n < n_groups, "groups end (owned)");
        check_eq(g.relev_score as u64, scores[n] as u64, "score byte of a long list (owned)");
        n += 1;
    }
    check(n == n_groups, "groups iterate to their count (owned)");

    let tile_list = r.read_uniform_vec(last.unwrap());
    check(tile_list.len() == n_coords, "number of tiles survives");
    n = 0;
    for (c, raw) in tile_list.iter().zip(read_uniform_vec_raw(&data, last.unwrap()).into_iter()) {
        check(n < n_coords, "tiles end");
        let pos = tile_list.get(n);
        check_eq(c.coord as u64, tiles[n] as u64, "tile of a long list");
        check_eq(raw.coord as u64, tiles[n] as u64, "tile of a long list (owned)");
        check_eq(pos.coord as u64, tiles[n] as u64, "tile of a long list by position");
        check(r.read_fixed_vec(pos.ids).len() == if n == last_tile { n_ids } else { 1 }, "ids of a tile");
        n += 1;
    }
    check(n == n_coords, "tiles iterate to their count");
    check(tile_list.iter().count() == n_coords, "tiles iterate to their count");
    check(read_uniform_vec_raw(&data, last.unwrap()).into_iter().count() == n_coords, "tiles iterate to their count (owned)");

    let far = tile_list.get(last_tile).ids;
    let id_list = r.read_fixed_vec(far);
    check(id_list.len() == n_ids, "number of ids survives");
    n = 0;
    for (i, raw) in id_list.iter().zip(read_fixed_vec_raw(&data, far).into_iter()) {
        check(n < n_ids, "ids end");
        check_eq(i as u64, ids[n] as u64, "id of a long list");
        check_eq(raw as u64, ids[n] as u64, "id of a long list (owned)");
        check_eq(id_list.get(n) as u64, ids[n] as u64, "id of a long list by position");
        n += 1;
    }
    check(n == n_ids, "ids iterate to their count");
    check(id_list.iter().count() == n_ids, "ids iterate to their count");
    check(read_fixed_vec_raw(&data, far).into_iter().count() == n_ids, "ids iterate to their count (owned)");
    observe(ids[n_ids - 1] as u64);
    cover("lengths");
}

/// Single values of each kind, at any of the places around the boundaries, among other data.
fn scalars() {
    let sizes = [0usize, 1, 127, 128, 251, 252, 255, 256, 16383, 16384, 65531, 65532, 65535, 65536];
    let pad = sizes[fork(sizes.len() as u32) as usize];
    let mut w = Writer::new();
    let a = [u32s(), u32s()];
    let lead = w.write_fixed_scalar(u32s());
    w.write_fixed_scalar(Pad(pad));
    let w_ids = w.write_fixed_vec(&a);
    let t = u32s();
    let tile = Coord { coord: t, ids: w_ids };
    let w_tiles = w.write_uniform_vec(&[tile]);
    let size = tile.get_min_size();
    check((size >= 5) & (size <= Coord::MAX_SIZE), "a tile's width");
    let at_tile = w.write_uniform_scalar_with_size(tile, size);
    let at_wide = w.write_uniform_scalar_with_size(tile, Coord::MAX_SIZE);
    let rs = u8s();
    let at_group = w.write_var_scalar(RelevScore { relev_score: rs, coords: w_tiles });
    let v = u32s();
    let at_v = w.write_fixed_scalar(v);
    let data = w.finish();
    let r = Reader::new(&data[..]);
    check_eq(r.read_fixed_scalar(at_v) as u64, v as u64, "a number reads back");
    check_eq(r.read_root::<u32>() as u64, v as u64, "the root is the last value written");
    check_eq(u32::read_fixed_from(&data, lead) as u64, u32::read_fixed_from(&data[..4], lead) as u64, "the first value stays first");
    let (g, used) = r.read_var_scalar(at_group);
    check_eq(g.relev_score as u64, rs as u64, "score byte reads back");
    let mut out = Vec::new();
    check((g.write_to(&mut out) == used) & (out.len() == used), "a group takes the bytes written for it");
    let list = r.read_uniform_vec(g.coords);
    check(list.len() == 1, "tiles behind a group");
    for c in [list.get(0), r.read_uniform_scalar(size, at_tile), r.read_uniform_scalar(Coord::MAX_SIZE, at_wide)] {
        check_eq(c.coord as u64, t as u64, "tile reads back");
        let ids = r.read_fixed_vec(c.ids);
        check(ids.len() == 2, "ids behind a tile");
        check_eq(ids.get(0) as u64, a[0] as u64, "id behind a tile");
        check_eq(ids.get(1) as u64, a[1] as u64, "id behind a tile");
    }
    observe(t as u64);
    cover("scalars");
}

entry!(run);
