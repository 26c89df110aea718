#![allow(dead_code)]
//! symx: decide the assertions of a harness over the LLVM IR of the code under test.
mod exec;
mod expr;
mod ir;
mod solver;

use exec::{field, Exec};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn signal(s: i32, h: usize) -> usize;
    fn getpid() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

struct Shared {
    active: &'static AtomicI64,
    started: &'static AtomicI64,
    stop: &'static AtomicI64,
    max: i64,
    dir: String,
    deadline: Instant,
    first: bool,
}

fn shared_cell(i: usize, base: *mut u8) -> &'static AtomicI64 {
    unsafe { &*(base.add(i * 64) as *const AtomicI64) }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn flat(s: &str) -> String {
    s.replace(['\t', '\n', '\r'], " ")
}
fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn reset(ex: &mut Exec) {
    ex.st = Default::default();
    ex.viol.clear();
    ex.samples.clear();
    ex.covers.clear();
    ex.cov.clear();
    ex.sol.queries = 0;
    ex.sol.cache_hits = 0;
    ex.sol.time = 0.;
    ex.sol.max_time = 0.;
    ex.sol.unknowns = 0;
    ex.sol.fp_queries = 0;
    ex.sol.dump.clear();
}

fn write_result(ex: &Exec, sh: &Shared) {
    let mut o = String::new();
    let s = &ex.st;
    for (k, v) in [
        ("paths", s.paths),
        ("assumed_out", s.assumed_out),
        ("instrs", s.instrs),
        ("forks", s.forks),
        ("checks", s.checks),
        ("checks_sym", s.checks_sym),
        ("dropped", s.dropped),
        ("unknown", s.unknown),
        ("queries", ex.sol.queries),
        ("cache_hits", ex.sol.cache_hits),
        ("fp_queries", ex.sol.fp_queries),
    ] {
        let _ = writeln!(o, "stat\t{}\t{}", k, v);
    }
    let _ = writeln!(o, "max\tdepth\t{}", s.maxdepth);
    let _ = writeln!(o, "time\tsolver\t{}", ex.sol.time);
    let _ = writeln!(o, "maxtime\tquery\t{}", ex.sol.max_time);
    for v in &ex.viol {
        let st: Vec<String> = v.stack.iter().map(|s| flat(s)).collect();
        let _ = writeln!(o, "viol\t{}\t{}\t{}\t{}\t{}", v.kind, flat(&v.msg), flat(&v.loc), nums(&v.inputs), st.join(" < "));
    }
    for v in &ex.samples {
        let _ = writeln!(o, "sample\t{}\t{}", nums(&v.inputs), nums(&v.obs));
    }
    for c in &ex.covers {
        let _ = writeln!(o, "cover\t{}", flat(c));
    }
    for e in &s.errors {
        let _ = writeln!(o, "err\t{}", flat(e));
    }
    for (f, b) in &ex.cov {
        let bits: Vec<String> =
            b.iter().enumerate().filter(|x| *x.1).map(|x| x.0.to_string()).collect();
        let _ = writeln!(o, "cov\t{}\t{}", f, bits.join(","));
    }
    let pid = unsafe { getpid() };
    for (i, (q, sat)) in ex.sol.dump.iter().enumerate() {
        let p = format!("{}/q-{}-{}.{}.smt2", sh.dir, pid, i, if *sat { "sat" } else { "unsat" });
        let _ = std::fs::write(p, q);
    }
    std::fs::write(format!("{}/{}.res", sh.dir, pid), o).expect("write result");
}

fn share(ex: &mut Exec, sh: &mut Shared) -> bool {
    // reserve a slot
    let n = sh.active.fetch_add(1, Ordering::SeqCst);
    if n >= sh.max {
        sh.active.fetch_sub(1, Ordering::SeqCst);
        return false;
    }
    sh.started.fetch_add(1, Ordering::SeqCst);
    let half = (ex.work.len() + 1) / 2;
    let pid = unsafe { fork() };
    if pid == 0 {
        sh.first = false;
        ex.work.truncate(half);
        reset(ex);
        true
    } else if pid < 0 {
        sh.active.fetch_sub(1, Ordering::SeqCst);
        sh.started.fetch_sub(1, Ordering::SeqCst);
        false
    } else {
        ex.work.drain(..half);
        false
    }
}

fn explore(ex: &mut Exec, sh: &mut Shared) {
    let mut last = Instant::now();
    let mut cur: Option<exec::State> = None;
    loop {
        let st = match cur.take() {
            Some(s) => s,
            None => match ex.work.pop() {
                Some(s) => s,
                None => return,
            },
        };
        cur = ex.run(st, 20_000);
        let now = Instant::now();
        if now > sh.deadline || sh.stop.load(Ordering::Relaxed) != 0 {
            ex.st.dropped += ex.work.len() as u64 + cur.is_some() as u64;
            ex.work.clear();
            return;
        }
        if now.duration_since(last) > Duration::from_millis(15)
            && ex.work.len() + cur.is_some() as usize >= 2
            && !ex.work.is_empty()
            && sh.active.load(Ordering::Relaxed) < sh.max
        {
            if share(ex, sh) {
                cur = None; // the child works only on its share
            }
            last = Instant::now();
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let file = args.next().expect("usage: symx FILE.ll [options]");
    let (mut entry, mut case, mut workers, mut max_time, mut out) =
        ("v_main".to_string(), 0u64, 8i64, 600f64, String::new());
    let mut max_steps = 30_000_000u64;
    let mut dump = 0usize;
    let mut samples = 48usize;
    let mut srcs = "rust-src/src".to_string();
    let mut dumpdir = String::new();
    let mut covall = false;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("option value");
        match a.as_str() {
            "--entry" => entry = v(),
            "--case" => case = v().parse().unwrap(),
            "--workers" => workers = v().parse().unwrap(),
            "--max-time" => max_time = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--out" => out = v(),
            "--dump" => dump = v().parse().unwrap(),
            "--dump-dir" => dumpdir = v(),
            "--samples" => samples = v().parse().unwrap(),
            "--src" => srcs = v(),
            "--cov-all" => covall = true,
            _ => panic!("option {}", a),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read");
    let m = ir::Module::load(&text).unwrap_or_else(|e| {
        eprintln!("parse: {}", e);
        std::process::exit(70)
    });
    drop(text);
    let mut ex = Exec::new(m);
    ex.case = case;
    ex.max_steps = max_steps;
    ex.sol.dump_max = dump;
    if let Err(e) = ex.start(&entry) {
        eprintln!("start: {}", e);
        std::process::exit(70);
    }
    let load = t0.elapsed().as_secs_f64();
    let base = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let dir = format!("{}/symx-{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut fds = [0i32; 2];
    unsafe {
        pipe(fds.as_mut_ptr());
        signal(17, 1);
    }
    let mut sh = Shared {
        active: shared_cell(0, base),
        started: shared_cell(1, base),
        stop: shared_cell(2, base),
        max: workers,
        dir: dir.clone(),
        deadline: t0 + Duration::from_secs_f64(max_time),
        first: true,
    };
    sh.active.store(1, Ordering::SeqCst);
    sh.started.store(1, Ordering::SeqCst);
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
    explore(&mut ex, &mut sh);
    write_result(&ex, &sh);
    sh.active.fetch_sub(1, Ordering::SeqCst);
    if !sh.first {
        unsafe { _exit(0) }
    }
    unsafe {
        close(fds[1]);
        let mut b = [0u8; 16];
        while read(fds[0], b.as_mut_ptr().cast(), 16) > 0 {}
    }
    // ---- merge ----
    let mut stat: BTreeMap<String, u64> = BTreeMap::new();
    let (mut stime, mut qmax, mut depth) = (0f64, 0f64, 0u64);
    let mut viol: Vec<Vec<String>> = Vec::new();
    let mut smp: Vec<(String, String)> = Vec::new();
    let mut covers: BTreeSet<String> = BTreeSet::new();
    let mut errs: BTreeSet<String> = BTreeSet::new();
    let mut cov: HashMap<u32, BTreeSet<u32>> = HashMap::new();
    let mut procs = 0;
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for p in files {
        if p.extension().map(|e| e == "smt2").unwrap_or(false) {
            if !dumpdir.is_empty() {
                let _ = std::fs::create_dir_all(&dumpdir);
                let _ = std::fs::copy(&p, format!("{}/{}", dumpdir, p.file_name().unwrap().to_str().unwrap()));
            }
            continue;
        }
        procs += 1;
        let t = std::fs::read_to_string(&p).unwrap();
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "stat" => *stat.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "max" => depth = depth.max(f[2].parse().unwrap()),
                "time" => stime += f[2].parse::<f64>().unwrap(),
                "maxtime" => qmax = qmax.max(f[2].parse().unwrap()),
                "viol" => viol.push(f[1..].iter().map(|s| s.to_string()).collect()),
                "sample" => smp.push((f[1].into(), f[2].into())),
                "cover" => {
                    covers.insert(f[1].into());
                }
                "err" => {
                    errs.insert(f[1].into());
                }
                "cov" => {
                    let e = cov.entry(f[1].parse().unwrap()).or_default();
                    for b in f[2].split(',').filter(|x| !x.is_empty()) {
                        e.insert(b.parse().unwrap());
                    }
                }
                _ => {}
            }
        }
    }
    let started = sh.started.load(Ordering::SeqCst);
    let lost = started - procs;
    if lost > 0 {
        errs.insert(format!("{} worker process(es) lost", lost));
        *stat.entry("dropped".into()).or_insert(0) += lost as u64;
    }
    let _ = std::fs::remove_dir_all(&dir);
    // sub-sample evenly
    let keep: Vec<&(String, String)> = if smp.len() > samples {
        (0..samples).map(|i| &smp[i * smp.len() / samples]).collect()
    } else {
        smp.iter().collect()
    };
    // coverage by source function and line
    let mut memo: HashMap<u32, Vec<(String, u32, String)>> = HashMap::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funs: BTreeSet<String> = BTreeSet::new();
    let mut all: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let nf = ex.m.funcs.len() as u32;
    for f in 0..nf {
        let hit = cov.get(&f);
        if hit.is_none() && !covall {
            continue;
        }
        let Ok(body) = ex.m.body(f) else { continue };
        for (bi, b) in body.blocks.iter().enumerate() {
            let h = hit.map(|s| s.contains(&(bi as u32))).unwrap_or(false);
            if !h && !covall {
                continue;
            }
            for i in &b.insts {
                if i.dbg == 0 {
                    continue;
                }
                let v = memo.entry(i.dbg).or_insert_with(|| chain(&ex, i.dbg, &srcs)).clone();
                for (file, line, fun) in v {
                    if h {
                        lines.entry(file.clone()).or_default().insert(line);
                        funs.insert(fun);
                    }
                    if covall {
                        all.entry(file).or_default().insert(line);
                    }
                }
            }
        }
    }
    // ---- output ----
    let g = |k: &str| stat.get(k).cloned().unwrap_or(0);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"solver\":\"{}\",\"file\":\"{}\",\"entry\":\"{}\",\"case\":{},\"complete\":{},\"paths\":{},\"assumed_out\":{},\"instrs\":{},\"forks\":{},\"checks\":{},\"checks_sym\":{},\"dropped\":{},\"unknown\":{},\"queries\":{},\"cache_hits\":{},\"fp_queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"maxdepth\":{},\"procs\":{},\"load_s\":{:.2},\"wall_s\":{:.2}",
        esc(&solver::version()), esc(&file), esc(&entry), case,
        g("dropped") == 0 && g("unknown") == 0 && errs.is_empty(),
        g("paths"), g("assumed_out"), g("instrs"), g("forks"), g("checks"), g("checks_sym"), g("dropped"), g("unknown"),
        g("queries"), g("cache_hits"), g("fp_queries"), stime, qmax, depth, procs, load, t0.elapsed().as_secs_f64()
    );
    let list = |v: &BTreeSet<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    let _ = write!(o, ",\"covers\":[{}],\"errors\":[{}]", list(&covers), list(&errs));
    let vs: Vec<String> = viol
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":\"{}\",\"msg\":\"{}\",\"loc\":\"{}\",\"inputs\":[{}],\"stack\":\"{}\"}}",
                esc(&v[0]), esc(&v[1]), esc(&v[2]), v[3], esc(&v[4])
            )
        })
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", vs.join(","));
    let ss: Vec<String> = keep.iter().map(|s| format!("{{\"inputs\":[{}],\"obs\":[{}]}}", s.0, s.1)).collect();
    let _ = write!(o, ",\"samples\":[{}],\"functions\":[{}]", ss.join(","), list(&funs));
    let fmt = |m: &BTreeMap<String, BTreeSet<u32>>| {
        m.iter()
            .map(|(f, l)| {
                format!("\"{}\":[{}]", esc(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
            })
            .collect::<Vec<_>>()
            .join(",")
    };
    let _ = write!(o, ",\"lines\":{{{}}}", fmt(&lines));
    if covall {
        let _ = write!(o, ",\"all_lines\":{{{}}}", fmt(&all));
    }
    o.push('}');
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
}

/// Every (file, line, function) of an inlining chain that lies in the code under test.
fn chain(ex: &Exec, dbg: u32, srcs: &str) -> Vec<(String, u32, String)> {
    let mut v = Vec::new();
    let mut cur = dbg;
    let mut guard = 0;
    while cur != 0 && guard < 60 {
        guard += 1;
        if let Some((f, l)) = ex.dbg_loc(cur) {
            if f.contains(srcs) && l > 0 {
                let short = f.rsplit(srcs).next().unwrap_or(&f).trim_start_matches('/').to_string();
                let mut sc = cur;
                let mut name = String::new();
                for _ in 0..12 {
                    let Some(&li) = ex.m.md.get(&sc) else { break };
                    let t = &ex.m.src[li];
                    if t.contains("DISubprogram(") {
                        name = t.split("name: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").into();
                        break;
                    }
                    match field(t, "scope: !").and_then(|x| x.parse().ok()) {
                        Some(s) => sc = s,
                        None => break,
                    }
                }
                v.push((short.clone(), l, format!("{}::{}", short, name)));
            }
        }
        cur = ex
            .m
            .md
            .get(&cur)
            .and_then(|i| field(&ex.m.src[*i], "inlinedAt: !"))
            .and_then(|x| x.parse().ok())
            .unwrap_or(0);
    }
    v
}
