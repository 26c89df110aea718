#!/usr/bin/env python3
"""Run the check of one property: python3 check.py C01 [--tier quick|thorough] [--cases 0,1]

1. build the checker (engine/), the property's harness as LLVM IR over /repo's current source,
   and the same harness as two native programs (with and without overflow/debug assertions);
2. let the checker execute the IR symbolically, case by case, asking the SMT solver at every
   branch and assertion;
3. replay every counterexample natively; report VIOLATION only for those that reproduce;
4. replay sampled passing paths natively and compare what they observe with the solver's model;
5. write evidence/<id>.json.
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props  # noqa: E402

T0 = time.time()
TARGET = os.environ.get("CARMEN_VERIF_TARGET", os.path.join(V, "target"))
REPO = "/repo"
ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    RUST_BACKTRACE="0",
)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("%s failed:\n%s" % (what, r.stdout[-6000:]))


def refresh(target, profile, parts, crates):
    """Cargo judges by modification times; make it rebuild whenever the contents differ from those built here last."""
    h = hashlib.sha256()
    for d in parts:
        for top, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules"))
            for f in sorted(files):
                p = os.path.join(top, f)
                if os.path.isfile(p):
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    stamp = os.path.join(target, profile, "contents.sha256")
    try:
        with open(stamp) as f:
            if f.read() == h.hexdigest():
                return
        os.remove(stamp)
    except FileNotFoundError:
        pass
    fp = os.path.join(target, profile, ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.rsplit("-", 1)[0] in crates:
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def crate_of(bin_):
    """The crate a harness is in: those of the JavaScript bindings and the tools have their own, which may fail to build alone."""
    return next(c for c in ("harness", "harness_node", "harness_tools") if os.path.exists(os.path.join(V, c, "src", "bin", bin_ + ".rs")))


def target_of(bin_, kind):
    return os.path.join(TARGET, {"harness": "", "harness_node": "node", "harness_tools": "tools"}[crate_of(bin_)], kind)


def refresh_harness(target, profile, bin_):
    shims = os.path.join(V, "shims")
    crates = {"carmen-core", "harness"}
    for d in os.listdir(shims):
        crates |= {d, d.replace("_", "-"), d.replace("-", "_")}
    parts = [os.path.join(REPO, "rust-src"), os.path.join(V, "harness"), os.path.join(V, "carmen"), shims]
    if crate_of(bin_) == "harness_tools":
        crates |= {"harness_tools", "test_utils"}
        parts += [os.path.join(REPO, "test_utils", "src"), os.path.join(V, "harness_tools"), os.path.join(V, "tools_crate")]
    if crate_of(bin_) == "harness_node":
        crates |= {"harness_node", "node-carmen-core"}
        parts += [os.path.join(REPO, "native", "src"), os.path.join(V, "harness_node"), os.path.join(V, "node")]
    refresh(target, profile, parts, crates)


def build_engine():
    refresh(os.path.join(TARGET, "engine"), "release", [os.path.join(V, "engine")], {"symx"})
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "engine"))
    sh(["cargo", "build", "-q", "--release", "--offline", "--locked"], os.path.join(V, "engine"), e, "building the checker")
    return os.path.join(TARGET, "engine", "release", "symx")


def build_ir(bin_):
    t = target_of(bin_, "ir")
    e = dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS="-Awarnings --cfg carmen_sym --cfg carmen_verif")
    refresh_harness(t, "release", bin_)
    sh(
        ["cargo", "rustc", "-q", "--offline", "--locked", "--release", "--bin", bin_, "--", "--emit=llvm-ir",
         "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
         "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"],
        os.path.join(V, crate_of(bin_)), e, "building the harness as LLVM IR")
    d = os.path.join(t, "release", "deps")
    c = [os.path.join(d, f) for f in os.listdir(d) if re.fullmatch(bin_ + r"-[0-9a-f]+\.ll", f)]
    if not c:
        raise CheckError("no LLVM IR was produced")
    return max(c, key=os.path.getmtime)


def build_native(bin_, profile):
    t = target_of(bin_, profile)
    e = dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS="-Awarnings --cfg carmen_verif")
    refresh_harness(t, profile, bin_)
    sh(["cargo", "build", "-q", "--offline", "--locked", "--profile", profile, "--bin", bin_],
       os.path.join(V, crate_of(bin_)), e, "building the native harness (%s)" % profile)
    return os.path.join(t, profile, bin_)


def solver_env():
    """The newest z3 library installed, under the name the checker is linked against."""
    new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"
    e = dict(os.environ)
    if os.path.exists(new):
        d = os.path.join(TARGET, "z3lib")
        os.makedirs(d, exist_ok=True)
        ln = os.path.join(d, "libz3.so.4")
        if not os.path.exists(ln):
            tmp = ln + ".%d" % os.getpid()
            os.symlink(os.path.realpath(new), tmp)
            os.replace(tmp, ln)
        e["LD_LIBRARY_PATH"] = d
    return e


def symx(binary, ll, case, secs, opt):
    out = ll + ".case%d.json" % case
    if os.path.exists(out):
        os.remove(out)
    cmd = [binary, ll, "--case", str(case), "--workers", str(opt.get("workers", 8)), "--max-time", str(secs),
           "--samples", str(opt.get("samples", 24)), "--out", out]
    if "max_steps" in opt:
        cmd += ["--max-steps", str(opt["max_steps"])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs * 2 + 120,
                       env=SOLVER_ENV)
    if not os.path.exists(out):
        raise CheckError("the checker gave no result for case %d:\n%s" % (case, r.stdout[-3000:]))
    with open(out) as f:
        return json.load(f)


def native(binary, case, inputs, timeout=30):
    """-> (what happened, text). what: ok, check, panic, assume, timeout, signal"""
    try:
        r = subprocess.run([binary, str(case), ",".join(map(str, inputs))], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "no end within %d s" % timeout
    o = r.stdout.decode("utf-8", "replace").strip()
    last = o.splitlines()[-1] if o else ""
    if r.returncode == 0:
        return "ok", last
    if r.returncode == 3:
        return "check", last
    if r.returncode == 4:
        return "panic", last
    if r.returncode == 5:
        return "assume", last
    return "signal", "exit %d %s" % (r.returncode, last)


def load_known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def matches_known(k, case, v):
    return (
        case in k.get("cases", [case])
        and re.search(k["message"], v["msg"]) is not None
        and ("location" not in k or re.search(k["location"], v["loc"]) is not None
             or any(re.search(k["location"], s) for s in v.get("stack", [])))
    )


def setup():
    """Warm the build directories; a tree that does not build is for the checks to report."""
    bins = sorted({P.get("bin", p.lower()) for p, P in props.PROPS.items()})

    def many(f, *k):
        for b in bins:
            try:
                f(b, *k)
            except CheckError as e:
                log("note:", str(e)[:500])

    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(build_engine), ex.submit(many, build_ir), ex.submit(many, build_native, "replay"),
              ex.submit(many, build_native, "shipped")]
        for f in fs:
            f.result()
    log("set up in %.1f s" % (time.time() - T0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build everything once, so that checks only rebuild what changed")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--cases")
    a = ap.parse_args()
    if a.setup:
        return setup()
    prop = a.prop
    P = props.PROPS[prop]
    bin_ = P.get("bin", prop.lower())
    tier = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cases = [c for c in P["cases"] if tier in c.get("tiers", ("quick", "thorough"))]
    if a.cases:
        want = set(map(int, a.cases.split(",")))
        cases = [c for c in cases if c["case"] in want]

    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "build.lock"), "w") as lock, cf.ThreadPoolExecutor(4) as ex:
        fcntl.flock(lock, fcntl.LOCK_EX)
        fe = ex.submit(build_engine)
        fi = ex.submit(build_ir, bin_)
        fr = ex.submit(build_native, bin_, "replay")
        fs = ex.submit(build_native, bin_, "shipped")
        errs = []
        got = []
        for f in (fe, fi, fr, fs):
            try:
                got.append(f.result())
            except CheckError as e:
                errs.append(str(e))
    if errs:
        raise CheckError("\n".join(errs))
    engine, ll, rep, shp = got
    global SOLVER_ENV
    SOLVER_ENV = solver_env()
    t_build = time.time() - T0
    log("built in %.1f s" % t_build)

    results = {}
    budget = P.get("budget", {"quick": 240, "thorough": 2400})[tier]
    stop_at = time.time() + budget

    def one(c):
        left = stop_at - time.time()
        secs = max(5, int(min(c.get("secs", {}).get(tier, budget), left)))
        return c, symx(engine, ll, c["case"], secs, c)

    with cf.ThreadPoolExecutor(P.get("parallel", 3)) as ex:
        for c, r in ex.map(one, cases):
            results[c["case"]] = r
            log("case %d: %s paths=%d checks=%d solver-checks=%d queries=%d solver=%.2fs wall=%.1fs unknown=%d violations=%d%s" % (
                c["case"], "complete" if r["complete"] else "INCOMPLETE", r["paths"], r["checks"], r["checks_sym"],
                r["queries"], r["solver_s"], r["wall_s"], r["unknown"], len(r["violations"]),
                " errors=%s" % r["errors"] if r["errors"] else ""))

    known = load_known(prop)
    seen_known, viols, unrepro = {}, [], []
    for c in cases:
        r = results[c["case"]]
        groups = {}
        for v in r["violations"]:
            groups.setdefault((v["kind"], v["msg"], v["loc"]), []).append(v)
        for key, vs in groups.items():
            done = {}
            for v in vs[:8]:
                k = next((k for k in known if matches_known(k, c["case"], v)), None)
                slot = k["id"] if k else ""
                if done.get(slot):
                    continue
                what, text = native(rep, c["case"], v["inputs"])
                what2, text2 = native(shp, c["case"], v["inputs"])
                bad = [w for w in (what, what2) if w not in ("ok", "assume")]
                if not bad:
                    unrepro.append((c["case"], v, what, text, what2, text2))
                    continue
                done[slot] = True
                if k:
                    seen_known[k["id"]] = k
                    continue
                viols.append((c, v, what, text, what2, text2))
            if any(done.values()):
                unrepro = [u for u in unrepro if (u[0], u[1]["kind"], u[1]["msg"], u[1]["loc"]) != (c["case"],) + key]

    # known findings are confirmed by their own recorded input
    for k in known:
        if k.get("status") == "fixed" or k["id"] in seen_known or "inputs" not in k:
            continue
        what, _ = native(rep, k["case"], k["inputs"])
        if what not in ("ok", "assume"):
            seen_known[k["id"]] = k

    # translation validation: sampled paths, replayed natively
    validated, mismatches, samples_out = 0, [], []
    jobs = []
    for c in cases:
        for s in results[c["case"]]["samples"][: c.get("validate", 24)]:
            jobs.append((c["case"], s))
    with cf.ThreadPoolExecutor(8) as ex:
        for (case, s), (what, text) in zip(jobs, ex.map(lambda j: native(rep, j[0], j[1]["inputs"]), jobs)):
            want = "OBS " + ",".join(map(str, s["obs"]))
            if what == "ok" and text.strip() == want.strip():
                validated += 1
                if len(samples_out) < 12:
                    samples_out.append({"case": case, "inputs": s["inputs"][:24], "observed": s["obs"][:24]})
            else:
                mismatches.append((case, s["inputs"], want[:200], what, text[:200]))

    missing, errors, incomplete = [], [], []
    for c in cases:
        r = results[c["case"]]
        for m in c.get("covers", []):
            if m not in r["covers"]:
                missing.append("case %d never reached '%s'" % (c["case"], m))
        if r["errors"]:
            errors.append("case %d: %s" % (c["case"], r["errors"][:3]))
        if not r["complete"]:
            incomplete.append(c["case"])

    tot = lambda k: sum(r[k] for r in results.values())
    funcs = sorted({f for r in results.values() for f in r["functions"]})
    lines = {}
    for r in results.values():
        for f, ls in r.get("lines", {}).items():
            lines.setdefault(f, set()).update(ls if isinstance(ls, list) else [])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": validated,
        "samples": samples_out,
        "states_meaning": "execution paths of the real code, each standing for every input that follows it",
        "transitions_meaning": "places where the solver found more than one successor feasible",
        "paths_cut_by_assumptions": tot("assumed_out"),
        "instructions_executed": tot("instrs"),
        "assertions_reached": tot("checks"),
        "assertions_put_to_the_solver": tot("checks_sym"),
        "solver": sorted({r.get("solver", "") for r in results.values()}),
        "solver_queries": tot("queries"),
        "solver_cache_hits": tot("cache_hits"),
        "floating_point_queries": tot("fp_queries"),
        "solver_s": round(tot("solver_s"), 3),
        "max_query_s": max([r["max_query_s"] for r in results.values()] or [0]),
        "solver_unknown": tot("unknown"),
        "incomplete_cases": incomplete,
        "functions_encoded": funcs,
        "source_lines_encoded": {f: len(v) for f, v in sorted(lines.items())},
        "cases": [{"case": c["case"], "what": c["what"], "bounds": c.get("bounds", ""),
                   "paths": results[c["case"]]["paths"], "complete": results[c["case"]]["complete"],
                   "reached": results[c["case"]]["covers"], "wall_s": results[c["case"]]["wall_s"]} for c in cases],
        "outside": P.get("outside", ""),
        "known_findings_seen": sorted(seen_known),
        "unreproduced": len(unrepro),
        "build_s": round(t_build, 1),
    }
    if not samples_out:
        cov["samples"] = [{"case": c["case"], "what": c["what"]} for c in cases[:3]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": props.TRUST + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(viols),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in seen_known.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viols:
        d = os.path.join(V, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (c, v, what, text, what2, text2) in enumerate(viols[:10]):
            p = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(p, "w") as f:
                json.dump({
                    "property": prop, "case": c["case"], "what": c["what"], "kind": v["kind"], "message": v["msg"],
                    "location": v["loc"], "stack": v.get("stack", []), "inputs": v["inputs"],
                    "native_with_debug_assertions": [what, text], "native_as_shipped": [what2, text2],
                    "replay_command": "cd /verif/%s && RUSTFLAGS='--cfg carmen_verif' cargo run --offline --profile replay --bin %s -- %d %s"
                                      % (crate_of(bin_), bin_, c["case"], ",".join(map(str, v["inputs"]))),
                }, f, indent=1)
            log("counterexample: case %d, %s: %s at %s; native: %s / as shipped: %s" % (c["case"], v["kind"], v["msg"], v["loc"], text, text2))
            log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    bad = []
    for u in unrepro[:5]:
        bad.append("counterexample that does not reproduce: case %d %s %s at %s inputs %s (native: %s; %s)" % (
            u[0], u[1]["kind"], u[1]["msg"], u[1]["loc"], u[1]["inputs"], u[3], u[5]))
    for m in mismatches[:5]:
        bad.append("native run disagrees with the model: case %d inputs %s want %s got %s %s" % m)
    bad += errors + missing
    if bad:
        raise CheckError("\n".join(bad))
    if incomplete:
        log("INCOMPLETE within the time limit: cases %s (recorded in the evidence)" % incomplete)
    log("OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.1fs" % (
        prop, tier, tot("paths"), tot("queries"), validated, time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("ERROR " + str(e))
        rc = 2
    sys.exit(rc)
