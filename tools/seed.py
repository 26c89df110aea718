#!/usr/bin/env python3
"""Write /verif/seeded from tools/seeds.py.

seed.py gen              write every planted bug's folder
seed.py demo [ID...]     confirm each: applies, builds, stable tests pass, demo passes without and fails with it
seed.py catch [ID...]    apply each to /repo, run its property's quick check, undo it
"""
import json, os, shutil, subprocess, sys, time
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS  # noqa: E402

KIT = os.path.join(V, "tools", "seedkit")
OUT = os.path.join(V, "seeded")
BASE = "3ae9aaa"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def patched(s):
    src = open("/repo/" + s["file"]).read()
    base = sh("git -C /repo show %s:%s" % (BASE, s["file"])).stdout
    changed = []
    for old, new, *n in s["edits"]:
        assert src.count(old) == (2 if n else 1), (s["id"], src.count(old), old)
        gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        changed += gone
        at = src.index(old)
        if n and n[0]:
            at = src.index(old, at + 1)
        src = src[:at] + new + src[at + len(old):]
    assert any(l in base for l in changed), (s["id"], "not original lines")
    return src


def gen():
    for s in SEEDS:
        d = os.path.join(OUT, s["id"])
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d + "/kit")
        w = "/tmp/seedwork"
        for side in "ab":
            os.makedirs(os.path.dirname("%s/%s/%s" % (w, side, s["file"])), exist_ok=True)
        shutil.copy("/repo/" + s["file"], "%s/a/%s" % (w, s["file"]))
        with open("%s/b/%s" % (w, s["file"]), "w") as f:
            f.write(patched(s))
        diff = sh("diff -u a/%s b/%s" % (s["file"], s["file"]), cwd=w).stdout.splitlines(True)
        diff[0], diff[1] = "--- a/%s\n" % s["file"], "+++ b/%s\n" % s["file"]
        open(d + "/patch.diff", "w").write("".join(diff))
        shutil.rmtree(w)
        shutil.copy(KIT + "/demo.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        for f in ("prelude.rs", "core.toml", "demo.toml", "Cargo.lock.txt"):
            shutil.copy(KIT + "/" + f, d + "/kit/" + f)
        for c in ("min-max-heap", "morton", "rayon", "sched", "indexmap", "static-bushes", "rocksdb"):
            shutil.copytree(V + "/shims/" + c, d + "/kit/" + c, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        os.makedirs(d + "/kit/fxhash/src")
        open(d + "/kit/fxhash/Cargo.toml", "w").write('[package]\nname = "fxhash"\nversion = "0.2.1"\nedition = "2018"\n')
        open(d + "/kit/fxhash/src/lib.rs", "w").write("pub type FxHashSet<T> = std::collections::HashSet<T>;\npub type FxHashMap<K, V> = std::collections::HashMap<K, V>;\n")
        js = ""
        if s["file"].startswith("native"):
            js = "mod js;\nuse js::*;\nuse neon::V;\nuse fuzzy_phrase::glue::*;\n"
            for c in ("neon", "neon-serde", "owning_ref", "fuzzy-phrase"):
                shutil.copytree(V + "/shims/" + c, d + "/kit/" + c, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            shutil.copy(KIT + "/node.toml", d + "/kit/node.toml")
            shutil.copy(KIT + "/demo_node.toml", d + "/kit/demo.toml")
            shutil.copy(KIT + "/Cargo.lock.node.txt", d + "/kit/Cargo.lock.txt")
            lib = open(V + "/harness_node/src/lib.rs").read()
            checks = "pub fn check(ok: bool, what: &str) {\n    assert!(ok, \"{}\", what);\n}"
            assert "pub use harness::*;" in lib
            open(d + "/kit/js.rs", "w").write("#![allow(dead_code)]\n" + lib.replace("pub use harness::*;", checks))
        if s["prop"] in ("C45", "C47"):
            js = "use test_utils::*;\n"
            for c in ("tempfile", "lz4", "rusoto_core", "rusoto_s3"):
                shutil.copytree(V + "/shims/" + c, d + "/kit/" + c, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            shutil.copy(KIT + "/tools.toml", d + "/kit/tools.toml")
            shutil.copy(KIT + "/demo_tools.toml", d + "/kit/demo.toml")
        open(d + "/main.rs", "w").write("// %s\nmod prelude;\n%suse prelude::*;\nuse carmen_core::gridstore::*;\n\nfn main() {%s}\n" % (s["needs"], js, s["demo"]))
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
    print(len(SEEDS), "written")


def demo(s):
    w = "/tmp/seeddemo-" + s["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh("git -C /repo worktree prune; cp -a /repo %s" % w)
    d = os.path.join(OUT, s["id"])
    try:
        clean = sh(d + "/demo.sh", cwd=w)
        a = sh("git apply %s/patch.diff" % d, cwd=w)
        assert a.returncode == 0, a.stderr
        bad = sh(d + "/demo.sh", cwd=w)
        return s["id"], clean.returncode, bad.returncode, (clean.stdout + clean.stderr)[-1500:], (bad.stdout + bad.stderr)[-400:]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def official(s):
    d = os.path.join(OUT, s["id"])
    try:
        sh("git -C /repo apply %s/patch.diff" % d)
        b = sh("bash /opt/vp/build.sh", cwd="/repo")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd="/repo")
        return b.returncode, t.returncode, open("/tmp/seedtest.json").read()[:200]
    finally:
        sh("git -C /repo checkout -- .")


def catch(s):
    d = os.path.join(OUT, s["id"])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stderr
        t = time.time()
        c = sh("python3 check.py %s --tier quick" % s["prop"], cwd=V)
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        return c.returncode, v[:2], round(time.time() - t), c.stdout[-600:] if not v else ""
    finally:
        sh("git -C /repo checkout -- .")


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    S = [s for s in SEEDS if not ids or s["id"] in ids]
    if cmd == "gen":
        gen()
    elif cmd == "demo":
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(demo, S):
                ok = r[1] == 0 and r[2] not in (0, 2, 3)
                print("ok " if ok else "BAD", r[0], r[1], r[2], flush=True)
                if not ok:
                    print(r[3], "\n----\n", r[4], flush=True)
    elif cmd == "official":
        for s in S:
            print(s["id"], official(s), flush=True)
    elif cmd == "catch":
        for s in S:
            r = catch(s)
            print(s["id"], s["prop"], *r, flush=True)
            cp = os.path.join(V, "tools", "caught.json")
            d = json.load(open(cp)) if os.path.exists(cp) else {}
            d[s["id"]] = "caught" if r[0] == 1 and r[1] else "missed"
            json.dump(d, open(cp, "w"), indent=1, sort_keys=True)
