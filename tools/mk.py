#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/texts.py and props.py."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import props, texts  # noqa: E402


def source(name):
    return next(f for f in ("%s/src/bin/%s.rs" % (h, name) for h in ("harness", "harness_node", "harness_tools")) if os.path.exists(os.path.join(V, f)))


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for t in texts.TEXTS:
        assert len(t["title"]) <= 80, t["title"]
        f.write(json.dumps(t) + "\n")

hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg(carmen_verif)"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for t in texts.TEXTS:
    i = t["id"]
    if i in props.PROPS:
        P = props.PROPS[i]
        q = "; ".join("%s (%s)" % (c["what"], c["bounds"]) if c["bounds"] else c["what"] for c in P["cases"] if "quick" in c.get("tiers", ("quick",)))
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the compiled crate's LLVM IR, SMT-decided assertions (z3)",
            "level": "model_checking",
            "level_note": "Every input within the bounds, on the real code: " + q + ". Outside: " + P.get("outside", "anything larger")
                          + ". Trusts the IR executor, z3 and the stand-ins for unavailable crates; counterexamples and sampled paths are replayed natively.",
        })
    else:
        na.append({"property": i, "reason": texts.NOT_APPLICABLE.get(i, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg(carmen_verif)",
        "enable": "RUSTFLAGS='--cfg carmen_verif'; check.py compiles /repo/rust-src/src/lib.rs through /verif/carmen with it",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Each check builds the checker, the harness as LLVM IR and two native replays from /repo's current tree.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

def wrap(t, ind=""):
    import textwrap
    return "\n".join(textwrap.wrap(t, 130, initial_indent=ind, subsequent_indent=ind and "  "))


def design():
    import seeds
    T = os.path.join(V, "tools")
    o = [open(os.path.join(T, "design_head.md")).read().rstrip("\n"), ""]
    for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
        o.append(wrap(f[len("fixed: "):].replace("property=", ""), "* "))
    o += ["", "Known findings, left unrepaired (`test_utils/` counts as test files, which no commit may change; each check prints them as `KNOWN-FINDING`",
          "and reports any other violation; `known_findings.json` has the inputs). The repair is `write_all` for `write`, and `flush().unwrap()` at the end of both files:", ""]
    for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
        o.append("* %s (%s): %s" % (f["property"], f["where"], f["what"]))
    o += ["", "## The properties", ""]
    for t in texts.TEXTS:
        i = t["id"]
        if i not in props.PROPS:
            continue
        Pp = props.PROPS[i]
        o += ["### %s: %s" % (i, t["title"]), "", wrap(t["statement"]), "", "Harness `%s`. Cases:" % source(Pp.get("bin", i.lower())), ""]
        for c in Pp["cases"]:
            tier = "" if "quick" in c.get("tiers", ("quick",)) else " (thorough only)"
            o.append(wrap("%d. %s%s%s" % (c["case"], c["what"], "; " + c["bounds"] if c["bounds"] else "", tier), "* "))
        o += ["", wrap("Outside: " + Pp.get("outside", "anything larger") + "."), ""]
    caught = {}
    cp = os.path.join(T, "caught.json")
    if os.path.exists(cp):
        caught = json.load(open(cp))
    o += ["## The planted bugs", "",
          wrap("`seeded/<id>/`, written by `tools/seed.py` from `tools/seeds.py`. Each was confirmed in a scratch copy: the patch applies, the "
               "build and the stable test pass, the demonstration passes without it and fails with it. Then it was applied to /repo, the quick "
               "check of its property run, and undone."), "", "| bug | property | needs | quick check |", "|---|---|---|---|"]
    for s in seeds.SEEDS:
        o.append("| %s | %s | %s | %s |" % (s["id"], s["prop"], s["needs"].replace("|", "/"), caught.get(s["id"], "not run")))
    o += ["", open(os.path.join(T, "design_tail.md")).read().strip("\n"), ""]
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(o))


design()
print(len(checks), "checks,", len(na), "not applicable")
