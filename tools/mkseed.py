#!/usr/bin/env python3
"""mkseed.py <seed.json dir>: author a planted bug.  Reads /tmp/seed/<id>.py defining ID, PROP, NEEDS, BREAKS, DEPS (toml lines), EDITS [(file, old, new)], MAIN (rust).
Confirms in a scratch copy: builds, stable tests pass, demo passes without and fails with the patch; then writes /verif/seeded/<id>/."""
import os, subprocess, sys, json, shutil, runpy
V = "/verif"; S = "/tmp/seedrepo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(path):
    g = runpy.run_path(path)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(S):
        sh("cp -a /repo " + S)
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard " + head, cwd=S)
    d = os.path.join(V, "seeded", g["ID"]); os.makedirs(d, exist_ok=True)
    shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(g["MAIN"].lstrip())
    deps = g.get("DEPS", 'aether_core = { path = "@REPO@/crates/aether_core", features = ["std"] }')
    open(d + "/Cargo.toml.in", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n' + deps + "\n")
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=S)
    if r.returncode:
        print(g["ID"], "demo fails on clean tree:", r.stdout[-800:], r.stderr[-1500:]); return 1
    for f, old, new in g["EDITS"]:
        p = os.path.join(S, f); t = open(p).read()
        if t.count(old) != 1:
            print(g["ID"], "edit matches", t.count(old), "times in", f, repr(old[:60])); return 1
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=S).stdout)
    r = sh("bash %s/demo.sh" % d, cwd=S)
    if r.returncode == 0:
        print(g["ID"], "demo passes with the patch"); return 1
    if "could not compile" in r.stderr:
        print(g["ID"], "does not compile", r.stderr[-1500:]); return 1
    out = (r.stdout + r.stderr).strip().splitlines()[-4:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])
    feats = ""
    t = sh(". /opt/vp/env.sh; cd %s; cargo test --workspace --no-fail-fast --offline --features \"$FEATURES\" -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|could not compile|^error' | head" % S, env={**os.environ})
    sh("git checkout -q -- .", cwd=S)
    if t.stdout.strip():
        print(g["ID"], "tests fail:", t.stdout); return 1
    print(g["ID"], "ok;", " | ".join(out)[:300])
    if "--check" in sys.argv:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: print(a.stderr); return 1
        try:
            c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 -m irflow.check %s --tier quick" % g["PROP"], cwd=V)
        finally:
            sh("git -C /repo checkout -- .")
        print("   check:", "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + g["PROP"] in c.stdout else "MISSED rc=%d" % c.returncode, c.stdout[-400:].replace("\n", " | "))
    return 0
sys.exit(max(main(p) for p in sys.argv[1:] if not p.startswith("--")))
