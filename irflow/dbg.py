import sys, json
from . import build, run
probe = sys.argv[1]
pat = sys.argv[2] if len(sys.argv) > 2 else ''
variant = 'default'
if '/' in probe:
    probe, variant = probe.split('/')
try:
    p = build.lower(probe, variant)
except build.BuildError as e:
    print(e.text); sys.exit(2)
M = run._M[p] = run.parse(p)
cfg = build.probe_config(probe)
obs = [o for o in run.obligations(M) if pat in o[0] + "__" + o[1]]
res = run.run_module(p, obs, cfg.get("options"))
bad = 0
for r in res:
    ok = not r["violations"] and "unsupported" not in r
    if ok and len(res) > 60 and r["wall"] < 5:
        continue
    print("%-6s %-40s %.2fs pairs=%d cubes=%d vars=%d" % ("ok" if ok else "FAIL", r["name"] + ":" + r["rule"], r["wall"], r["leaf_pairs"], r["cubes"], r["vars"]))
    if "unsupported" in r:
        print("   unsupported:", r["unsupported"][:1500])
    for v in r["violations"][:3]:
        print("   ", v["kind"], v["where"])
        for w in v["when"][:60]:
            print("        when", w[:220])
        for k in ("implementation", "expected", "difference"):
            if k in v:
                print("        %s: %s" % (k, v[k][:500]))
    bad += not ok
print(len(res), "obligations", bad, "bad")
