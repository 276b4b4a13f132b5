#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and probes/props.json from tools/table.py.
`--floors` re-counts the obligations of every unit (run after adding probes) into tools/floors.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import table
fl = os.path.join(V, "tools", "floors.json")
floors = json.load(open(fl)) if os.path.exists(fl) else {}
if "--floors" in sys.argv:
    only = [a for a in sys.argv[1:] if not a.startswith("--")]
    from irflow import build, run
    mods = {}
    for p in table.PROPS:
        if p.get("na") or (only and p["id"] not in only):
            continue
        units = {tuple(u) for u in p["quick"] + p.get("thorough", [])}
        for u in sorted(units):
            if u[0] == "rule":
                continue
            if u not in mods:
                mods[u] = run.parse(build.lower(*u))
            floors.setdefault(p["id"], {})["%s/%s" % u] = len(run.obligations(mods[u], p["id"]))
    json.dump(floors, open(fl, "w"), indent=1, sort_keys=True)
props, checks, na, reg = [], [], [], {}
for p in table.PROPS:
    o = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
         "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
    for k in ("state", "observe_at"):
        if k in p:
            o[k] = p[k]
    props.append(o)
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    reg[p["id"]] = {"quick": p["quick"], "thorough": p.get("thorough", p["quick"]), "level": p.get("level", "other"), "floor": {**floors.get(p["id"], {}), **p.get("rule_floor", {})}}
    for k in ("explanation", "assumptions"):
        if k in p:
            reg[p["id"]][k] = p[k]
    checks.append({"property": p["id"], "quick_cmd": "python3 -m irflow.check %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 -m irflow.check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p.get("technique", table.TECH), "level": p.get("level", "other"), "level_note": p.get("note", table.NOTE)})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in props:
        f.write(json.dumps(o) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q irflow && cargo +nightly --version", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump(reg, open(os.path.join(V, "probes", "props.json"), "w"), indent=1, sort_keys=True)
print(len(props), "properties", len(checks), "checks", len(na), "n/a")
