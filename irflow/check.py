"""Decide one property:  python3 -m irflow.check C01 [--tier quick|thorough]
exit 0: every obligation discharged (or listed in known_findings.txt); exit 1 with a VIOLATION line otherwise."""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback
from . import build, run

VERIF = build.VERIF
GIVE_UP = 240      # seconds after which, once there is a violation to report, the rest is no longer analysed


def registry():
    with open(os.path.join(VERIF, "probes", "props.json")) as f:
        return json.load(f)


def known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) \| (.*)', line.strip())
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3)
    return out


def vkey(name, rule, v):
    w = re.sub(r'[^\w.+\-]+', '_', v["where"])[:80]
    return "%s:%s:%s" % (name, v["kind"], w)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args(argv)
    prop = a.property
    t0 = time.time()
    cfg = registry()[prop]
    units = cfg["quick"] if a.tier == "quick" else cfg.get("thorough", cfg["quick"])
    viol = []      # (key, text)
    obligations = discharged = 0
    kn = known()

    def result_violations(r):
        if "unsupported" in r:
            kind = "diverges" if r["unsupported"].startswith("never returns") else "undecided"
            return [("%s:%s" % (r["name"], kind), {"obligation": r["name"], "kind": kind, "text": r["unsupported"]})]
        return [(vkey(r["name"], r["rule"], v), {"obligation": r["name"], "kind": v["kind"], "where": v["where"], "text": json.dumps(v, indent=1)}) for v in r["violations"]]

    def news(vs):
        return any((prop, k) not in kn for k, _ in vs)
    cov = {"units": [], "undecided": 0}
    samples = []
    tot = {"leaf_pairs": 0, "cubes": 0, "infeasible": 0, "blocks": 0, "instrs": 0}
    for unit in units:
        if unit[0] == "rule":
            # a python rule over the source / MIR: module irflow.rules.<name>
            try:
                m = importlib.import_module("irflow.rules." + unit[1])
                res = m.check(prop, a.tier)
            except build.BuildError as e:
                viol.append(("%s:build" % unit[1], {"obligation": unit[1], "kind": "build", "text": e.text}))
                continue
            except Exception as e:
                viol.append(("%s:undecided" % unit[1], {"obligation": unit[1], "kind": "undecided", "text": traceback.format_exc()[-2500:]}))
                continue
            n = res["obligations"]
            obligations += n
            bad = res["violations"]
            discharged += n - len({v["obligation"] for v in bad})
            floor = cfg.get("floor", {}).get("rule/" + unit[1], 1)
            if n < floor:
                viol.append(("%s:floor" % unit[1], {"obligation": unit[1], "kind": "floor", "text": "only %d instances analysed, %d expected" % (n, floor)}))
            for v in bad:
                viol.append(("%s:%s:%s" % (unit[1], v["kind"], re.sub(r'[^\w.+\-]+', '_', v["where"])[:90]), v))
            cov["units"].append({"rule": unit[1], "obligations": n, **res.get("coverage", {})})
            samples += res.get("samples", [])[:3]
            continue
        probe, variant = unit
        if time.time() - t0 > GIVE_UP and news(viol):
            cov["units"].append({"probe": "%s/%s" % (probe, variant), "stopped": "a violation had been found"})
            continue
        uname = "%s/%s" % (probe, variant)
        try:
            path = build.lower(probe, variant)
            M = run._M[path] = run.parse(path)
        except build.BuildError as e:
            viol.append(("%s:build" % uname, {"obligation": uname, "kind": "build", "text": "the probe crate no longer compiles against the repository: an interface this property is anchored at is gone or has changed type\n" + e.text}))
            continue
        pc = build.probe_config(probe)
        obs = run.obligations(M, prop)
        floor = cfg.get("floor", {}).get(uname, 1)
        if len(obs) < floor:
            viol.append(("%s:floor" % uname, {"obligation": uname, "kind": "floor", "text": "only %d obligations lowered, %d expected" % (len(obs), floor)}))
        deadline = t0 + GIVE_UP
        res = run.run_module(path, obs, pc.get("options"), bad=lambda r: news(viol) or news(result_violations(r)), deadline=deadline,
                             last=t0 + 840 if a.tier == "quick" else None)
        nd = 0
        for r in res:
            obligations += 1
            for k in tot:
                tot[k] += r.get(k, 0)
            vs = result_violations(r)
            if r.get("stopped"):
                cov["stopped"] = cov.get("stopped", 0) + 1
            elif vs:
                cov["undecided"] += "unsupported" in r
                viol += vs
            else:
                discharged += 1
                nd += 1
                if len(samples) < 6:
                    samples.append({"obligation": r["name"], "rule": r["rule"], "blocks": r.get("blocks"), "instructions": r.get("instrs"),
                                    "locations_compared": r["leaf_pairs"], "cubes": r["cubes"], "cubes_infeasible": r["infeasible"]})
        cov["units"].append({"probe": uname, "obligations": len(obs), "discharged": nd, "functions_in_module": len(M.funcs),
                             "slowest_s": max([r["wall"] for r in res] or [0]), "names": sorted(r["name"].split("__", 1)[1] for r in res)})
    live, listed = [], []
    for k, v in viol:
        (listed if (prop, k) in kn else live).append((k, v))
    for k, v in listed:
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[(prop, k)], k))
    rep = os.path.join(VERIF, "evidence", prop + ".replay.txt")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if live:
        with open(rep, "w") as f:
            f.write("property %s: replay with  cd /verif && python3 -m irflow.check %s --tier %s\n" % (prop, prop, a.tier))
            for k, v in live:
                f.write("\n== %s\n%s\n" % (k, v.get("text", json.dumps(v, indent=1))))
        for k, v in live[:12]:
            print("  %s: %s" % (k, v.get("text", "").splitlines()[0][:300] if v["kind"] in ("build", "undecided", "diverges", "floor") else v.get("where", "")))
            if v["kind"] == "build":
                print(v["text"][-1500:])
    elif os.path.exists(rep):
        os.remove(rep)
    cov.update({"obligations": obligations, "discharged": discharged,
                "known_findings": [k for k, _ in listed],
                "basic_blocks_analysed": tot["blocks"], "instructions_analysed": tot["instrs"],
                "locations_compared": tot["leaf_pairs"], "guard_cubes": tot["cubes"], "guard_cubes_infeasible": tot["infeasible"],
                "checker_cmd": "python3 -m irflow.check %s --tier %s" % (prop, a.tier),
                "trusted_base": ["rustc +nightly lowering and LLVM's scalar passes", "irflow's transfer functions and normal-form algebra", "the specification side of each obligation in /verif/probes"],
                "explanation": cfg.get("explanation", "Each obligation pairs a public entry point, lowered to LLVM IR from /repo's current sources together with everything it calls, with a specification body lowered the same way. A dataflow pass over the gated SSA form computes, for each returned value, written location, panic and effect, a guarded normal form over the arguments; the obligation is discharged when both forms are identical under every feasible guard."),
                "samples": samples or ["none"]})
    ev = {"property": prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED") or 1), "level": cfg.get("level", "proof"),
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(live),
          "assumptions": cfg.get("assumptions", []) + ["floating-point arithmetic is compared as exact real arithmetic (rounding order is not part of the property); coefficients agree to 1e-12"]}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s [%s] obligations=%d discharged=%d known=%d violations=%d wall=%.1fs" % (prop, a.tier, obligations, discharged, len(listed), len(live), time.time() - t0))
    if live:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        print("VIOLATION property=%s replay=%s" % (p, "analysis-error"))
        rc = 1
    sys.exit(rc)
