"""Run every obligation of a property and write its evidence."""
import json
import multiprocessing
import os
from fractions import Fraction
import re
import sys
import time
import traceback
from . import algebra as A
from . import mt
from . import ev as E
from . import build, llparse, compare
from .algebra import Unsupported

VERIF = build.VERIF
RULES = ("impl", "nopanic", "pure", "guard")


def parse(path):
    with open(path) as f:
        return llparse.parse_module(f.read())


def declared(probe, variant):
    """obligations declared in the probe sources (the floor on what must be analysed)"""
    d = os.path.join(VERIF, "probes", probe, "src")
    out = []
    for fn in sorted(os.listdir(d)):
        with open(os.path.join(d, fn)) as f:
            out += re.findall(r'(?:^|[^\w!])(?:ob|only)!\s*\(\s*"(C\d+)"\s*,\s*"(\w+)"', f.read())
    return out


_M = {}


class Opts:
    pass


def one(job):
    """decide one obligation; returns a dict"""
    path, name, rule, opts = job
    t0 = time.time()
    M = _M[path]
    E.reset_all()
    E.Opt.strict_nan = bool(opts.get("strict_nan"))
    E.Opt.exact = bool(opts.get("exact"))
    E.Opt.round_ints = bool(opts.get("round_ints"))
    E.Opt.max_iter = opts.get("max_iter", 600)
    E.VALID = {}
    E.A.CAP = opts.get("cap")
    E.A.TOL = Fraction(opts.get("tol", "1e-9"))
    E.A.OPAQUE = tuple(opts.get("opaque", ()))
    st = compare.Stats()
    shared = {}
    saved = M.globals
    if opts.get("initial_statics"):
        M.globals = dict(saved)
        for ln in open(path + ".statics"):
            llparse.parse_global(re.sub(r", align \d+.*$", "", ln.rstrip("\n")), M)
    r = {"name": name, "rule": rule, "violations": []}
    try:
        I = compare.analyse(M, name + "__" + rule, shared, "i:")
        if rule == "impl":
            S = compare.analyse(M, name + "__spec", shared, "s:")
            r["violations"] += compare.compare(I, S, shared, st)
            if not opts.get("ignore_oob"):
                r["violations"] += compare.check_oob(I, st)
            r["blocks"] = I.an.nblocks + S.an.nblocks
            r["instrs"] = I.an.ninstr + S.an.ninstr
        elif rule == "nopanic":
            r["violations"] += compare.check_nopanic(I, st)
            r["violations"] += compare.check_oob(I, st)
            r["blocks"], r["instrs"] = I.an.nblocks, I.an.ninstr
        elif rule == "guard":
            vs, n = compare.check_guard(I, M, shared, st)
            r["violations"] += vs
            r["gated_calls"] = n
            r["blocks"], r["instrs"] = I.an.nblocks, I.an.ninstr
        elif rule == "pure":
            if I.st.events is not mt.leaf(()):
                r["violations"].append({"kind": "effects", "where": "effects in a pure function", "when": []})
            r["blocks"], r["instrs"] = I.an.nblocks, I.an.ninstr
        r["simd_calls"] = [c for c in I.an.callconds] and len(I.an.callconds)
    except Unsupported as e:
        r["unsupported"] = str(e)
    except Timeout:
        r["unsupported"] = "time limit of the analysis (%d s)" % LIMIT
    except MemoryError:
        r["unsupported"] = "memory limit of the analysis"
    except RecursionError:
        r["unsupported"] = "recursion limit of the analysis"
    except KeyError as e:
        r["unsupported"] = "missing construct %s\n%s" % (e, traceback.format_exc()[-1200:])
    except Exception as e:
        r["unsupported"] = "analysis error %s\n%s" % (e, traceback.format_exc()[-1500:])
    M.globals = saved
    r["leaf_pairs"] = st.leaf_pairs
    r["cubes"] = st.cubes
    r["infeasible"] = st.infeasible
    r["vars"] = len(mt.VARS)
    r["atoms"] = len(A.ATOMS)
    r["wall"] = round(time.time() - t0, 3)
    return r


LIMIT = int(os.environ.get("IRFLOW_LIMIT") or 300)


class Timeout(BaseException):
    pass


def worker_init():
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))


def limited(w):
    import signal

    def ring(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(LIMIT)
    try:
        return one(w)
    finally:
        signal.alarm(0)


def numbered(kw):
    return kw[0], limited(kw[1])


def run_module(path, names, options=None, jobs=8, bad=None, deadline=None, last=None):
    """names: list of (obligation, rule).  Once `bad` holds for some result (a violation to report) and `deadline` has passed, what is
    still being analysed is given up: its result is {"stopped": True}, which never counts as discharged.  At `last` everything is
    given up; without a violation by then, what is missing is undecided (and so reported)."""
    if path not in _M:
        _M[path] = parse(path)
    work = [(path, n, rule, (options or {}).get(n, {})) for n, rule in names]
    if jobs == 1 or len(work) == 1:
        sys.setrecursionlimit(20000)
        return [limited(w) for w in work]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(jobs, len(work)), initializer=worker_init, maxtasksperchild=8) as p:
        res, found = [None] * len(work), False
        it = p.imap_unordered(numbered, list(enumerate(work)), chunksize=1)
        for _ in work:
            while True:
                try:
                    k, r = it.next(timeout=2)
                    break
                except multiprocessing.TimeoutError:
                    if (found and deadline is not None and time.time() > deadline) or (last is not None and time.time() > last):
                        k = None
                        break
            if k is None:
                break
            res[k] = r
            found = found or (bad is not None and bad(r))
            if found and deadline is not None and time.time() > deadline:
                break
        if any(r is None for r in res):
            p.terminate()
        rest = {"stopped": True} if found else {"unsupported": "time limit of the check"}
        return [r or {"name": w[1], "rule": w[2], "violations": [], **rest, "leaf_pairs": 0, "cubes": 0, "infeasible": 0, "wall": 0} for r, w in zip(res, work)]


def obligations(M, prop=None):
    """(name, rule) of every obligation present in the module"""
    out = []
    for f in M.funcs:
        m = re.match(r'@(C\d+__\w+?)__(impl|nopanic|pure|guard)$', f)
        if m and (prop is None or m.group(1).startswith(prop + "__")):
            out.append((m.group(1), m.group(2)))
    for a in M.aliases:
        m = re.match(r'@(C\d+__\w+?)__(impl|nopanic|pure|guard)$', a)
        if m and (prop is None or m.group(1).startswith(prop + "__")):
            out.append((m.group(1), m.group(2)))
    return sorted(out)
