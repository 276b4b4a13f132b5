"""Obligations over pairs of analysed functions: equal guarded normal forms."""
import re
import struct
from fractions import Fraction
from . import algebra as A
from . import mt
from . import ev as E
from . import polyhedra
from .algebra import Rat, IntV, Unsupported, rconst
from .ev import U, isU, Ptr

MAX_CUBES = 60000
import os
DEBUG = bool(os.environ.get("IRFLOW_DEBUG"))


# ------------------------------------------------------------------ deep substitution
def rebuild(v, mp, cache):
    """replace atoms by normal forms everywhere, including inside function arguments"""
    if isinstance(v, Rat):
        k = id(v)
        r = rebuild_poly(v.num, mp, cache)
        for f, e in v.den.items():
            d = rebuild_poly(A.FACTORS[f], mp, cache)
            if not d.num:
                raise Unsupported("zero denominator after substitution")
            r = A.rmul(r, A.rpow(A.rinv(d), e))
        return r
    if isinstance(v, IntV):
        return v
    if isinstance(v, tuple):
        return tuple(rebuild(x, mp, cache) for x in v)
    return v


FN1 = {"sin": A.f_sin, "cos": A.f_cos, "exp": A.f_exp, "ln": A.f_ln}


def rebuild_atom(i, mp, cache):
    if i in cache:
        return cache[i]
    at = A.ATOMS[i]
    if i in mp:
        r = mp[i]
    elif not at.args or at.kind != "real" or not touches(i, mp, {}):
        r = A.ratom(at)
    else:
        r = refn(at, [rebuild(x, mp, cache) for x in at.args])
    cache[i] = r
    return r


def refn(at, args):
    """the function of an atom at other arguments"""
    if at.fn == "sqrt":
        n = E.rsqrt(args[0])
        return n.val if mt.is_leaf(n) else A.ratom(A.fn_atom("sqrt", tuple(args)))
    if at.fn in FN1:
        return FN1[at.fn](args[0])
    if at.fn == "named":
        return args[0]
    if at.fn == "pow":
        return A.f_pow(*args)
    if at.fn == "atan2":
        return A.f_atan2(*args)
    if at.fn in E.MATH1:
        return E.MATH1[at.fn](args[0])
    return A.ratom(A.fn_atom(at.fn, tuple(args)))


def touches(i, mp, seen):
    if i in mp:
        return True
    if i in seen:
        return seen[i]
    seen[i] = False
    r = any(touches_v(x, mp, seen) for x in A.ATOMS[i].args)
    seen[i] = r
    return r


def touches_v(v, mp, seen):
    if isinstance(v, Rat):
        for m in v.num:
            for i, _ in m:
                if touches(i, mp, seen):
                    return True
        for f in v.den:
            for m in A.FACTORS[f]:
                for i, _ in m:
                    if touches(i, mp, seen):
                        return True
    return False


def rebuild_poly(p, mp, cache):
    r = A.RZERO
    for m, c in p.items():
        t = rconst(c)
        for i, e in m:
            t = A.rmul(t, A.rpow(rebuild_atom(i, mp, cache), e))
        r = A.radd(r, t)
    return r


def solve_for(d, taken):
    """d = 0  ->  (atom, value) for an atom occurring linearly with a constant coefficient"""
    if d.den:
        d = Rat(d.num)
    best = None
    for m, c in d.num.items():
        if len(m) == 1 and m[0][1] == 1:
            i = m[0][0]
            if i in taken:
                continue
            if any(i == j for k in d.num if k != m for j, _ in k):
                continue
            # the atom must not hide inside the arguments of the others
            if any(touches(j, {i: 1}, {}) for k in d.num if k != m for j, _ in k):
                continue
            s = (1 if not A.ATOMS[i].args else 0, i)
            if best is None or s > best[0]:
                rest = {k: -v / c for k, v in d.num.items() if k != m}
                best = (s, i, Rat(rest))
    return (best[1], best[2]) if best else None


# ------------------------------------------------------------------ cubes
PI_LO, PI_HI = Fraction(314159265, 10**8), Fraction(314159266, 10**8)
RNG = {"sin": (-1, 1), "cos": (-1, 1), "tanh": (-1, 1), "atan": (-PI_HI / 2, PI_HI / 2), "asin": (-PI_HI / 2, PI_HI / 2),
       "acos": (0, PI_HI), "atan2": (-PI_HI, PI_HI)}


def round32(c):
    try:
        return Fraction(struct.unpack('>f', struct.pack('>f', float(c)))[0])
    except OverflowError:
        return None


def atom_rng(at, depth=0):
    """closed interval of an atom's value, (None, None) when unknown; rounding to single precision is monotone"""
    r = RNG.get(at.fn)
    if r:
        return r
    if depth < 6:
        if at.fn in ("u2r", "s2r"):
            q = E.int_range(at.args[0], at.fn == "s2r")
            if q:
                return q
        if at.fn == "fptrunc32":
            x = at.args[0]
            if not x.den:
                lo, hi = poly_rng(x.num, depth + 1)
                return (None if lo is None else round32(lo)), (None if hi is None else round32(hi))
    return (0 if at.nonneg else None), None


def poly_rng(p, depth=0):
    lo = hi = Fraction(0)
    for m, c in p.items():
        a, b = Fraction(1), Fraction(1)
        for i, e in m:
            x, y = atom_rng(A.ATOMS[i], depth)
            if e % 2 == 0:
                y = None if x is None or y is None else max(abs(x), abs(y)) ** e
                x = 0
            elif e > 1:
                x = None if x is None else x ** e
                y = None if y is None else y ** e
            if None in (x, y, a, b):
                if x is not None and x >= 0 and a is not None and a >= 0:
                    a, b = a * x, None
                else:
                    a = b = None
                continue
            q = (a * x, a * y, b * x, b * y)
            a, b = min(q), max(q)
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


class Ctx:
    """facts of one cube; feasibility by interval reasoning on shared shapes and bounded elimination"""

    def __init__(self):
        self.iv = {}      # shape -> [lo, lo_strict, hi, hi_strict, set(ne)]
        self.lin = []     # (dict mono->coef, const, op) op in '>','='
        self.ints = {}
        self.eqs = []
        self.lits = []
        self.ops = []     # the relation each sign literal stands for

    def copy(self):
        c = Ctx()
        c.iv = {k: list(v) for k, v in self.iv.items()}
        c.lin = list(self.lin)
        c.ints = {k: dict(v) for k, v in self.ints.items()}
        c.eqs = list(self.eqs)
        c.lits = list(self.lits)
        c.ops = list(self.ops)
        return c

    def add(self, v, val, op=None):
        d = mt.VARS[v]
        self.lits.append((v, val))
        self.ops.append(op)
        if d[0] == "zero":
            return self.sign(d[1], "=" if val else "!")
        if d[0] == "pos":
            return op is None or self.sign(d[1], op)
        if d[0] == "ieq":
            return self.ieq(d[1], val)
        if d[0] == "ilt":
            return self.ilt(d[1], d[2], d[3], val)
        return True

    def sign(self, d, op):
        num, den = d.num, d.den
        if den:
            if op in ("=", "!"):
                if op == "=":
                    self.eqs.append(Rat(num, den))
                return self.sign(Rat(num), op)
            sg = 1
            for f, k in den.items():
                if k % 2 == 0:
                    continue
                t = self.known_sign(A.FACTORS[f])
                if t is None:
                    sg = 0
                    break
                sg *= t
            if sg:
                return self.sign(Rat(num), op if sg > 0 else FLIP[op])
            # sign of the denominator unknown: split off the constant part, key on the rest
            D = A.den_poly(den)
            ld = A.lead(D)
            c = num.get(ld, Fraction(0)) / D[ld]
            r = {m: num.get(m, 0) - c * D.get(m, 0) for m in num.keys() | D.keys()}
            r = {m: k for m, k in r.items() if k}
            if not r:
                return True
            lc = r[A.lead(r)]
            shape = ("den", frozenset((m, k / lc) for m, k in r.items()), frozenset(den.items()))
            if lc < 0:
                op = FLIP.get(op, op)
            return self.interval(shape, op, -c / lc)
        c = num.get(A.ONE, Fraction(0))
        rest = {m: k for m, k in num.items() if m}
        if not rest:
            return {"=": c == 0, "!": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}.get(op, True)
        lc = rest[A.lead(rest)]
        r2 = {m: k / lc for m, k in rest.items()}
        thr = -c / lc
        if lc < 0:
            op = FLIP.get(op, op)
        if not self.interval(frozenset(r2.items()), op, thr):
            return False
        # bounds known from the form
        s = A.poly_sign(r2)
        if s in ("+", "0+") and (op in ("<", "<=", "=") and (thr < 0 or (op == "<" and thr == 0))):
            return False
        if s == "+" and op in ("=", "<=") and thr <= 0:
            return False
        lo, hi = poly_rng(r2)
        if hi is not None and op in (">", ">=", "=") and (thr > hi or (op == ">" and thr == hi)):
            return False
        if lo is not None and op in ("<", "<=", "=") and (thr < lo or (op == "<" and thr == lo)):
            return False
        if op == "=":
            self.eqs.append(Rat(dict(num)))
        if op == "!":
            return True
        if op == "<":
            self.lin.append(({m: -k for m, k in r2.items()}, thr, ">"))
        elif op == "<=":
            self.lin.append(({m: -k for m, k in r2.items()}, thr, ">="))
        elif op in (">", ">="):
            self.lin.append((dict(r2), -thr, op))
        else:
            self.lin.append((dict(r2), -thr, "="))
        return self.fm()

    def known_sign(self, p):
        """sign of a polynomial under the facts of the cube: 1, -1 or None"""
        s = A.poly_sign(p)
        if s in ("+", "0+"):
            return 1      # a factor of a denominator in use is not zero
        if s in ("-", "0-"):
            return -1
        c = p.get(A.ONE, Fraction(0))
        rest = {m: k for m, k in p.items() if m}
        if not rest:
            return None
        lc = rest[A.lead(rest)]
        e = self.iv.get(frozenset((m, k / lc) for m, k in rest.items()))
        if e is None:
            return None
        thr = -c / lc
        sg = 1 if lc > 0 else -1
        if e[0] is not None and e[0] >= thr:
            return sg
        if e[2] is not None and e[2] <= thr:
            return -sg
        return None

    def interval(self, shape, op, thr):
        e = self.iv.setdefault(shape, [None, False, None, False, frozenset()])
        if op == "=":
            if thr in e[4]:
                return False
            e[0], e[1], e[2], e[3] = self.mx(e[0], e[1], thr, False) + self.mn(e[2], e[3], thr, False)
        elif op == ">":
            e[0], e[1] = self.mx(e[0], e[1], thr, True)
        elif op == "<":
            e[2], e[3] = self.mn(e[2], e[3], thr, True)
        elif op == ">=":
            e[0], e[1] = self.mx(e[0], e[1], thr, False)
        elif op == "<=":
            e[2], e[3] = self.mn(e[2], e[3], thr, False)
        else:
            e[4] = e[4] | {thr}
        if e[0] is not None and e[2] is not None:
            if e[0] > e[2] or (e[0] == e[2] and (e[1] or e[3])):
                return False
            if e[0] == e[2] and e[0] in e[4]:
                return False
        return True

    @staticmethod
    def mx(a, s, b, t):
        if a is None or b > a:
            return b, t
        if b == a:
            return a, s or t
        return a, s

    @staticmethod
    def mn(a, s, b, t):
        if a is None or b < a:
            return b, t
        if b == a:
            return a, s or t
        return a, s

    @staticmethod
    def near(cons):
        """the facts closest to the newest one, by shared monomials (leaving facts out only loses precision)"""
        last = cons[-1]
        out, monos = [last], set(last[0])
        todo = list(cons[:-1])[::-1]
        while todo and len(out) < 16:
            best = None
            for c in todo:
                new = len(c[0].keys() - monos)
                if new == len(c[0]) or len(monos) + new > 10:
                    continue
                k = (new, len(c[0]))
                if best is None or k < best[0]:
                    best = (k, c)
            if best is None:
                break
            out.append(best[1])
            monos |= best[1][0].keys()
            todo.remove(best[1])
        return out

    def fm(self):
        """bounded Fourier-Motzkin over monomials; False when the linear facts are contradictory"""
        cons = self.lin
        if len(cons) < 2:
            return True
        if len(cons) > 10 or len({m for l, _, _ in cons for m in l}) > 10:
            cons = self.near(cons)
        rows = []
        monos = set()
        for l, c, op in cons:
            rows.append((dict(l), c, op == ">"))
            if op == "=":
                rows.append(({m: -k for m, k in l.items()}, -c, False))
                rows[-2] = (dict(l), c, False)
            monos |= set(l)
        if len(monos) > 10:
            return True
        for m in list(monos):
            if all(e % 2 == 0 or A.ATOMS[i].nonneg for i, e in m):
                rows.append(({m: Fraction(1)}, Fraction(0), False))
            if len(m) == 1 and m[0][1] == 1:
                lo, hi = atom_rng(A.ATOMS[m[0][0]])
                if lo is not None:
                    rows.append(({m: Fraction(1)}, Fraction(-lo), False))
                if hi is not None:
                    rows.append(({m: Fraction(-1)}, Fraction(hi), False))
        # rows: sum l + c >= 0 (or > 0 when strict)
        while monos:
            m = min(monos, key=lambda q: sum(1 for r in rows if q in r[0]))
            monos.discard(m)
            pos = [r for r in rows if r[0].get(m, 0) > 0]
            neg = [r for r in rows if r[0].get(m, 0) < 0]
            rest = [r for r in rows if not r[0].get(m, 0)]
            if len(pos) * len(neg) > 400:
                return True
            for p in pos:
                for q in neg:
                    a, b = -q[0][m], p[0][m]
                    l = {}
                    for k in p[0].keys() | q[0].keys():
                        v = a * p[0].get(k, 0) + b * q[0].get(k, 0)
                        if v and k != m:
                            l[k] = v
                    c = a * p[1] + b * q[1]
                    st = p[2] or q[2]
                    if not l:
                        tol = Fraction(1, 10**13) * (abs(a * p[1]) + abs(b * q[1]))
                        if c < -tol or (st and c <= tol):
                            return False
                    else:
                        rest.append((l, c, st))
            rows = rest
            if len(rows) > 400:
                return True
        for l, c, st in rows:
            if not l and (c < 0 or (st and c == 0)):
                return False
        return True

    def intshape(self, d):
        c = d.p.get(A.ONE, 0)
        rest = frozenset((m, k) for m, k in d.p.items() if m)
        return rest, c

    def irec(self, shape, w):
        e = self.ints.get(shape)
        if e is None:
            e = {"ulo": 0, "uhi": (1 << w) - 1, "slo": -(1 << (w - 1)), "shi": (1 << (w - 1)) - 1, "ne": frozenset(), "eq": None}
            v = IntV(w, dict(shape))
            r = E.int_range(v, False)
            if r:
                e["ulo"], e["uhi"] = max(e["ulo"], r[0]), min(e["uhi"], r[1])
            r = E.int_range(v, True)
            if r:
                e["slo"], e["shi"] = max(e["slo"], r[0]), min(e["shi"], r[1])
            self.ints[shape] = e
        return e

    def icheck(self, e, w):
        M = 1 << w
        if e["eq"] is not None:
            q = e["eq"]
            s = A.signed_coef(w, q)
            return e["ulo"] <= q <= e["uhi"] and e["slo"] <= s <= e["shi"] and q not in e["ne"]
        # combine signed and unsigned views
        if e["slo"] >= 0:
            e["ulo"] = max(e["ulo"], e["slo"]); e["uhi"] = min(e["uhi"], e["shi"])
        if e["shi"] < 0:
            e["ulo"] = max(e["ulo"], e["slo"] + M); e["uhi"] = min(e["uhi"], e["shi"] + M)
        if e["uhi"] < M // 2:
            e["slo"] = max(e["slo"], e["ulo"]); e["shi"] = min(e["shi"], e["uhi"])
        if e["ulo"] >= M // 2:
            e["slo"] = max(e["slo"], e["ulo"] - M); e["shi"] = min(e["shi"], e["uhi"] - M)
        while e["ulo"] in e["ne"] and e["ulo"] <= e["uhi"]:
            e["ulo"] += 1
        while e["uhi"] in e["ne"] and e["ulo"] <= e["uhi"]:
            e["uhi"] -= 1
        return e["ulo"] <= e["uhi"] and e["slo"] <= e["shi"]

    def ieq(self, d, val):
        shape, c = self.intshape(d)
        w = d.w
        e = self.irec(shape, w)
        k = (-c) % (1 << w)
        if val:
            if e["eq"] is not None and e["eq"] != k:
                return False
            e["eq"] = k
        else:
            e["ne"] = e["ne"] | {k}
        return self.icheck(e, w)

    def ilt(self, signed, a, y, val):
        shape, c = self.intshape(a)
        w = a.w
        if c:
            # offset comparisons: keep as an opaque shape including the constant
            shape = frozenset(a.p.items())
            e = self.ints.get(shape)
            if e is None:
                e = {"ulo": 0, "uhi": (1 << w) - 1, "slo": -(1 << (w - 1)), "shi": (1 << (w - 1)) - 1, "ne": frozenset(), "eq": None}
                self.ints[shape] = e
            # x + c <u y with x ranging: transfer to the plain shape when it describes one interval
            base, _ = self.intshape(a)
            eb = self.irec(base, w)
            if not signed:
                M = 1 << w
                # x in [ -c, y-c ) mod M
                lo, hi = (-c) % M, (y - 1 - c) % M
                if val and lo <= hi:
                    eb["ulo"] = max(eb["ulo"], lo); eb["uhi"] = min(eb["uhi"], hi)
                    if not self.icheck(eb, w):
                        return False
                elif not val and lo > hi:
                    # complement is the interval (hi, lo)
                    eb["ulo"] = max(eb["ulo"], hi + 1); eb["uhi"] = min(eb["uhi"], lo - 1)
                    if not self.icheck(eb, w):
                        return False
                elif not val:
                    if eb["ulo"] >= lo:
                        eb["ulo"] = max(eb["ulo"], hi + 1)
                    if eb["uhi"] <= hi:
                        eb["uhi"] = min(eb["uhi"], lo - 1)
                    if not self.icheck(eb, w):
                        return False
                else:
                    # allowed: x >= lo or x <= hi
                    if eb["uhi"] < lo:
                        eb["uhi"] = min(eb["uhi"], hi)
                    if eb["ulo"] > hi:
                        eb["ulo"] = max(eb["ulo"], lo)
                    if not self.icheck(eb, w):
                        return False
        else:
            e = self.irec(shape, w)
        if signed:
            if val:
                e["shi"] = min(e["shi"], y - 1)
            else:
                e["slo"] = max(e["slo"], y)
        else:
            if val:
                e["uhi"] = min(e["uhi"], y - 1)
            else:
                e["ulo"] = max(e["ulo"], y)
        return self.icheck(e, w)


def show_lit(v, val):
    d = mt.VARS[v]
    k = d[0]
    if k == "zero":
        return "%s %s 0" % (A.show(d[1]), "=" if val else "!=")
    if k == "pos":
        return "%s %s 0" % (A.show(d[1]), ">" if val else "<")
    if k == "ieq":
        return "%s %s 0" % (A.show(d[1]), "=" if val else "!=")
    if k == "ilt":
        return "%s %s%s %s" % (A.show(d[2]), "<" if val else ">=", "s" if d[1] else "u", d[3])
    if k == "ilt2":
        return "%s %s%s %s" % (A.show(d[2]), "<" if val else ">=", "s" if d[1] else "u", A.show(d[3]))
    if k == "nan":
        return ("%s is NaN" if val else "%s is not NaN") % A.show_atom(d[1])
    return "%s%s" % ("" if val else "not ", " ".join(A.show(x) if isinstance(x, (Rat, IntV)) else str(x) for x in d))


class Mismatch:
    __slots__ = ("x", "y")

    def __init__(self, x, y):
        self.x, self.y = x, y

    def key(self):
        return ("M", self.x.key() if hasattr(self.x, "key") else self.x, self.y.key() if hasattr(self.y, "key") else self.y)


def value_neq(x, y, tol=None):
    """False when equal or the specification leaves it open, else a Mismatch"""
    if isU(y):
        return False
    if isU(x):
        return Mismatch(x, y)
    if isinstance(x, Rat) and isinstance(y, Rat):
        if A.rat_eq(x, y):
            return False
        return Mismatch(x, y)
    if isinstance(x, IntV) and isinstance(y, IntV):
        if x.key() == y.key():
            return False
        if x.w == 64 and y.w == 64:
            if E.int_trunc(x, 32).key() == E.int_trunc(y, 32).key() and \
                    E.int_trunc(E.ishift("lshr", x, 32), 32).key() == E.int_trunc(E.ishift("lshr", y, 32), 32).key():
                return False
        return Mismatch(x, y)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.obj is None or y.obj is None:
            return False if (x.obj is None) == (y.obj is None) else Mismatch(x, y)
        if x.obj.kind in ("heap", "alloca", "global", "fn") and y.obj.kind == x.obj.kind:
            return False
        return False if x.key() == y.key() else Mismatch(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        kx = x.key() if hasattr(x, "key") else x
        ky = y.key() if hasattr(y, "key") else y
        if kx == ky:
            return False
        if len(x) == len(y):
            same = True
            for p, q in zip(x, y):
                if p[0] != q[0] or len(p) != len(q):
                    same = False
                    break
                for a, b in zip(p[1:], q[1:]):
                    if value_neq(a, b):
                        same = False
                        break
                if not same:
                    break
            if same:
                return False
        return Mismatch(x, y)
    if x is y or x == y:
        return False
    return Mismatch(x, y)


class Stats:
    def __init__(self):
        self.leaf_pairs = 0
        self.cubes = 0
        self.infeasible = 0
        self.subst = 0


def solved(eqs):
    """substitution {atom: value} solving the equalities (as far as they are linear in an atom)"""
    mp = {}
    todo = list(eqs)
    for _ in range(2):
        rest = []
        for d in todo:
            try:
                dd = rebuild(d, mp, {}) if mp else d
            except (Unsupported, ZeroDivisionError):
                rest.append(d)
                continue
            if not dd.num:
                continue
            s = solve_for(dd, mp)
            if s is None:
                # a sum of nonnegative terms that vanishes makes every term vanish
                if A.poly_sign(dd.num) in ("0+", "0-"):
                    for m in dd.num:
                        if len(m) == 1:
                            mp[m[0][0]] = A.RZERO
                    continue
                rest.append(d)
                continue
            i, val = s
            mp = {k: rebuild(v, {i: val}, {}) for k, v in mp.items()}
            mp[i] = val
        todo = rest
    return mp


def linear_contradiction(lits):
    """equalities as a linear system over monomials: does it force an excluded zero or an impossible sign?"""
    rows = []

    def reduce(p):
        p = dict(p)
        for m, r in rows:
            k = p.get(m)
            if k:
                for mm, c in r.items():
                    n = p.get(mm, 0) - k * c
                    if n == 0:
                        p.pop(mm, None)
                    else:
                        p[mm] = n
        return p
    for d in lits:
        p = reduce(d)
        if not p:
            continue
        m = max(p, key=lambda m: (sum(e for _, e in m), m))
        if not m:
            return rows, True
        k = p[m]
        rows.append((m, {mm: c / k for mm, c in p.items()}))
    return reduce, False


def contradictory(ctx):
    """re-check the real-valued facts of the cube, equalities solved and denominators ordered last"""
    lits = []
    for (v, val), op in zip(ctx.lits, ctx.ops):
        k = mt.VARS[v][0]
        if k == "zero":
            op = "=" if val else "!"
        elif k != "pos":
            continue
        if op is not None:
            lits.append((v, op, mt.VARS[v]))
    if not any(d[1].den for _, _, d in lits) and not ctx.eqs:
        return False
    try:
        mp = solved(ctx.eqs)
    except Unsupported:
        mp = {}
    zs = [d[1].num for _, op, d in lits if op == "="]
    if len(zs) > 1:
        red, bad = linear_contradiction(zs)
        if bad:
            return True
        for _, op, d in lits:
            if op == "!" and not red(d[1].num):
                return True
    new = []
    for v, op, d in sorted(lits, key=lambda x: bool(x[2][1].den)):
        r = d[1]
        if mp:
            try:
                r = rebuild(r, mp, {})
            except (Unsupported, ZeroDivisionError):
                r = d[1]
        new.append((op, r))
    zs = [r.num for op, r in new if op == "=" and r.num and r.const() is None]
    red = None
    if zs:
        red, bad = linear_contradiction(zs)
        if bad:
            return True
    c = Ctx()
    for op, r in new:
        if red is not None and op != "=":
            n = red(r.num)
            if n != r.num:
                r = A._norm(n, r.den) if n else A.RZERO
        k = r.const() if hasattr(r, "const") else None
        if k is not None:
            t = Fraction(1, 10**13)
            if (op == "=" and abs(k) > t) or (op == "!" and k == 0) or (op == ">" and k <= 0) or (op == "<" and k >= 0):
                return True
            continue
        if not c.sign(r, op):
            return True
    return False


def infeasible_or(ctx, leaf):
    """is the mismatch spurious under the equalities of the cube?"""
    if isinstance(leaf, Mismatch) and ctx.eqs and same_under(ctx.eqs, leaf.x, leaf.y):
        return True
    if contradictory(ctx):
        return True
    differ = None
    if isinstance(leaf, Mismatch) and isinstance(leaf.x, IntV) and isinstance(leaf.y, IntV) and leaf.x.w == leaf.y.w:
        differ = (leaf.x, leaf.y)
    return polyhedra.cube_empty(ctx.lits, differ)


def same_under(eqs, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and not isU(x, y):
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            if p[0] != q[0] or len(p) != len(q):
                return False
            for a, b in zip(p[1:], q[1:]):
                if value_neq(a, b) and not same_under(eqs, a, b):
                    return False
        return True
    if not (isinstance(x, Rat) and isinstance(y, Rat)):
        return False
    try:
        mp = solved(eqs)
        x2 = rebuild(x, mp, {}) if mp else x
        y2 = rebuild(y, mp, {}) if mp else y
        if mp and A.rat_eq(x2, y2):
            return True
        d = A.rsub(x2, y2).num
        # functions whose arguments the equalities settle: asin(2 s c) where s c = 1/2
        fns = {i for m in d for i, _ in m if A.ATOMS[i].kind == "real" and len(A.ATOMS[i].args) == 1 and isinstance(A.ATOMS[i].args[0], Rat)}
        if fns:
            zs = [n for n in ((rebuild(e, mp, {}) if mp else e).num for e in eqs) if n and any(n)]
            red, bad = linear_contradiction(zs)
            m2 = {}
            for i in fns:
                a = A.ATOMS[i].args[0]
                n = red(a.num)
                if n != a.num and not any(n):
                    a2 = A._norm(n, a.den) if n else A.RZERO
                    m2[i] = refn(A.ATOMS[i], [a2])
            if m2 and A.rat_eq(rebuild(x2, m2, {}), rebuild(y2, m2, {})):
                return True
        for e in eqs:
            # the difference is a multiple of something that is zero here
            n = (rebuild(e, mp, {}) if mp else e).num
            if not n:
                continue
            if len(n) == 1:
                ids = {i for i, _ in next(iter(n))}
                if ids and all(ids <= {i for i, _ in m} for m in d):
                    return True
            elif len(n) <= len(d) and A.poly_divexact(d, n) is not None:
                return True
    except (Unsupported, ZeroDivisionError):
        return False
    return False


def find(d, stats, limit=MAX_CUBES):
    """first feasible cube leading to a leaf other than False: (ctx, leaf) or None"""
    count = [0]
    dead = set()

    def rec(n, ctx):
        if n is mt.FALSE:
            return None
        count[0] += 1
        if count[0] > limit:
            raise Unsupported("too many cubes (%d)" % limit)
        if mt.is_leaf(n):
            stats.cubes += 1
            if infeasible_or(ctx, n.val):
                stats.subst += 1
                return None
            return ctx, n.val
        zero = None
        if mt.VARS[n.v][0] == "pos" and ctx.lits and ctx.lits[-1][0] == n.v - 1:
            zero = ctx.lits[-1][1]
        if mt.VARS[n.v][0] != "pos" or zero is False:
            for val, child in ((True, n.hi), (False, n.lo)):
                r = step(n, ctx, val, child, (">" if val else "<") if zero is False else None)
                if r is not None:
                    return r
            return None
        # a sign test whose zero test (the variable just before it, see ev.sign_of) is true or was not asked: the diagram is
        # a reduced one (a |d|), and where the value is zero both its branches say the same (ev's zero reduction), so a
        # mismatch there shows in both of them
        if zero is None:
            for val, child in ((True, n.hi), (False, n.lo)):
                r = step(n, ctx, val, child, ">" if val else "<")
                if r is not None:
                    return r
        if n.hi is mt.FALSE or n.lo is mt.FALSE:
            return None
        op = "=" if zero is None else None
        r = step(n, ctx, False, n.lo, op)
        return r and step(n, ctx, True, n.hi, op)

    def step(n, ctx, val, child, op):
        if child is mt.FALSE:
            return None
        c2 = ctx.copy()
        if not c2.add(n.v, val, op):
            stats.infeasible += 1
            return None
        return rec(child, c2)

    return rec(d, Ctx())


def cube_text(ctx):
    return [show_lit(v, val) for v, val in ctx.lits]


# ------------------------------------------------------------------ running a function
class Side:
    pass


def make_args(f, shared, sizes):
    out = []
    for i, (t, nm, at) in enumerate(f.params):
        key = "a%d" % i
        if t[0] == 'ptr':
            o = shared.get(key)
            if o is None:
                o = E.Obj(key, key, "arg")
                shared[key] = o
            sz = None
            for a in ("dereferenceable", "dereferenceable_or_null"):
                if a in at:
                    sz = int(at[a][0])
            if sz is not None:
                o.size = max(o.size or 0, sz)
            out.append(mt.leaf(Ptr(o, A.iconst(64, 0))))
        elif t == ('i', 1):
            out.append(E.bit0(mt.leaf(A.iinput(8, key))))
            E.RANGES[A.input_atom(key, "i8").id] = (0, 1)
        elif t[0] == 'i':
            out.append(mt.leaf(A.iinput(t[1], key)))
            if 'range' in at:
                pass
        elif t[0] == 'f':
            out.append(mt.leaf(A.ratom(A.input_atom(key + ("" if t[1] == 64 else ":f%d" % t[1])))))
        elif t[0] in ('arr', 'vec'):
            xs = []
            for j in range(t[1]):
                e = t[2]
                if e[0] == 'f':
                    xs.append(mt.leaf(A.ratom(A.input_atom("%s.%d" % (key, j) + ("" if e[1] == 64 else ":f%d" % e[1])))))
                elif e[0] == 'i':
                    xs.append(mt.leaf(A.iinput(e[1], "%s.%d" % (key, j))))
                else:
                    raise Unsupported("argument type")
            out.append(tuple(xs))
        elif t[0] == 'st':
            xs = []
            for j, e in enumerate(t[2]):
                if e[0] == 'f':
                    xs.append(mt.leaf(A.ratom(A.input_atom("%s.%d" % (key, j)))))
                elif e[0] == 'i' and e[1] > 1:
                    xs.append(mt.leaf(A.iinput(e[1], "%s.%d" % (key, j))))
                else:
                    raise Unsupported("argument type")
            out.append(tuple(xs))
        else:
            raise Unsupported("argument type %r" % (t,))
    return out


def analyse(M, name, shared, tag):
    an = E.Analysis(M, tag)
    fname = M.aliases.get('@' + name, '@' + name)
    f = M.funcs[fname]
    s = Side()
    s.an = an
    s.name = name
    for i, (t, nm, at) in enumerate(f.params):
        if 'range' in at and t[0] == 'i':
            tx = [x for x in at['range'] if x not in (',',) and not x.startswith('i')]
            try:
                lo, hi = int(tx[0]), int(tx[1])
                if 0 <= lo < hi:
                    E.RANGES[A.input_atom("a%d" % i, "i%d" % t[1]).id] = (lo, hi - 1)
            except (ValueError, IndexError):
                pass
    an.shared = shared
    st = E.State()
    s.ret, s.st, s.cond = an.run(fname, make_args(f, shared, None), st, mt.TRUE)
    s.panic = mt.FALSE
    for c, t in an.panics:
        s.panic = mt.or_(s.panic, c)
    s.assume = mt.TRUE
    for c, a in an.assumes:
        s.assume = mt.and_(s.assume, mt.or_(mt.not_(c), a))
    return s


def flatten(v, out, path=""):
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            flatten(x, out, path + ".%d" % i)
    elif v is not None:
        out.append((path, v))
    return out


def cell_type(kind, sz):
    if kind == 'ptr':
        return ('ptr',)
    if kind[0] == 'f':
        return ('f', int(kind[1:]))
    return ('i', int(kind[1:]))


def arg_objs(s, shared):
    objs = {o for o in s.st.mem if o.kind == "arg"}
    return objs


def compare(I, S, shared, stats):
    """list of violations (dicts)"""
    out = []
    base = mt.and_(I.assume, S.assume)

    def report(kind, where, hit):
        ctx, leaf = hit
        d = {"kind": kind, "where": where, "when": cube_text(ctx)}
        if isinstance(leaf, Mismatch):
            d["implementation"] = show_val(leaf.x)
            d["expected"] = show_val(leaf.y)
            if DEBUG and isinstance(leaf.x, E.A.Rat) and isinstance(leaf.y, E.A.Rat):
                d["difference"] = show_val(E.A.rsub(leaf.x, leaf.y))
        out.append(d)

    def chk(kind, where, diff, cond):
        d = mt.apply(("guard",), lambda c, v: mt.leaf(v) if c else mt.FALSE, cond, diff)
        if d is mt.FALSE:
            return True
        h = find(d, stats)
        if h is None:
            return True
        report(kind, where, h)
        return False
    # panic behaviour
    pd = mt.ite(I.panic, mt.not_(S.panic), S.panic)
    pc = mt.and_(base, pd)
    if pc is not mt.FALSE:
        h = find(pc, stats)
        if h is not None:
            ctx, _ = h
            who = [t for c, t in I.an.panics] or ["(none)"]
            out.append({"kind": "panic", "where": "panics " + ", ".join(sorted(set(who))[:4]) + " vs expected " +
                        (", ".join(sorted({t for c, t in S.an.panics})[:4]) or "(none)"), "when": cube_text(ctx)})
    live = mt.and_(base, mt.and_(I.cond, S.cond))
    # return value
    ri, rs = flatten(I.ret, []), flatten(S.ret, [])
    if len(ri) != len(rs):
        out.append({"kind": "shape", "where": "return value", "when": []})
    for (p, x), (_, y) in zip(ri, rs):
        stats.leaf_pairs += 1
        diff = mt.apply("vneq", lambda a, b: value_leaf(a, b), x, y)
        chk("value", "return" + p, diff, live)
    # memory reachable from arguments
    objs = {}
    for o in list(arg_objs(I, shared)) + list(arg_objs(S, shared)):
        objs[o.uid] = o
    for uid, o in sorted(objs.items()):
        ci = I.st.mem.get(o, {})
        cs = S.st.mem.get(o, {})
        edges = set()
        spans = []
        for m in (ci, cs):
            for k, c in m.items():
                if c[1] == 'raw' and c[2][0] is o and c[2][1] == k:
                    continue
                edges |= {k, k + c[0]}
                spans.append((k, k + c[0], c))
        edges = sorted(edges)
        pieces = []
        for lo, hi in zip(edges, edges[1:]):
            cov = [s for s in spans if s[0] <= lo and hi <= s[1]]
            if not cov:
                continue
            if any(s[2][1] == 'bad' for s in cov):
                raise Unsupported("unreadable cell %s+%d" % (o.name, lo))
            if all(s[2][1] == 'pad' for s in cov):
                continue
            while lo < hi:
                n = min(8, hi - lo)
                while n & (n - 1) or lo % n:
                    n -= 1
                pieces.append((lo, n, cov))
                lo += n
        for k, sz, cov in pieces:
            kinds = [s[2][1] for s in cov if s[0] == k and s[1] == k + sz and s[2][1] not in ('raw', 'pad')]
            if kinds:
                f = [x for x in kinds if x[0] == 'f']
                t = cell_type((f or kinds)[0], sz)
            else:
                t = ('i', 8 * sz)
                raws = [s for s in cov if s[2][1] == 'raw']
                if raws:
                    src = raws[0][2][2]
                    rc = src[0].init.get((src[1] + k - raws[0][0], sz))
                    if rc is not None:
                        t = cell_type(rc[1], sz)
                    elif len(raws) == len(cov) and sz == 8 and raws[0][2][0] == 8:
                        t = ('f', 64)
            x = I.an.read_cells(o, ci, k, t)
            y = S.an.read_cells(o, cs, k, t)
            stats.leaf_pairs += 1
            diff = mt.apply("vneq", lambda a, b: value_leaf(a, b), x, y)
            chk("value", "%s+%d" % (o.name, k), diff, live)
    # effects
    if I.st.events is not S.st.events:
        stats.leaf_pairs += 1
        diff = mt.apply("vneq", lambda a, b: value_leaf(a, b), I.st.events, S.st.events)
        chk("effects", "ordered effects", diff, live)
    return out


def value_leaf(a, b):
    r = value_neq(a, b)
    return mt.FALSE if r is False else mt.leaf(r)


def show_val(v):
    if isinstance(v, tuple) and not isinstance(v, str):
        return "; ".join("%s(%s)" % (it[0], ", ".join(A.show(x) for x in it[1:])) for it in v) if v and isinstance(v[0], tuple) else str(v)
    return A.show(v) if isinstance(v, (Rat, IntV)) else str(v)


def check_oob(I, stats):
    out = []
    for c, t in I.an.oob:
        c = mt.and_(c, I.assume)
        if c is mt.FALSE:
            continue
        h = find(c, stats)
        if h is not None:
            out.append({"kind": "memory", "where": t, "when": cube_text(h[0])})
    return out


def check_nopanic(I, stats, ignore=()):
    out = []
    for c, t in I.an.panics:
        c = mt.and_(c, I.assume)
        if c is mt.FALSE:
            continue
        h = find(c, stats)
        if h is not None:
            out.append({"kind": "panic", "where": t, "when": cube_text(h[0])})
    return out


GATED = ("avx512f", "avx2", "fma", "avx", "f16c", "bmi1", "bmi2", "sse4.2", "sse4.1", "ssse3", "sse3")
IMPLIED_BY = {"avx": ("fma", "avx2", "f16c", "avx512f"), "sse4.2": ("avx",), "sse4.1": ("sse4.2", "avx"), "ssse3": ("sse4.1", "sse4.2", "avx"), "sse3": ("ssse3", "sse4.1", "sse4.2", "avx"), "avx2": ("avx512f",)}


def features(M, name):
    f = M.funcs.get(M.aliases.get(name, name))
    out = set()
    for g in (f.attrs if f else []):
        m = re.search(r'"target-features"="([^"]*)"', M.attrs.get(g, ""))
        if m:
            for x in m.group(1).split(","):
                if x.startswith("+"):
                    out.add(x[1:])
    return out


def check_guard(I, M, shared, stats):
    """every call into code compiled for an optional CPU feature is dominated by its detection"""
    out = []
    det = {}

    def detected(f):
        if f not in det:
            n = "feat__" + f.replace(".", "_")
            if '@' + n not in M.funcs and '@' + n not in M.aliases:
                det[f] = mt.FALSE
            else:
                r = analyse(M, n, shared, "f:")
                det[f] = r.ret
            for g in IMPLIED_BY.get(f, ()):
                det[f] = mt.or_(det[f], detected(g))
        return det[f]
    n = 0
    for callee, cond, caller in I.an.callconds:
        need = features(M, callee) - features(M, caller)
        for f in GATED:
            if f not in need or any(f in IMPLIED_BY and g in need for g in IMPLIED_BY.get(f, ())):
                continue
            n += 1
            bad = mt.and_(mt.and_(cond, I.assume), mt.not_(detected(f)))
            if bad is mt.FALSE:
                continue
            h = find(bad, stats)
            if h is not None:
                out.append({"kind": "guard", "where": "call of %s code without detecting %s" % (E_short(callee), f), "when": cube_text(h[0])})
    return out, n


def E_short(name):
    from .calls import short
    return short(name)
