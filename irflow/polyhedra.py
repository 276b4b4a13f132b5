"""Emptiness of a guard over machine integers: a polyhedral abstraction with wrap-around counts.

Every machine word is read as a mathematical integer: a linear form over its atoms minus 2^w times a wrap count; quotients and
remainders by constants contribute their defining inequalities.  A guard is empty when interval propagation or the rational
relaxation of these inequalities is contradictory for every combination of wrap counts and signs.
"""
from fractions import Fraction
from math import gcd
from . import algebra as A
from . import mt
from . import ev as E
from .algebra import IntV

MAX_NODES = 1500
MAX_LP = 160
MAX_SPLIT = 3


class Give(Exception):
    pass


class Empty(Exception):
    pass


class Sys:
    def __init__(self, hints, forms_known=None):
        self.known = forms_known or {}     # linear form -> interval implied by a literal (found in an earlier round)
        self.learn = {}
        self.floors = {}          # normalised dividend -> (quotient form, offset)
        self.signs = {}           # remainder form -> (divisor, variable that is 1 when it is negative)
        self.floorvar = {}        # quotient variable -> (dividend, divisor)
        self.lo, self.hi = [], []
        self.cons = []            # (dict, const): sum + const >= 0
        self.cases = []           # list of alternatives: [[cons...], ...]
        self.atoms = {}           # atom id -> linear form
        self.forms = {}           # (key, signed) -> linear form
        self.hints = hints        # name -> (lo, hi) known bounds
        self.names = []
        self.folded = {}          # roundings of truncated quotients that the literals decide
        self.rems = {}            # quotient variable -> (divisor, remainder form, lo, hi)

    def new(self, name, lo, hi):
        h = self.hints.get(name)
        if h:
            lo, hi = max(lo, h[0]), min(hi, h[1])
        if lo > hi:
            raise Empty()
        self.lo.append(lo)
        self.hi.append(hi)
        self.names.append(name)
        if len(self.lo) > 120:
            raise Give()
        return len(self.lo) - 1

    def bounds(self, l, skip=()):
        """interval of a linear form, regrouping dividend - divisor * quotient into remainders"""
        lo, hi = self.bounds0(l)
        if self.known and len(l[0]) > 1:
            for sg in (1, -1):
                b = self.known.get(self.fkey(l, sg))
                if b:
                    x, y = (b[0], b[1]) if sg > 0 else (-b[1], -b[0])
                    lo, hi = max(lo, x + l[1]), min(hi, y + l[1])
        for (v, c), r in self.rems.items():
            k = l[0].get(v)
            if k and v not in skip and len(skip) < 3 and k % c == 0:
                q = -k // c
                a, b = self.bounds(sub(l, ({x: q * y for x, y in r[1][0].items()}, q * r[1][1])), skip + (v,))
                x, y = (q * r[2], q * r[3]) if q > 0 else (q * r[3], q * r[2])
                lo, hi = max(lo, a + x), min(hi, b + y)
        return lo, hi

    def fkey(self, l, sg=1):
        return frozenset((self.names[v], sg * k) for v, k in l[0].items())

    def note(self, l):
        """the literal l >= 0"""
        if len(l[0]) < 2:
            return
        k = self.fkey(l)
        lo, hi = self.learn.get(k, (-(1 << 200), 1 << 200))
        self.learn[k] = (max(lo, -l[1]), hi)
        k = self.fkey(l, -1)
        lo, hi = self.learn.get(k, (-(1 << 200), 1 << 200))
        self.learn[k] = (lo, min(hi, l[1]))

    def bounds0(self, l):
        d, c = l
        lo = hi = c
        for v, k in d.items():
            if k > 0:
                lo += k * self.lo[v]
                hi += k * self.hi[v]
            else:
                lo += k * self.hi[v]
                hi += k * self.lo[v]
        return lo, hi

    def wrap(self, L, w, signed, name):
        """the representative of L modulo 2^w"""
        M = 1 << w
        rlo, rhi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        lo, hi = self.bounds(L)
        if lo < rlo or hi > rhi:
            # any representative modulo 2^w: regroup into remainders and drop multiples of 2^w
            best = L
            for (v, c), r in self.rems.items():
                k = L[0].get(v)
                if k and k % c == 0:
                    q = -k // c
                    g = ({x: q * y for x, y in r[1][0].items()}, q * r[1][1])
                    d, c = sub(L, g)
                    d = {x: (y + (M >> 1)) % M - (M >> 1) for x, y in d.items()}
                    L2 = sub(({x: y for x, y in d.items() if y}, c), neg(g))
                    b = self.bounds(L2)
                    if b[1] - b[0] < hi - lo:
                        (lo, hi), best = b, L2
            L = best
        tmin = -((rhi - lo) // M)
        tmax = (hi - rlo) // M
        d, c = L
        if tmin == tmax:
            return d, c - M * tmin
        if lo > hi or tmin > tmax:
            raise Empty()
        t = self.new(("t", name, signed, self.fkey(L), c), tmin, tmax)
        tmin, tmax = self.lo[t], self.hi[t]
        r = dict(d)
        r[t] = r.get(t, 0) - M
        r = (r, c)
        self.cons.append(sub(r, ({}, rlo)))
        self.cons.append(sub(({}, rhi), r))
        if 0 < tmax - tmin <= MAX_SPLIT:
            self.cases.append([[({t: 1}, -k), ({t: -1}, k)] for k in range(tmin, tmax + 1)])
        return r

    def val(self, a, signed):
        k = (a.key(), signed)
        r = self.forms.get(k)
        if r is None:
            L = self.lin(a)
            r = self.forms[k] = self.wrap(L, a.w, signed, a.key())
        return r

    def lin(self, a):
        d, c = {}, 0
        for m, k in a.p.items():
            k = A.signed_coef(a.w, k)
            if not m:
                c += k
                continue
            if len(m) == 1 and m[0][1] == 1:
                l = self.aval(A.ATOMS[m[0][0]], a.w)
            else:
                key = ("m", m)
                l = self.atoms.get(key)
                if l is None:
                    l = self.atoms[key] = ({self.new(key, -(1 << (a.w - 1)), (1 << (a.w - 1)) - 1): 1}, 0)
            for v, x in l[0].items():
                d[v] = d.get(v, 0) + k * x
                if not d[v]:
                    del d[v]
            c += k * l[1]
        return d, c

    def quot(self, n, c, mode, name, at):
        """quotient of the linear form n by the constant c > 0"""
        lo, hi = self.bounds(n)
        if mode == "trunc" and lo >= 0:
            mode = "floor"
        if mode == "floor":
            sg = self.signs.get((frozenset(n[0].items()), n[1]))
            if sg and c >= sg[0]:
                return {sg[1]: -1}, 0
            # floor((c U + R) / c) = U + floor(R / c), shared between all dividends with the same R
            R = ({v: k % c for v, k in n[0].items() if k % c}, n[1] % c)
            key = (c, frozenset(R[0].items()), R[1])
            U = ({v: k // c for v, k in n[0].items() if k // c}, n[1] // c)
            if key in self.floors:
                q0, U0 = self.floors[key]
                return sub(q0, sub(U0, U))
            if lo // c == hi // c:
                self.cons += [sub(n, ({}, lo)), sub(({}, hi), n)]
                return {}, lo // c
            if len(n[0]) == 1:
                (v, k), = n[0].items()
                if k == 1 and v in self.floorvar:
                    # floor((floor(m / b) + k) / c) = floor((m + b k) / (b c))
                    m, b = self.floorvar[v]
                    q = self.quot((m[0], m[1] + b * n[1]), b * c, "floor", name, at)
                    r = sub(n, ({x: c * y for x, y in q[0].items()}, c * q[1]))
                    self.cons += [r, sub(({}, c - 1), r)]
                    if len(q[0]) == 1 and next(iter(q[0].values())) == 1:
                        self.rems.setdefault((next(iter(q[0])), c), (c, r, 0, c - 1))
                    self.floors[key] = (q, U)
                    return q
            q = self.new(name, lo // c, hi // c)
            self.floorvar[q] = (n, c)
            r = sub(n, ({q: c}, 0))
            b = self.bounds(r)
            self.rems[(q, c)] = (c, r, max(0, b[0]), min(c - 1, b[1]))
            self.cons += [r, sub(({}, c - 1), r)]
            self.floors[key] = (({q: 1}, 0), U)
            return {q: 1}, 0
        key = ("t", c, frozenset(n[0].items()), n[1])
        if key in self.floors:
            return self.floors[key]
        # trunc(n / c) = floor(n / c) + d with d in {0, 1}, and d = 1 exactly when the remainder n - c trunc(n / c) is negative
        F = self.quot(n, c, "floor", (name, "floor"), at)
        fixed = self.hints.get((name, "up"))
        if fixed and fixed[0] == fixed[1]:
            # the literals decide the sign of the remainder: the quotient is the floor, or the floor plus one
            d = self.folded[(name, "up")] = fixed[0]
            q = F[0], F[1] + d
            r = sub(n, ({v: c * k for v, k in q[0].items()}, c * q[1]))
            self.cons += [sub(r, ({}, -(c - 1))), sub(({}, c - 1), r)]
            self.cons += [neg(n), sub(({}, -1), r)] if d else []
            self.floors[key] = q
            return q
        d = self.new((name, "up"), 0, 1)
        q = sub(F, ({d: -1}, 0))
        r = sub(n, ({v: c * k for v, k in q[0].items()}, c * q[1]))
        fl = sub(n, ({v: c * k for v, k in F[0].items()}, c * F[1]))
        self.cases.append([[n, ({d: -1}, 0)], [sub(({}, -1), n), ({d: -1}, 0), neg(fl)], [sub(({}, -1), n), ({d: 1}, -1), sub(fl, ({}, 1))]])
        self.cons += [sub(r, ({}, -(c - 1))), sub(({}, c - 1), r)]
        self.rems[(d, c)] = (c, r, -(c - 1), c - 1)
        self.signs[(frozenset(r[0].items()), r[1])] = (c, d)
        self.floors[key] = q
        return q

    def mask(self, a):
        """bits that may be set, from the shape of the word or from its interval"""
        m = mask_of(a)
        if a.const() is None:
            lo, hi = self.bounds(self.val(a, False))
            if lo >= 0:
                m &= (1 << max(hi, 0).bit_length()) - 1
        return m

    def rem(self, n, k, name):
        """n modulo 2^k"""
        if k == 0:
            return {}, 0
        key = ("q", k, tuple(sorted(n[0].items())), n[1])
        r = self.forms.get(key)
        if r is None:
            q = self.quot(n, 1 << k, "floor", (name, "rem", k), None)
            r = self.forms[key] = sub(n, ({v: x << k for v, x in q[0].items()}, q[1] << k))
        return r

    def aval(self, at, w):
        l = self.atoms.get(at.id)
        if l is not None:
            return l
        w = int(at.kind[1:]) if at.kind and at.kind[0] == "i" and at.kind[1:].isdigit() else w
        fn, g = at.fn, at.args
        name = ("a", at.id)
        if fn == "sext" and g:
            l = self.val(g[0], True)
        elif fn == "zext" and g:
            l = self.val(g[0], False)
        elif fn == "trunc" and g and isinstance(g[0], IntV):
            l = self.lin(g[0])          # only ever used modulo 2^w: any representative will do
        elif fn == "sdiv" and g and g[1].sconst() and g[1].sconst() > 0:
            l = self.quot(self.val(g[0], True), g[1].sconst(), "trunc", name, at)
        elif fn == "sdiv" and g and g[1].sconst() and g[1].sconst() < 0:
            l = neg(self.quot(self.val(g[0], True), -g[1].sconst(), "trunc", (name, "pos"), at))
        elif fn == "udiv" and g and g[1].const():
            l = self.quot(self.val(g[0], False), g[1].const(), "floor", name, at)
        elif fn == "lshr" and g and g[1].const() is not None:
            l = self.quot(self.val(g[0], False), 1 << g[1].const(), "floor", name, at)
        elif fn == "fdiv" and g and g[1].const() is not None:
            l = self.quot(self.val(g[0], True), g[1].const(), "floor", name, at)
        elif fn == "ashr" and g and g[1].const() is not None:
            l = self.quot(self.val(g[0], True), 1 << g[1].const(), "floor", name, at)
        elif fn == "and" and g and g[1].const() is not None and block(g[1].const(), w):
            # x & (2^j - 2^k)  =  x mod 2^j - x mod 2^k, for any representative of x
            k, j = block(g[1].const(), w)
            n = self.lin(g[0])
            l = sub(self.rem(n, j, name) if j < w else n, self.rem(n, k, name))
        elif fn == "or" and g and len(g) == 2 and not (self.mask(g[0]) & self.mask(g[1])):
            x, y = self.lin(g[0]), self.lin(g[1])
            l = sub(x, neg(y))
        else:
            M = 1 << w
            r = E.satom_range(at)
            if r is None:
                r = E.atom_range(at)
            if r is None:
                r = (-(M >> 1), (M >> 1) - 1)
            l = ({self.new(name, r[0], r[1]): 1}, 0)
            if fn in ("udiv", "urem") and g and len(g) == 2:
                # quotient or remainder by an unknown positive divisor
                n, d = self.val(g[0], False), self.val(g[1], False)
                v = next(iter(l[0]))
                self.lo[v] = max(self.lo[v], 0)
                self.hi[v] = max(self.hi[v], self.bounds(n)[1]) if r[1] == (M >> 1) - 1 else self.hi[v]
                self.cons.append(sub(n, l))
                if fn == "urem":
                    self.cons.append(sub(sub(d, l), ({}, 1)))
        self.atoms[at.id] = l
        return l

    def literal(self, d, val):
        self.literal0(d, val)
        if d[0] == "ieq" and val:
            self.note(self.cons[-1])
            self.note(self.cons[-2])
        elif d[0] != "ieq":
            self.note(self.cons[-1])

    def literal0(self, d, val):
        k = d[0]
        if k == "ieq":
            v = self.val(d[1], True)
            if val:
                self.cons += [v, neg(v)]
            else:
                self.nonzero(v)
        elif k == "ilt":
            v = self.val(d[2], bool(d[1]))
            y = ({}, d[3])
            sg = self.signs.get((frozenset(v[0].items()), v[1]))
            if sg and (y[1] == 0 or (val and y[1] < 0) or (not val and y[1] > 0)) and d[1]:
                self.cons.append(({sg[1]: 1}, -1) if val else ({sg[1]: -1}, 0))
            self.cons.append(sub(sub(y, v), ({}, 1)) if val else sub(v, y))
        elif k == "ilt2":
            v, y = self.val(d[2], bool(d[1])), self.val(d[3], bool(d[1]))
            self.cons.append(sub(sub(y, v), ({}, 1)) if val else sub(v, y))

    def nonzero(self, v):
        self.cases.append([[sub(v, ({}, 1))], [sub(({}, -1), v)]])


def block(m, w):
    """(k, j) when m is the contiguous bit block 2^j - 2^k"""
    if m <= 0:
        return None
    k = (m & -m).bit_length() - 1
    x = (m >> k) + 1
    return (k, k + x.bit_length() - 1) if not x & (x - 1) else None


def mask_of(a):
    """bits of the word that may be set"""
    full = (1 << a.w) - 1
    if a.const() is not None:
        return a.const() & full
    if len(a.p) != 1:
        return full
    (m, k), = a.p.items()
    if len(m) != 1 or m[0][1] != 1 or k <= 0 or k & (k - 1):
        return full
    at = A.ATOMS[m[0][0]]
    r = full
    if at.fn == "and" and at.args[1].const() is not None:
        r = at.args[1].const() & mask_of(at.args[0])
    elif at.fn == "zext":
        r = mask_of(at.args[0])
    elif at.fn == "or":
        r = mask_of(at.args[0]) | mask_of(at.args[1])
    elif at.fn == "lshr" and at.args[1].const() is not None:
        r = mask_of(at.args[0]) >> at.args[1].const()
    return (r * k) & full


def sub(a, b):
    d = dict(a[0])
    for v, k in b[0].items():
        d[v] = d.get(v, 0) - k
        if not d[v]:
            del d[v]
    return d, a[1] - b[1]


def neg(a):
    return {v: -k for v, k in a[0].items()}, -a[1]


def propagate(lo, hi, cons, rounds=12):
    """tighten integer bounds; False when empty"""
    for _ in range(rounds):
        ch = False
        for d, c in cons:
            # sum d + c >= 0
            tot = c
            for v, k in d.items():
                tot += k * (hi[v] if k > 0 else lo[v])
            if tot < 0:
                return False
            for v, k in d.items():
                rest = tot - k * (hi[v] if k > 0 else lo[v])
                # k*x >= -rest
                if k > 0:
                    b = -(rest // k)
                    if b > lo[v]:
                        lo[v] = b
                        ch = True
                else:
                    b = rest // (-k)
                    if b < hi[v]:
                        hi[v] = b
                        ch = True
                if lo[v] > hi[v]:
                    return False
        if not ch:
            break
    return True


def lp_empty(lo, hi, cons):
    """rational infeasibility by the dual simplex method (smallest-subscript rule)"""
    n = len(lo)
    used = sorted({v for d, _ in cons for v in d})
    idx = {v: i for i, v in enumerate(used)}
    rows = []
    for d, c in cons:
        # -sum d x' <= c + sum d lo
        b = Fraction(c + sum(k * lo[v] for v, k in d.items()))
        rows.append(({idx[v]: Fraction(-k) for v, k in d.items()}, b))
    for v in used:
        rows.append(({idx[v]: Fraction(1)}, Fraction(hi[v] - lo[v])))
    m, n = len(rows), len(used)
    basis = [n + i for i in range(m)]
    T = []
    for i, (d, b) in enumerate(rows):
        T.append([dict(d), b])
    # nonbasic columns are identified by variable ids; T[i][0]: coefficients of nonbasic variables, basic var = b - sum
    for _ in range(3000):
        r = None
        for i in range(m):
            if T[i][1] < 0 and (r is None or basis[i] < basis[r]):
                r = i
        if r is None:
            return False
        row, b = T[r]
        col = None
        for v, k in row.items():
            if k < 0 and (col is None or v < col):
                col = v
        if col is None:
            return True
        p = row.pop(col)
        # col = (b - basic - sum rest)/p
        new = {v: k / p for v, k in row.items()}
        new[basis[r]] = 1 / p
        nb = b / p
        T[r] = [new, nb]
        leaving = basis[r]
        basis[r] = col
        for i in range(m):
            if i == r:
                continue
            k = T[i][0].pop(col, None)
            if k:
                di = T[i][0]
                for v, x in new.items():
                    y = di.get(v, 0) - k * x
                    if y:
                        di[v] = y
                    else:
                        di.pop(v, None)
                T[i][1] -= k * nb
    return False


def tight(con):
    d, c = con
    if not d:
        return con
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        return {v: k // g for v, k in d.items()}, c // g
    return con


def fold(con, lo, fixed):
    d, c = con
    if not any(v in fixed for v in d):
        return tight(con)
    return tight(({v: k for v, k in d.items() if v not in fixed}, c + sum(k * lo[v] for v, k in d.items() if v in fixed)))


class Budget:
    def __init__(self):
        self.nodes = 0
        self.lps = 0


def search(lo, hi, cons, cases, bud):
    """True when empty"""
    bud.nodes += 1
    if bud.nodes > MAX_NODES:
        raise Give()
    lo, hi = list(lo), list(hi)
    if not propagate(lo, hi, cons):
        return True
    # fixed variables become constants, so that divisibility sharpens the rest
    fixed = {v for v in range(len(lo)) if lo[v] == hi[v]}
    cons = [fold(c, lo, fixed) for c in cons]
    if any(not d and c < 0 for d, c in cons):
        return True
    cons = [c for c in cons if c[0]]
    cases = [[[fold(c, lo, fixed) for c in alt] for alt in alts] for alts in cases]
    # prune alternatives contradicted by the bounds
    rest = []
    extra = []
    for alts in cases:
        ok = []
        for alt in alts:
            l2, h2 = list(lo), list(hi)
            if propagate(l2, h2, alt, 2):
                ok.append(alt)
        if not ok:
            return True
        if len(ok) == 1:
            extra += ok[0]
        else:
            rest.append(ok)
    if extra:
        return search(lo, hi, cons + extra, rest, bud)
    bud.lps += 1
    if bud.lps > MAX_LP:
        raise Give()
    if lp_empty(lo, hi, cons):
        return True
    if not rest:
        # integrality: branch on a variable with few values left
        used = {v for d, _ in cons for v in d}
        v = min((x for x in used if 0 < hi[x] - lo[x] <= MAX_SPLIT), key=lambda x: hi[x] - lo[x], default=None)
        if v is None:
            return False
        rest = [[[({v: 1}, -k), ({v: -1}, k)] for k in range(lo[v], hi[v] + 1)]]
    alts = min(rest, key=len)
    rest = [x for x in rest if x is not alts]
    for alt in alts:
        if not search(lo, hi, cons + alt, rest, bud):
            return False
    return True


def empty(lits, differ=None):
    """lits: [(descriptor, truth)] of integer guards; differ: machine words (x, y) assumed different"""
    global LAST
    hints = {}
    ints = [(d, v) for d, v in lits if d[0] in ("ieq", "ilt", "ilt2")]
    if not ints and differ is None:
        return False
    known = {}
    try:
        for rnd in range(6):
            s = LAST = Sys(hints, known)
            for d, v in ints:
                s.literal(d, v)
            if differ is not None:
                s.nonzero(s.val(A.iadd(differ[0], differ[1], -1), True))
            cons = [tight(c) for c in s.cons]
            lo, hi = list(s.lo), list(s.hi)
            if not propagate(lo, hi, cons):
                return True
            new = {n: (lo[i], hi[i]) for i, n in enumerate(s.names)}
            new.update({n: (d, d) for n, d in s.folded.items()})
            if all(hints.get(n) == b for n, b in new.items()) and s.learn == known:
                break
            hints, known = new, s.learn
        cases = [[[tight(c) for c in alt] for alt in alts] for alts in s.cases]
        return search(s.lo, s.hi, cons, cases, Budget())
    except Give:
        return False
    except Empty:
        return True


CACHE = {}
LAST = None


def cube_empty(lits, differ=None):
    """lits: [(variable id, truth)]"""
    ds = [(mt.VARS[v], val) for v, val in lits]
    return empty(ds, differ)


def reset():
    CACHE.clear()


def satisfiable(node, limit=120):
    """is some cube of the condition possibly non-empty?"""
    r = CACHE.get(node)
    if r is None:
        n = [0]

        def go(x, lits):
            if x is mt.FALSE:
                return False
            if x is mt.TRUE:
                n[0] += 1
                return not cube_empty(lits)
            n[0] += 1
            if n[0] > limit:
                return True
            v, lo, hi = x.v, x.lo, x.hi
            return go(hi, lits + [(v, True)]) or go(lo, lits + [(v, False)])
        r = CACHE[node] = go(node, [])
    return r
