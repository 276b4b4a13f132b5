"""Forward dataflow over SSA LLVM IR: every register and memory cell is mapped to a guarded normal form.

Blocks are visited once in topological order; at joins the incoming facts are
merged under the (decision-diagram) conditions of the incoming edges.  Loops
whose exit test becomes constant in the abstract domain are unrolled; any other
loop is reported as unsupported.
"""
from fractions import Fraction
import math
import re
import struct
from . import algebra as A
from . import mt
from .algebra import Rat, IntV, Unsupported, rconst, iconst, RZERO, RONE
from .llparse import *

U = "undef"            # leaf value for undefined / poison


class Opt:
    strict_nan = False
    round_ints = False  # keep the rounding of large integers to floats apart
    exact = False       # keep the rounding of sums and products apart: only a+b = b+a and a*b = b*a are identified
    max_iter = 600


class Ptr:
    __slots__ = ("obj", "off", "_k")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off
        self._k = None

    def key(self):
        if self._k is None:
            self._k = ("P", self.obj.uid if self.obj else None, self.off.key())
        return self._k

    def __repr__(self):
        return "&%s+%r" % (self.obj.name if self.obj else "null", self.off)


def once_state(t, off=0):
    if t == ('i', 32):
        return [off]
    if t[0] == 'st':
        return [x for i, u in enumerate(t[2]) for x in once_state(u, off + field_offset(t, i))]
    return []


class Obj:
    def __init__(self, uid, name, kind, size=None, align=16):
        self.uid, self.name, self.kind, self.size, self.align = uid, name, kind, size, align
        self.init = {}


class State:
    __slots__ = ("mem", "owned", "events")

    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.events = mt.leaf(())

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.owned = set()
        s.events = self.events
        return s

    def cells(self, o):
        c = self.mem.get(o)
        if c is None:
            c = {}
            self.mem[o] = c
            self.owned.add(o)
        return c

    def wcells(self, o):
        c = self.mem.get(o)
        if c is None or o not in self.owned:
            c = dict(c) if c else {}
            self.mem[o] = c
            self.owned.add(o)
        return c


class BadCell:
    pass


BAD = BadCell()

INFA = lambda: A.ratom(A.input_atom("INF"))
NANA = lambda: A.ratom(A.input_atom("NAN"))


def fconst(v):
    if v == 'inf':
        return INFA()
    if v == '-inf':
        return A.rneg(INFA())
    if v == 'nan' or v == 'big':
        return NANA()
    if v == '-0':
        return RZERO
    return rconst(v)


# ------------------------------------------------------------------ comparisons
SIGN = []      # list of (Rat d0, varP, varZ)
INTS = {}      # (pred,keyx,keyy)


def has_atom(r, name):
    for m in r.num:
        for i, _ in m:
            if A.ATOMS[i].fn == name and not A.ATOMS[i].args:
                return A.ATOMS[i]
    return None


def sign_of(d):
    """(positive, zero) as decision diagrams for the real normal form d"""
    c = d.const()
    if c is not None:
        return (mt.TRUE if c > 0 else mt.FALSE, mt.TRUE if c == 0 else mt.FALSE)
    s = A.rat_sign(d)
    if s == "+":
        return mt.TRUE, mt.FALSE
    if s == "-":
        return mt.FALSE, mt.FALSE
    a = has_atom(d, "INF")
    if a is not None and not Opt.strict_nan:
        # dominated by the infinite term
        g = {}
        for m, c in d.num.items():
            e = dict(m).get(a.id, 0)
            if e == 1:
                g[tuple(x for x in m if x[0] != a.id)] = c
            elif e:
                g = None
                break
        if g and not any(i == a.id for f in d.den for m in A.FACTORS[f] for i, _ in m):
            q = A._norm(g, dict(d.den)) if d.den else Rat(g)
            if q.const() is not None or A.rat_sign(q) in ("+", "-"):
                return sign_of(q)[0], mt.FALSE
    lc = d.num[A.lead(d.num)]
    neg = lc < 0
    d0 = Rat({m: c / lc for m, c in d.num.items()}, d.den)
    if not d0.den and len(d0.num) == 2:
        # sin(t)^2 - 1 = -cos(t)^2
        ms = [m for m in d0.num if len(m) == 1 and m[0][1] == 2 and A.ATOMS[m[0][0]].fn == "sin"]
        if ms and d0.num.get(A.ONE) == -d0.num[ms[0]]:
            Z = sign_of(A.f_cos(A.ATOMS[ms[0][0][0]].args[0]))[1]
            return (mt.FALSE if lc * d0.num[ms[0]] > 0 else mt.not_(Z)), Z
    for e in SIGN:
        # a threshold of a few ulps is a threshold, not a residue of rounding
        if (A.ONE in e[0].num) == (A.ONE in d0.num) and A.rat_eq(e[0], d0):
            P, Z = e[1], e[2]
            break
    else:
        z = mt.newvar(("zero", d0))
        p = mt.newvar(("pos", d0))
        Z = mt.node(z, mt.TRUE, mt.FALSE)
        P = mt.node(p, mt.TRUE, mt.FALSE)
        if s == "0+":
            P = mt.TRUE if not neg else mt.FALSE
            P = mt.TRUE if (not neg) else mt.FALSE
            # d >= 0; d0 = d/lc ; if neg then d0 <= 0
        if s == "0-":
            P = mt.FALSE if not neg else mt.TRUE
        SIGN.append((d0, P, Z))
    if not neg:
        return mt.and_(mt.not_(Z), P), Z
    return mt.and_(mt.not_(Z), mt.not_(P)), Z


def nanvar(r):
    if not Opt.strict_nan:
        return mt.FALSE if has_atom(r, "NAN") is None else mt.TRUE
    if r.const() is not None:
        return mt.FALSE
    if has_atom(r, "NAN") is not None:
        return mt.TRUE
    # a single scaled/shifted input is NaN exactly when the input is
    ids = sorted({i for m in r.num for i, _ in m} | {i for f in r.den for m in A.FACTORS[f] for i, _ in m})
    out = mt.FALSE
    base = set()

    def collect(i):
        at = A.ATOMS[i]
        if at.fn in ("INF",):
            return
        if not at.args:
            base.add(i)
        else:
            base.add(i)
    for i in ids:
        collect(i)
    for i in sorted(base):
        if A.ATOMS[i].kind == "real" and A.ATOMS[i].fn not in ("s2r", "u2r"):
            out = mt.or_(out, mt.var(("nan", i), ("nan", i)))
    return out


def fcmp(pred, a, b):
    if a is U or b is U or a == U or b == U:
        return mt.var(("undefcmp",), ("undef",))
    if pred == "true":
        return mt.TRUE
    if pred == "false":
        return mt.FALSE
    uno = mt.or_(nanvar(a), nanvar(b))
    if pred == "uno":
        return uno
    if pred == "ord":
        return mt.not_(uno)
    d = A.rsub(a, b)
    P, Z = sign_of(d)
    base = {"gt": P, "ge": mt.or_(P, Z), "lt": mt.and_(mt.not_(P), mt.not_(Z)), "le": mt.not_(P), "eq": Z, "ne": mt.not_(Z)}[pred[1:]]
    if pred[0] == "o":
        return mt.and_(mt.not_(uno), base)
    return mt.or_(uno, base)


def int_eq(a, b):
    d = A.iadd(a, b, -1)
    c = d.const()
    if c is not None:
        return mt.TRUE if c == 0 else mt.FALSE
    # canonical sign: leading coefficient as a small signed number positive
    lead = max((m for m in d.p if m), key=A.mono_key)
    if A.signed_coef(d.w, d.p[lead]) < 0:
        d = IntV(d.w, {m: -c for m, c in d.p.items()})
    # if single atom * 1 + const:  atom == value
    nz = [m for m in d.p if m]
    if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1:
        at = A.ATOMS[nz[0][0][0]]
        cf = d.p[nz[0]]
        k = d.p.get(A.ONE, 0)
        if cf == 1 and k == 0 and at.fn == "or" and at.args:
            return mt.and_(int_eq(at.args[0], iconst(d.w, 0)), int_eq(at.args[1], iconst(d.w, 0)))
        if cf == 1 and at.fn == "xor" and at.args and at.args[1].const() is not None:
            return int_eq(at.args[0], iconst(d.w, ((-k) % (1 << d.w)) ^ at.args[1].const()))
        if cf == 1 and at.fn in ("zext", "sext") and at.args:
            inner = at.args[0]
            want = (-k) % (1 << d.w)
            if at.fn == "zext":
                if want >> inner.w:
                    return mt.FALSE
                return int_eq(inner, iconst(inner.w, want))
            s = A.signed_coef(d.w, want)
            if not (-(1 << (inner.w - 1)) <= s < (1 << (inner.w - 1))):
                return mt.FALSE
            return int_eq(inner, iconst(inner.w, s))
    return mt.var(("ieq", d.key()), ("ieq", d))


def int_cmp(pred, a, b):
    if a == U or b == U:
        return mt.var(("undefcmp",), ("undef",))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported("pointer/int compare")
        if a.obj is b.obj:
            return int_cmp(pred, a.off, b.off)
        if any(p.obj is None and p.off.const() is None for p in (a, b)):
            raise Unsupported("comparison of a pointer with plain bits")
        if pred in ("eq", "ne"):
            return mt.FALSE if pred == "eq" else mt.TRUE
        if a.obj is None or b.obj is None:
            # null is below every object
            return {"ugt": b.obj is None, "uge": b.obj is None, "ult": a.obj is None, "ule": a.obj is None}[pred] and mt.TRUE or mt.FALSE
        raise Unsupported("order of unrelated pointers")
    ca, cb = a.const(), b.const()
    w = a.w
    if pred == "eq":
        return int_eq(a, b)
    if pred == "ne":
        return mt.not_(int_eq(a, b))
    s = pred[0] == "s"
    op = pred[1:]
    if op == "gt":
        return int_cmp(pred[0] + "lt", b, a)
    if op == "ge":
        return mt.not_(int_cmp(pred[0] + "lt", a, b))
    if op == "le":
        return mt.not_(int_cmp(pred[0] + "lt", b, a))
    # lt
    if ca is not None and cb is not None:
        x, y = (A.signed_coef(w, ca), A.signed_coef(w, cb)) if s else (ca, cb)
        return mt.TRUE if x < y else mt.FALSE
    if a.key() == b.key():
        return mt.FALSE
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if ca is not None:
        x = A.signed_coef(w, ca) if s else ca
        if x == hi:
            return mt.FALSE
        # x < b  <=>  not (b < x+1)
        return mt.not_(int_cmp(pred, b, iconst(w, x + 1)))
    if cb is not None:
        y = A.signed_coef(w, cb) if s else cb
        if y == lo:
            return mt.FALSE
        rng = int_range(a, s)
        if rng:
            if rng[1] < y:
                return mt.TRUE
            if rng[0] >= y:
                return mt.FALSE
        # zext(x) < y  ->  x <u y
        sa = single_atom(a)
        if not s and y == 1:
            return int_eq(a, iconst(w, 0))
        if not s and sa is not None and sa.fn == "or" and sa.args and y & (y - 1) == 0:
            return mt.and_(int_cmp(pred, sa.args[0], b), int_cmp(pred, sa.args[1], b))
        if sa is not None and sa.fn == "zext" and sa.args:
            inner = sa.args[0]
            return int_cmp("ult", inner, iconst(inner.w, y))
        if sa is not None and sa.fn == "sext" and sa.args and s:
            inner = sa.args[0]
            return int_cmp("slt", inner, iconst(inner.w, y))
        return mt.var(("ilt", s, a.key(), y), ("ilt", s, a, y))
    sa, sb = single_atom(a), single_atom(b)
    if sa is not None and sb is not None and sa.fn == sb.fn and sa.fn in ("zext", "sext") and sa.args and sb.args and sa.args[0].w == sb.args[0].w:
        return int_cmp("ult" if (sa.fn == "zext" or not s) else "slt", sa.args[0], sb.args[0])
    return mt.var(("ilt2", s, a.key(), b.key()), ("ilt2", s, a, b))


def single_atom(a):
    if len(a.p) == 1:
        (m, c), = a.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return A.ATOMS[m[0][0]]
    return None


RANGES = {}     # input atom id -> (lo, hi) declared unsigned range


def atom_range(at):
    """unsigned value range of an int atom or None"""
    if at.id in RANGES:
        return RANGES[at.id]
    if at.fn == "zext" and at.args:
        r = int_range(at.args[0], False)
        return r or (0, (1 << at.args[0].w) - 1)
    if at.fn == "urem" and at.args and at.args[1].const():
        return (0, at.args[1].const() - 1)
    if at.fn == "and" and at.args and at.args[1].const() is not None:
        return (0, at.args[1].const())
    if at.fn == "lshr" and at.args and at.args[1].const() is not None:
        return (0, ((1 << at.args[0].w) - 1) >> at.args[1].const())
    if at.fn == "udiv" and at.args and at.args[1].const():
        r = int_range(at.args[0], False)
        hi = r[1] if r else (1 << at.args[0].w) - 1
        return ((r[0] if r else 0) // at.args[1].const(), hi // at.args[1].const())
    return None


def satom_range(at):
    """signed value range of an int atom or None"""
    w = int(at.kind[1:])
    if at.fn == "srem" and at.args and at.args[1].sconst():
        k = abs(at.args[1].sconst()) - 1
        r = int_range(at.args[0], True)
        lo = 0 if r and r[0] >= 0 else -k
        return (lo, k)
    if at.fn == "sdiv" and at.args and at.args[1].sconst() and at.args[1].sconst() > 0:
        k = at.args[1].sconst()
        r = int_range(at.args[0], True) or (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        f = lambda x: abs(x) // k * (1 if x >= 0 else -1)
        return (f(r[0]), f(r[1]))
    if at.fn == "sext" and at.args:
        iw = at.args[0].w
        return int_range(at.args[0], True) or (-(1 << (iw - 1)), (1 << (iw - 1)) - 1)
    r = atom_range(at)
    if r and r[1] < (1 << (w - 1)):
        return r
    return None


def int_range(a, signed):
    """interval of a polynomial, None when it may wrap or is unknown"""
    lo = hi = 0
    for m, c in a.p.items():
        c = A.signed_coef(a.w, c)
        if not m:
            lo += c; hi += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        at = A.ATOMS[m[0][0]]
        r = satom_range(at) if signed else atom_range(at)
        if r is None:
            r = atom_range(at) or satom_range(at)
            if r is None:
                return None
        x, y = r[0] * c, r[1] * c
        lo += min(x, y); hi += max(x, y)
    if signed:
        if lo < -(1 << (a.w - 1)) or hi >= (1 << (a.w - 1)):
            return None
    elif lo < 0 or hi >= (1 << a.w):
        return None
    return lo, hi


# ------------------------------------------------------------------ scalar helpers
def isU(*xs):
    return any(x is U or (isinstance(x, str) and x == U) for x in xs)


def lift(name, fn, *args):
    def g(*v):
        if isU(*v):
            return U
        return fn(*v)
    return mt.apply(name, g, *args)


def rounded(op):
    def g(x, y):
        cx, cy = x.const(), y.const()
        plain = A.radd if op == "fadd" else A.rmul
        unit = 0 if op == "fadd" else 1
        if (cx is not None and cy is not None) or cx == unit or cy == unit or (op == "fmul" and (cx == -1 or cy == -1)):
            return plain(x, y)
        lst = A._BY_FN.get((op, "real", 2), ())
        for at in lst:
            if A._same_arg(at.args[0], y) and A._same_arg(at.args[1], x):
                return A.ratom(at)
        return A.ratom(A.fn_atom(op, (x, y)))
    return g


ROUNDED = {"fadd": rounded("fadd"), "fmul": rounded("fmul")}
ROUNDED["fsub"] = lambda x, y: ROUNDED["fadd"](x, A.rneg(y))


def rdivz(a, b):
    c = b.const()
    if c is not None and c == 0:
        ca = a.const()
        if ca is not None:
            if ca == 0:
                return NANA()
            return INFA() if ca > 0 else A.rneg(INFA())
        return A.ratom(A.fn_atom("divzero", (a,)))
    if has_atom(b, "INF") and a.const() is not None:
        return RZERO
    return A.rdiv(a, b)


def rfabs(a):
    c = a.const()
    if c is not None:
        return mt.leaf(rconst(abs(c)))
    s = A.rat_sign(a)
    if s in ("+", "0+"):
        return mt.leaf(a)
    if s in ("-", "0-"):
        return mt.leaf(A.rneg(a))
    P, Z = sign_of(a)
    return mt.ite(mt.or_(P, Z), mt.leaf(a), mt.leaf(A.rneg(a)))


def rsqrt(a):
    q = A.square_root_poly(a)
    if q is not None:
        return rfabs(q)
    return split_squares(A.f_sqrt(a))


def split_squares(r):
    """sqrt(q^2) inside r is |q|: case split on the sign of q"""
    t = A.square_atom(r)
    if t is None:
        return mt.leaf(r)
    aid, q = t
    s = A.rat_sign(q)
    if s in ("+", "0+"):
        return split_squares(A.subst_atom(r, aid, q))
    P, Z = sign_of(q)
    return mt.ite(mt.or_(P, Z), split_squares(A.subst_atom(r, aid, q)), split_squares(A.subst_atom(r, aid, A.rneg(q))))


MATH1 = {"sin": A.f_sin, "cos": A.f_cos, "tan": A.f_tan, "exp": A.f_exp, "log": A.f_ln, "ln": A.f_ln}
for _n in ("asin", "acos", "atan", "sinh", "cosh", "tanh", "floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint", "cbrt", "exp2", "log2", "log10",
           "expm1", "log1p", "asinh", "acosh", "atanh"):
    MATH1[_n] = (lambda n: (lambda a: A.f_unary(n, a)))(_n)
LIBM = {}
for _n in MATH1:
    LIBM[_n] = _n
    LIBM[_n + "f"] = _n


def fminmax(name, a, b):
    # minnum/maxnum: NaN operand is ignored
    def f(x, y):
        P, Z = sign_of(A.rsub(x, y))
        r = mt.ite(mt.or_(P, Z) if name == "max" else mt.not_(P), mt.leaf(x), mt.leaf(y))
        if Opt.strict_nan:
            r = mt.ite(nanvar(x), mt.leaf(y), mt.ite(nanvar(y), mt.leaf(x), r))
        return r
    return lift("f" + name, f, a, b)


def b2i(b, w):
    return mt.ite(b, mt.leaf(iconst(w, 1)), mt.leaf(iconst(w, 0)))


def bit0(x):
    """bool from an integer (lowest bit)"""
    def f(v):
        if isU(v):
            return mt.var(("undefcmp",), ("undef",))
        c = v.const()
        if c is not None:
            return mt.TRUE if c & 1 else mt.FALSE
        odd = {m: 1 for m, k in v.p.items() if k & 1}
        if len(odd) < len(v.p) or any(k != 1 for k in v.p.values()):
            v = IntV(v.w, odd)
            c = v.const()
            if c is not None:
                return mt.TRUE if c & 1 else mt.FALSE
        if A.ONE in v.p:
            v = IntV(v.w, {m: k for m, k in v.p.items() if m})
            return mt.not_(mt.var(("bit", v.key()), ("bit", v)))
        return mt.var(("bit", v.key()), ("bit", v))
    return mt.apply("bit0", f, x)


LOADS = {}     # integer atom -> (analysis, object, offset) it was loaded from


def single_id(v):
    if len(v.p) == 1:
        (m, c), = v.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def part_of(i, byte, w):
    an, o, off = LOADS[i]
    n = an.atom_cell(o, off + byte, ('i', w))
    if not mt.is_leaf(n):
        raise Unsupported("guarded initial cell")
    return n.val


def concat_terms(v):
    """[(bit offset, width, mono)] when v is a concatenation of disjoint fields, else None"""
    out = []
    for m, c in v.p.items():
        if not m:
            # runs of one bits of the constant
            b = 0
            while c >> b:
                if c >> b & 1:
                    out.append((b, 1, m))
                b += 1
            continue
        if len(m) != 1 or m[0][1] != 1 or c & (c - 1):
            return None
        r = atom_range(A.ATOMS[m[0][0]])
        if not r:
            return None
        out.append((c.bit_length() - 1, max(r[1].bit_length(), 1), m))
    out.sort()
    for (a, n, _), (b, _, _) in zip(out, out[1:]):
        if a + n > b:
            return None
    if out and out[-1][0] + out[-1][1] > v.w:
        return None
    return out


def odd_bytes(w):
    """the pieces (offset, bytes) an integer of w bits is stored in when its bytes are not a power of two; () otherwise"""
    n = (w + 7) // 8
    if n & (n - 1) == 0:
        return ()
    r, o, k = [], 0, 1 << n.bit_length()
    while n > o:
        if k <= n - o:
            r.append((o, k))
            o += k
        k //= 2 if k > n - o else 1
    return tuple(r)


def int_trunc(v, w):
    # truncation is a ring homomorphism; push into atoms
    out = iconst(w, 0)
    for m, c in v.p.items():
        t = iconst(w, c)
        for i, e in m:
            at = A.ATOMS[i]
            if at.fn in ("zext", "sext") and at.args and at.args[0].w == w:
                b = at.args[0]
            elif at.fn in ("zext", "sext") and at.args and at.args[0].w < w:
                b = int_ext(at.args[0], w, at.fn)
            elif at.fn in ("zext", "sext", "trunc") and at.args and at.args[0].w > w:
                b = int_trunc(at.args[0], w)
            elif i in LOADS and w % 8 == 0:
                b = part_of(i, 0, w)
            elif at.fn == "lshr" and at.args and at.args[1].const() is not None and single_id(at.args[0]) in LOADS and w % 8 == 0 \
                    and at.args[1].const() % 8 == 0 and at.args[1].const() + w <= v.w:
                b = part_of(single_id(at.args[0]), at.args[1].const() // 8, w)
            elif at.fn == "bits" and w == 32 and False:
                b = None
            else:
                b = A.iatom(w, "trunc", (IntV(v.w, {((i, 1),): 1}),))
            for _ in range(e):
                t = A.imul(t, b)
        out = A.iadd(out, t)
    return out


def int_ext(v, w, fn):
    c = v.const()
    if c is not None:
        return iconst(w, c if fn == "zext" else A.signed_coef(v.w, c))
    r = int_range(v, fn == "sext")
    sa = single_atom(v)
    if sa is not None and sa.fn == "zext" and sa.args:
        return int_ext(sa.args[0], w, "zext")
    if sa is not None and sa.fn == fn and sa.args:
        return int_ext(sa.args[0], w, fn)
    if r is not None and len(v.p) > 1:
        # no wrap: distribute
        out = iconst(w, 0)
        for m, cc in v.p.items():
            cc = A.signed_coef(v.w, cc)
            if not m:
                out = A.iadd(out, iconst(w, cc))
            else:
                at = A.ATOMS[m[0][0]]
                if not (satom_range(at) if fn == "sext" else atom_range(at)):
                    break
                t = IntV(v.w, {m: 1})
                out = A.iadd(out, A.imul(int_ext(t, w, fn), iconst(w, cc)))
        else:
            return out
    if fn == "sext" and r is not None and r[0] >= 0:
        return int_ext(v, w, "zext")
    return A.iatom(w, fn, (v,))


def ishift(op, a, k):
    w = a.w
    c = a.const()
    if c is not None:
        if op == "shl":
            return iconst(w, c << k)
        if op == "lshr":
            return iconst(w, c >> k)
        return iconst(w, A.signed_coef(w, c) >> k)
    if k == 0:
        return a
    if op == "shl":
        return A.imul(a, iconst(w, 1 << k))
    sa = single_atom(a)
    if op == "lshr" and len(a.p) >= 1 and sa is None:
        ts = concat_terms(a)
        if ts is not None and all(b >= k or b + n <= k for b, n, _ in ts):
            out = {}
            for b, n, m in ts:
                if b >= k:
                    out[m] = out.get(m, 0) + (1 << (b - k))
            return IntV(w, out)
    if op == "lshr" and sa is not None and single_id(a) in LOADS and k % 8 == 0 and w - k in (8, 16, 32):
        return int_ext(part_of(single_id(a), k // 8, w - k), w, "zext")
    if op == "lshr" and sa is not None and sa.fn == "lshr" and sa.args[1].const() is not None:
        return A.iatom(w, "lshr", (sa.args[0], iconst(w, k + sa.args[1].const())))
    if op == "ashr":
        # division by a power of two with floor
        return A.iatom(w, "fdiv", (a, iconst(w, 1 << k))) if k < w - 1 else A.iatom(w, "ashr", (a, iconst(w, k)))
    return A.iatom(w, op, (a, iconst(w, k)))


def int_bin(op, a, b):
    w = a.w
    ca, cb = a.const(), b.const()
    if op == "add":
        return A.iadd(a, b)
    if op == "sub":
        return A.iadd(a, b, -1)
    if op == "mul":
        return A.imul(a, b)
    if ca is not None and cb is not None:
        sa, sb = A.signed_coef(w, ca), A.signed_coef(w, cb)
        if op in ("udiv", "sdiv", "urem", "srem") and cb == 0:
            return U
        v = {"udiv": lambda: ca // cb, "urem": lambda: ca % cb,
             "sdiv": lambda: int(math.copysign(1, sa) * math.copysign(1, sb)) * (abs(sa) // abs(sb)),
             "srem": lambda: (abs(sa) % abs(sb)) * (1 if sa >= 0 else -1),
             "and": lambda: ca & cb, "or": lambda: ca | cb, "xor": lambda: ca ^ cb,
             "shl": lambda: ca << cb if cb < w else 0, "lshr": lambda: ca >> cb if cb < w else 0,
             "ashr": lambda: sa >> cb if cb < w else 0}[op]()
        return iconst(w, v)
    if op in ("shl", "lshr", "ashr"):
        if cb is not None:
            if cb >= w:
                return U
            return ishift(op, a, cb)
        return A.iatom(w, op, (a, b))
    M = (1 << w) - 1
    if op in ("and", "or", "xor"):
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            if op == "and":
                if cb == 0:
                    return iconst(w, 0)
                if cb == M:
                    return a
                r = int_range(a, False)
                if r and (cb & (cb + 1)) == 0 and r[1] <= cb:
                    return a
                # low mask of a zext
            if op == "or":
                if cb == 0:
                    return a
                if cb == M:
                    return iconst(w, M)
                # or with bits known zero is an addition
                if known_zero(a) & cb == cb:
                    return A.iadd(a, b)
            if op == "xor":
                if cb == 0:
                    return a
                if cb == M:
                    return A.iadd(iconst(w, M), a, -1)      # ~a = -1 - a
                sa_ = single_atom(a)
                if sa_ is not None and sa_.fn == "xor" and sa_.args and sa_.args[1].const() is not None:
                    k = sa_.args[1].const() ^ cb
                    return int_bin("xor", sa_.args[0], iconst(w, k))
        if a.key() == b.key():
            return {"and": a, "or": a, "xor": iconst(w, 0)}[op]
        if op == "or" and cb is None and (known_zero(a) | known_zero(b)) & M == M:
            return A.iadd(a, b)
        # commutative: order the operands
        if cb is None and min(ids_of(b), default=0) < min(ids_of(a), default=0):
            a, b = b, a
        return A.iatom(w, op, (a, b))
    if cb is not None:
        if cb == 1 and op in ("udiv", "sdiv"):
            return a
        if op in ("sdiv", "srem"):
            k = A.signed_coef(w, cb)
            r = int_range(a, True)
            if k > 0 and r and -k < r[0] and r[1] < k:
                return iconst(w, 0) if op == "sdiv" else a
            if op == "srem":
                # a - k*(a sdiv k)
                q = int_bin("sdiv", a, b)
                return A.iadd(a, A.imul(q, b), -1)
            # pull out multiples of k when the sign is known to be nonnegative everywhere
            if k > 0 and r and r[0] >= 0:
                return int_bin("udiv", a, b)
        if op in ("udiv", "urem"):
            r = int_range(a, False)
            if r and r[1] < cb:
                return iconst(w, 0) if op == "udiv" else a
            if op == "urem":
                q = int_bin("udiv", a, b)
                return A.iadd(a, A.imul(q, b), -1)
            if r:
                # (k*x + y) / k = x + y/k when nothing wraps
                hi = {m: c for m, c in a.p.items() if c % cb == 0 and m}
                lo = {m: c for m, c in a.p.items() if not (c % cb == 0 and m)}
                if hi:
                    lo_r = int_range(IntV(w, lo), False) if lo else (0, 0)
                    hi_r = int_range(IntV(w, hi), False)
                    if lo_r and hi_r:
                        x = IntV(w, {m: c // cb for m, c in hi.items()})
                        y = int_bin("udiv", IntV(w, lo), b)
                        return A.iadd(x, y)
            sa_ = single_atom(a)
            if sa_ is not None and sa_.fn == "udiv" and sa_.args[1].const():
                return A.iatom(w, "udiv", (sa_.args[0], iconst(w, sa_.args[1].const() * cb)))
            if cb & (cb - 1) == 0:
                return ishift("lshr", a, cb.bit_length() - 1)
    return A.iatom(w, op, (a, b))


def ids_of(v):
    return [i for m in v.p for i, _ in m]


def known_zero(a):
    """mask of bits known to be zero"""
    w = a.w
    M = (1 << w) - 1
    c = a.const()
    if c is not None:
        return M & ~c
    if len(a.p) == 1:
        (m, c), = a.p.items()
        low = (c & -c).bit_length() - 1
        r = int_range(a, False)
        z = (1 << low) - 1
        if r:
            z |= M & ~((1 << r[1].bit_length()) - 1)
        return z
    r = int_range(a, False)
    if r:
        return M & ~((1 << r[1].bit_length()) - 1)
    return 0


def kind_of(t):
    if t[0] == 'f':
        return 'f%d' % t[1]
    if t[0] == 'i':
        return 'i%d' % (8 * tsize(t))
    return 'ptr'


def int_from_bytes_width(w):
    return w


def bits_of(v, w):
    """Rat -> IntV of its encoding"""
    c = v.const()
    if c is not None and w in (32, 64):
        try:
            return iconst(w, int.from_bytes(struct.pack('>d' if w == 64 else '>f', float(c)), 'big'))
        except OverflowError:
            pass
    sa = A.as_scaled_atom(v)
    if sa and sa[0] == 1 and sa[1].fn == "frombits" and sa[1].args:
        return sa[1].args[0]
    return A.iatom(w, "bits", (v,))


def from_bits(v):
    c = v.const()
    if c is not None:
        return fconst(decode_float(v.w, c))
    sa = single_atom(v)
    if sa is not None and sa.fn == "bits" and sa.args:
        return sa.args[0]
    return A.ratom(A.fn_atom("frombits", (v,)))


def zero_reduce(r, budget=300):
    """drop the tests `d = 0` whose two outcomes agree when d is zero (if f != 0 { x -= f * y })"""
    if mt.is_leaf(r) or r is mt.TRUE or r is mt.FALSE:
        return r
    seen = set()
    stack = [r]
    found = False
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if len(seen) > budget:
            return r
        if mt.is_leaf(n):
            if not isinstance(n.val, Rat):
                return r
            continue
        if mt.VARS[n.v][0] == "zero":
            found = True
        stack.append(n.hi)
        stack.append(n.lo)
    if not found:
        return r

    def rec(n):
        if mt.is_leaf(n):
            return n
        k = ("zr", n.id)
        x = mt._cache.get(k)
        if x is not None:
            return x
        hi, lo = rec(n.hi), rec(n.lo)
        d = mt.VARS[n.v]
        x = None
        if d[0] == "zero":
            from .compare import same_under
            same = mt.apply(("zrs", n.v), lambda p, q: mt.TRUE if (p.key() == q.key() or same_under([d[1]], p, q)) else mt.FALSE, hi, lo)
            # not where the sign of d decides as well: a sign test stays below its zero test
            if same is mt.TRUE and lo.v != n.v + 1:
                x = lo
        if x is None:
            x = mt.node(n.v, hi, lo)
        mt._cache[k] = x
        return x
    return rec(r)


class Analysis:
    def __init__(self, module, tag=""):
        self.M = module
        self.tag = tag
        self.objs = {}
        self.uid = 0
        self.panics = []      # (cond N, text)
        self.oob = []         # (cond N, text)
        self.unreach = mt.FALSE
        self.calls = set()
        self.callconds = []   # (callee, cond) for non-inlined defined callees
        self.depth = 0
        self.nblocks = 0
        self.ninstr = 0
        self.loops = 0
        self.globs = {}
        self.assumes = []
        self.heap_n = 0
        self.gparsed = {}
        self.shared = {}

    def newobj(self, name, kind, size=None, align=16):
        self.uid += 1
        return Obj("%s%d" % (self.tag, self.uid) if kind in ("alloca", "heap") else name, name, kind, size, align)

    # ------------------------------------------------------------ constants
    def glob(self, name):
        name = self.M.aliases.get(name, name)
        o = self.globs.get(name)
        if o is None:
            g = self.M.globals.get(name)
            o = Obj(self.tag + name, name, "global", tsize(g[0]) if g and g[0] else None)
            o.const = bool(g and g[2])
            self.globs[name] = o
            if g and g[1] is not None and (g[2] or True):
                self.init_cells(o, 0, g[0], g[1])
                o.has_init = True
            elif g and g[3] == 'once' and g[0]:
                # a OnceLock in another crate: analysed from its first use (state INCOMPLETE, no value)
                for off in once_state(g[0]):
                    o.init[off] = (4, 'i32', mt.leaf(iconst(32, 3)))
                o.has_init = True
            else:
                o.has_init = False
        return o

    def init_cells(self, o, off, t, v):
        k = v[0]
        if k == 'agg':
            if t[0] == 'st':
                for i, x in enumerate(v[2]):
                    self.init_cells(o, off + field_offset(t, i), t[2][i], x)
            else:
                s = tsize(t[2])
                for i, x in enumerate(v[2]):
                    self.init_cells(o, off + i * s, t[2], x)
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.init[off + i] = (1, 'i8', mt.leaf(iconst(8, b)))
            return
        if k == 'zero':
            n = tsize(t)
            for i in range(0, n, 1):
                o.init[off + i] = (1, 'i8', mt.leaf(iconst(8, 0)))
            return
        if k == 'undef':
            return
        val = self.const(t, v)
        o.init[off] = (tsize(t), kind_of(t), val)

    def const(self, t, v):
        k = v[0]
        if k == 'ci':
            if v[1] == 1:
                return mt.TRUE if v[2] else mt.FALSE
            return mt.leaf(iconst(v[1], v[2]))
        if k == 'cf':
            return mt.leaf(fconst(v[2]))
        if k == 'null':
            return mt.leaf(Ptr(None, iconst(64, 0)))
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            ts = t[2] if t[0] == 'st' else [t[2]] * t[1]
            return tuple(self.const(x, y) for x, y in zip(ts, v[2]))
        if k == 'glob':
            if v[1] in self.M.funcs or v[1] in self.M.decls:
                return mt.leaf(Ptr(self.fnobj(v[1]), iconst(64, 0)))
            return mt.leaf(Ptr(self.glob(v[1]), iconst(64, 0)))
        if k == 'gep':
            return self.gep(v[1], [(x, self.const(x, y)) for x, y in v[2]])
        if k == 'cast':
            _, op, ft, x, tt = v
            return self.cast(op, ft, self.const(ft, x), tt)
        if k == 'bytes':
            return tuple(mt.leaf(iconst(8, b)) for b in v[1])
        if k == 'cbin':
            _, op, ft, x, y = v
            return lift("i" + op, lambda p, q: int_bin(op, p, q), self.const(ft, x), self.const(ft, y))
        raise Unsupported("constant %r" % (v,))

    def fnobj(self, name):
        o = self.globs.get(name)
        if o is None:
            o = Obj("fn:" + name, name, "fn")
            o.has_init = False
            self.globs[name] = o
        return o

    def undef(self, t):
        if t[0] in ('arr', 'vec'):
            return tuple(self.undef(t[2]) for _ in range(t[1]))
        if t[0] == 'st':
            return tuple(self.undef(x) for x in t[2])
        if t == ('i', 1):
            return mt.var(("undefcmp",), ("undef",))
        return mt.leaf(U)

    def zero(self, t):
        if t[0] in ('arr', 'vec'):
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 'st':
            return tuple(self.zero(x) for x in t[2])
        if t[0] == 'f':
            return mt.leaf(RZERO)
        if t[0] == 'ptr':
            return mt.leaf(Ptr(None, iconst(64, 0)))
        if t == ('i', 1):
            return mt.FALSE
        return mt.leaf(iconst(t[1], 0))

    # ------------------------------------------------------------ memory
    def initial(self, o, off, t):
        """content of a cell never written"""
        if o.kind == "global":
            if not o.has_init:
                return self.atom_cell(o, off, t)
            return self.read_cells(o, o.init, off, t, base=True)
        if o.kind == "arg":
            return self.atom_cell(o, off, t)
        return mt.leaf(U) if t != ('i', 1) else mt.var(("undefcmp",), ("undef",))

    def atom_cell(self, o, off, t):
        key = (off, tsize(t))
        c = o.init.get(key)
        if c is None:
            nm = "%s[%d]" % (o.name, off)
            if t[0] == 'f':
                v = mt.leaf(A.ratom(A.input_atom(nm + ("" if t[1] == 64 else ":f%d" % t[1]))))
            elif t[0] == 'ptr':
                v = mt.leaf(Ptr(self.sub_obj(nm), iconst(64, 0)))
            else:
                v = mt.leaf(A.iinput(8 * tsize(t), nm + ":i%d" % (8 * tsize(t))))
                LOADS[single_id(v.val)] = (self, o, off)
            o.init[key] = c = (tsize(t), kind_of(t), v)
        return self.convert(c[1], c[2], t)

    def sub_obj(self, nm):
        o = self.shared.get("*" + nm)
        if o is None:
            o = Obj("*" + nm, "*" + nm, "arg")
            self.shared["*" + nm] = o
        return o

    def convert(self, kind, v, t):
        """reinterpret a cell of `kind` as scalar type t of the same size"""
        want = kind_of(t)
        if kind == want:
            if t == ('i', 1):
                return bit0(v)
            if t[0] == 'i' and t[1] != 8 * tsize(t):
                return lift("tr%d" % t[1], lambda x: int_trunc(x, t[1]), v)
            return v
        if want[0] == 'i' and kind[0] == 'f':
            w = int(want[1:])
            r = lift("bits%d" % w, lambda x: bits_of(x, w), v)
            return r
        if want[0] == 'f' and kind[0] == 'i':
            return lift("frombits", from_bits, v)
        if want == 'i64' and kind == 'ptr':
            return lift("p2i", self.p2i, v)
        if want == 'ptr' and kind == 'i64':
            return lift("i2p", self.i2p, v)
        if want == 'ptr' and kind == 'f64':
            return lift("i2p", self.i2p, lift("bits64", lambda x: bits_of(x, 64), v))
        if want == 'f64' and kind == 'ptr':
            return lift("frombits", from_bits, lift("p2i", self.p2i, v))
        raise Unsupported("reinterpret %s as %s" % (kind, want))

    def p2i(self, p):
        if p.obj is None:
            return p.off
        return A.iadd(A.iatom(64, "addr:" + p.obj.uid, ()), p.off) if False else A.iadd(IntV(64, {((A.input_atom("addr:" + p.obj.uid, "i64").id, 1),): 1}), p.off)

    def i2p(self, v):
        c = v.const()
        if c is not None:
            return Ptr(None, v)
        for m, k in v.p.items():
            if len(m) == 1 and k == 1 and A.ATOMS[m[0][0]].fn.startswith("addr:"):
                uid = A.ATOMS[m[0][0]].fn[5:]
                o = self.find_obj(uid)
                if o:
                    rest = IntV(64, {a: b for a, b in v.p.items() if a != m})
                    return Ptr(o, rest)
        return Ptr(None, v)      # plain bits in pointer clothing: never dereferenced

    def find_obj(self, uid):
        return self.objs.get(uid)

    def read_cells(self, o, cells, off, t, base=False):
        sz = tsize(t)
        c = cells.get(off)
        if c is not None and c[0] == sz:
            if c[2] is BAD:
                raise Unsupported("partially overwritten cell")
            if c[1] == 'raw':
                return self.initial(c[2][0], c[2][1], t)
            return self.convert(c[1], c[2], t)
        # look for a covering cell or a run of smaller cells
        cover = None
        inside = []
        for k, c in cells.items():
            if k <= off and off + sz <= k + c[0]:
                cover = (k, c)
            elif k < off + sz and off < k + c[0]:
                inside.append((k, c))
        if cover:
            k, c = cover
            if c[2] is BAD:
                raise Unsupported("partially overwritten cell")
            if c[1] == 'raw':
                return self.initial(c[2][0], c[2][1] + off - k, t)
            if c[1][0] in 'if':
                cw = 8 * c[0]
                v = c[2] if c[1][0] == 'i' else self.convert(c[1], c[2], ('i', cw))
                sh = 8 * (off - k)
                v = lift("sub%d.%d" % (sh, 8 * sz), lambda x: int_trunc(ishift("lshr", x, sh), 8 * sz), v)
                return self.convert('i%d' % (8 * sz), v, t)
            raise Unsupported("sub-cell read of pointer")
        if inside:
            if any(k < off or k + c[0] > off + sz for k, c in inside):
                part = {}
                for k, c in inside:
                    pts = sorted({k, k + c[0]} | {e for e in (off, off + sz) if k < e < k + c[0]})
                    if len(pts) == 2 or c[2] is BAD:
                        part[k] = c
                        continue
                    for a, b in zip(pts, pts[1:]):
                        if b <= off or a >= off + sz:
                            continue
                        if c[1] == 'raw':
                            part[a] = (b - a, 'raw', (c[2][0], c[2][1] + a - k))
                        else:
                            v = self.convert(c[1], c[2], ('i', 8 * c[0]))
                            sh, wd = 8 * (a - k), 8 * (b - a)
                            part[a] = (b - a, 'i%d' % wd, lift("sub%d.%d" % (sh, wd), lambda x: int_trunc(ishift("lshr", x, sh), wd), v))
                inside = list(part.items())
                if len(inside) == 1 and inside[0][0] == off and inside[0][1][0] == sz:
                    return self.read_cells(o, dict(inside), off, t, base)
            inside.sort(key=lambda x: x[0])
            pos = off
            acc = None
            w = 8 * sz
            complete = True
            if all(c[1] == 'raw' for _, c in inside):
                k0, c0 = inside[0]
                if k0 <= off and all(c[2][0] is c0[2][0] and c[2][1] - k == c0[2][1] - k0 for k, c in inside) and inside[-1][0] + inside[-1][1][0] >= off + sz \
                        and all(a + ca[0] == b for (a, ca), (b, _) in zip(inside, inside[1:])):
                    return self.initial(c0[2][0], c0[2][1] + off - k0, t)
            if o.kind == "arg" and not base:
                # bytes never written keep the caller's content
                full = []
                q = off
                for k, c in inside:
                    while q < k:
                        n = 4
                        while n > k - q or q % n:
                            n //= 2
                        full.append((q, (n, 'raw', (o, q))))
                        q += n
                    full.append((k, c))
                    q = k + c[0]
                while q < off + sz:
                    n = 4
                    while n > off + sz - q or q % n:
                        n //= 2
                    full.append((q, (n, 'raw', (o, q))))
                    q += n
                inside = full
            for k, c in inside:
                if k != pos or k + c[0] > off + sz:
                    complete = False
                    break
                if c[2] is BAD:
                    raise Unsupported("partially overwritten cell")
                v = self.initial(c[2][0], c[2][1], ('i', 8 * c[0])) if c[1] == 'raw' else \
                    (c[2] if c[1][0] == 'i' else self.convert(c[1], c[2], ('i', 8 * c[0])))
                sh = 8 * (k - off)
                x = lift("cat%d.%d" % (w, sh), lambda q: A.imul(int_ext(q, w, "zext"), iconst(w, 1 << sh)), v)
                acc = x if acc is None else lift("iadd", A.iadd, acc, x)
                pos = k + c[0]
            if complete and pos == off + sz:
                return self.convert('i%d' % w, acc, t)
            if base:
                return mt.leaf(U)
            # mixed: fill missing bytes from the initial content
            if o.kind in ("arg",):
                raise Unsupported("mixed read at %s+%d" % (o.name, off))
            return mt.leaf(U) if t != ('i', 1) else mt.var(("undefcmp",), ("undef",))
        if base:
            return mt.leaf(U)
        return self.initial(o, off, t)

    def bounds(self, p_obj, off, sz, cond, what):
        if p_obj is None:
            self.oob.append((cond, "%s through a null or dangling pointer" % what))
            return False
        if p_obj.size is not None and (off < 0 or off + sz > p_obj.size):
            self.oob.append((cond, "%s of %d bytes at %s+%d, object has %d bytes" % (what, sz, p_obj.name, off, p_obj.size)))
            return False
        return True

    def load(self, st, ptr, t, cond):
        if t[0] in ('vec', 'arr'):
            es = tsize(t[2])
            return tuple(self.load(st, self.padd(ptr, i * es), t[2], cond) for i in range(t[1]))
        if t[0] == 'st':
            return tuple(self.load(st, self.padd(ptr, field_offset(t, i)), x, cond) for i, x in enumerate(t[2]))
        if t[0] == 'i' and odd_bytes(t[1]):
            w = t[1]
            res = None
            for o, k in odd_bytes(w):
                x = self.load(st, self.padd(ptr, o), ('i', 8 * k), cond)
                x = lift("odd%d.%d.%d" % (o, k, w), lambda q: ishift("shl", int_ext(q, 8 * ((w + 7) // 8), "zext"), 8 * o), x)
                res = x if res is None else lift("oddadd", A.iadd, res, x)
            return res if w % 8 == 0 else lift("oddtr%d" % w, lambda q: int_trunc(q, w), res)
        ptr = self.spread(ptr, tsize(t), cond, "load")
        ls = self.ptr_leaves(ptr)
        res = None
        for sel, p in ls:
            if p == U:
                v = mt.leaf(U)
            else:
                off = p.off.sconst()
                if off is None:
                    v = self.dyn_load(st, p, t, mt.and_(cond, sel))
                else:
                    if not self.bounds(p.obj, off, tsize(t), mt.and_(cond, sel), "load"):
                        v = mt.leaf(U) if t != ('i', 1) else mt.FALSE
                    else:
                        v = self.read_cells(p.obj, st.mem.get(p.obj, {}), off, t)
            res = v if res is None else mt.ite(sel, v, res)
        return res

    def dyn_load(self, st, p, t, cond):
        o = p.obj
        if o is None:
            raise Unsupported("dynamic load from null")
        sz = tsize(t)
        # offset = base + scale*index with a bounded index and a bounded object
        if o.size is not None and o.size <= 4096:
            idx = self.enum_index(p.off, o.size, sz)
            if idx is not None:
                res = None
                for c, off in idx:
                    v = self.read_cells(o, st.mem.get(o, {}), off, t)
                    res = v if res is None else mt.ite(c, v, res)
                return res
        if o.kind in ("arg", "global") and not st.mem.get(o):
            nm = "ld:%s:%s" % (o.name, kind_of(t))
            if t[0] == 'f':
                return mt.leaf(A.ratom(A.fn_atom(nm, (p.off,))))
            if t == ('i', 1):
                return bit0(mt.leaf(A.iatom(8, nm, (p.off,))))
            if t[0] == 'i':
                return mt.leaf(A.iatom(t[1], nm, (p.off,)))
        raise Unsupported("load at a variable offset of %s" % o.name)

    def enum_index(self, off, size, sz):
        """all in-bounds values of a variable offset with the condition selecting each"""
        k = A.signed_coef(64, off.p.get(A.ONE, 0))
        rest = []
        for m, c in off.p.items():
            if m:
                c = A.signed_coef(64, c)
                if c <= 0:
                    return None
                rest.append((c, m))
        if not rest or len(rest) > 4:
            return None
        rest.sort(key=lambda x: (-x[0], x[1]))
        out = []

        def rec(j, base, cond):
            if cond is mt.FALSE:
                return True
            if j == len(rest):
                if base >= 0:
                    out.append((cond, base))
                return len(out) <= 600
            c, m = rest[j]
            x = IntV(64, {m: 1})
            r = int_range(x, False)
            n = r[0] if r else 0
            hi = r[1] if r else None
            steps = 0
            while base + c * n + sz <= size and (hi is None or n <= hi):
                if not rec(j + 1, base + c * n, mt.and_(cond, int_eq(x, iconst(64, n)))):
                    return False
                n += 1
                steps += 1
                if steps > 300:
                    return False
            return True
        if not rec(0, k, mt.TRUE):
            return None
        return out or None

    def spread(self, ptr, sz, cond, what):
        """a pointer with variable offsets into sized objects as a choice between constant offsets"""
        def f(p):
            if isU(p) or p.off.sconst() is not None or p.obj is None or p.obj.size is None or p.obj.size > 4096:
                return mt.leaf(p)
            idx = self.enum_index(p.off, p.obj.size, sz)
            if idx is None:
                return mt.leaf(p)
            r = mt.leaf(Ptr(p.obj, iconst(64, idx[0][1])))
            some = idx[0][0]
            for c, o in idx[1:]:
                r = mt.ite(c, mt.leaf(Ptr(p.obj, iconst(64, o))), r)
                some = mt.or_(some, c)
            bad = mt.and_(cond, mt.not_(some))
            if len(idx) and bad is not mt.FALSE:
                self.oob.append((mt.and_(bad, mt.apply(("is", id(p)), lambda q: mt.TRUE if q is p else mt.FALSE, ptr)), "%s of %d bytes at a variable offset of %s (%d bytes)" % (what, sz, p.obj.name, p.obj.size)))
            return r
        if mt.is_leaf(ptr) and (isU(ptr.val) or ptr.val.off.sconst() is not None):
            return ptr
        if not any((not isU(p)) and p.off.sconst() is None for p in mt.leaves(ptr)):
            return ptr
        return mt.apply(("spread", self.uid_spread(), sz), f, ptr)

    def uid_spread(self):
        self.uid += 1
        return self.uid

    def ptr_leaves(self, ptr):
        """[(selector, Ptr)] first is the default"""
        if mt.is_leaf(ptr):
            return [(mt.TRUE, ptr.val)]
        vals = mt.leaves(ptr)
        out = []
        for v in vals:
            target = mt.leaf(v)
            sel = mt.apply(("is", target.id), lambda x, t=target: mt.TRUE if mt.leaf(x) is t else mt.FALSE, ptr)
            out.append((sel, v))
        return out

    def padd(self, ptr, k):
        if k == 0:
            return ptr
        return lift(("padd", k), lambda p: Ptr(p.obj, A.iadd(p.off, iconst(64, k))), ptr)

    def store(self, st, ptr, t, v, cond):
        if t[0] in ('vec', 'arr'):
            es = tsize(t[2])
            for i in range(t[1]):
                self.store(st, self.padd(ptr, i * es), t[2], v[i], cond)
            return
        if t[0] == 'st':
            for i, x in enumerate(t[2]):
                self.store(st, self.padd(ptr, field_offset(t, i)), x, v[i], cond)
            return
        if t[0] == 'i' and odd_bytes(t[1]):
            w = 8 * ((t[1] + 7) // 8)
            if w != t[1]:
                v = lift("zx%d" % w, lambda x: int_ext(x, w, "zext"), v)
            for o, k in odd_bytes(t[1]):
                x = lift("oddst%d.%d.%d" % (o, k, w), lambda q: int_trunc(ishift("lshr", q, 8 * o), 8 * k), v)
                self.store(st, self.padd(ptr, o), ('i', 8 * k), x, cond)
            return
        sz = tsize(t)
        kind = kind_of(t)
        if t == ('i', 1):
            v = b2i(v, 8)
        elif t[0] == 'i' and t[1] != 8 * sz:
            w = 8 * sz
            v = lift("zx%d" % w, lambda x: int_ext(x, w, "zext"), v)
        ptr = self.spread(ptr, sz, cond, "store")
        ls = self.ptr_leaves(ptr)
        for sel, p in ls:
            if p == U:
                continue
            off = p.off.sconst()
            if off is None:
                if p.obj is not None and p.obj.size is not None and p.obj.size <= 4096:
                    idx = self.enum_index(p.off, p.obj.size, sz)
                    if idx is not None:
                        for c, o2 in idx:
                            old = self.read_cells(p.obj, st.mem.get(p.obj, {}), o2, t if t != ('i', 1) else ('i', 8))
                            self.put(st, p.obj, o2, sz, kind, mt.ite(mt.and_(sel, c), v, old))
                        continue
                raise Unsupported("store at a variable offset of %s" % (p.obj.name if p.obj else "null"))
            if not self.bounds(p.obj, off, sz, mt.and_(cond, sel), "store"):
                continue
            if p.obj.kind == "global" and getattr(p.obj, "const", False):
                self.oob.append((cond, "store to constant %s" % p.obj.name))
            if sel is mt.TRUE:
                nv = v
            else:
                old = self.read_cells(p.obj, st.mem.get(p.obj, {}), off, t if t != ('i', 1) else ('i', 8))
                nv = mt.ite(sel, v, old)
            self.put(st, p.obj, off, sz, kind, nv)

    def put(self, st, o, off, sz, kind, v):
        cells = st.wcells(o)
        c = cells.get(off)
        if c is None or c[0] != sz:
            self.carve(o, cells, off, sz)
        cells[off] = (sz, kind, v)

    def carve(self, o, cells, off, sz):
        for k in [k for k, c in cells.items() if k < off + sz and off < k + c[0]]:
            c = cells.pop(k)
            # keep the pieces outside [off, off+sz)
            for a, b in ((k, off), (off + sz, k + c[0])):
                if a >= b or a < k or b > k + c[0]:
                    continue
                if c[2] is BAD:
                    cells[a] = (b - a, 'bad', BAD)
                elif c[1] == 'raw':
                    cells[a] = (b - a, 'raw', (c[2][0], c[2][1] + a - k))
                elif c[1][0] in 'if':
                    cw = 8 * c[0]
                    v = c[2] if c[1][0] == 'i' else self.convert(c[1], c[2], ('i', cw))
                    sh = 8 * (a - k)
                    w = 8 * (b - a)
                    cells[a] = (b - a, 'i%d' % w, lift("sub%d.%d" % (sh, w), lambda x: int_trunc(ishift("lshr", x, sh), w), v))
                else:
                    cells[a] = (b - a, 'bad', BAD)

    def memcpy(self, st, dst, src, n, cond):
        if n == 0:
            return
        src = self.spread(src, n, cond, "copy from")
        dst = self.spread(dst, n, cond, "copy to")
        if not mt.is_leaf(src) or not mt.is_leaf(dst):
            # word by word under the selectors
            i = 0
            got = []
            while i < n:
                w = 8
                if n % 8 or self.has_small(st, src, i):
                    w = 4
                while i + w > n:
                    w //= 2
                v, t = self.load_any(st, self.padd(src, i), w, cond)
                got.append((i, t, v))
                i += w
            for i, t, v in got:
                self.store(st, self.padd(dst, i), t, v, cond)
            return
        d, s = dst.val, src.val
        if isU(d, s):
            return
        do, so = d.off.sconst(), s.off.sconst()
        if do is None or so is None:
            raise Unsupported("memcpy at variable offset")
        ok1 = self.bounds(s.obj, so, n, cond, "copy from")
        ok2 = self.bounds(d.obj, do, n, cond, "copy to")
        if not (ok1 and ok2):
            return
        src_cells = st.mem.get(s.obj, {})
        if s.obj.kind == "global" and s.obj.has_init and not src_cells:
            src_cells = s.obj.init
        new = []
        covered = []
        tmp = dict(src_cells)
        # cut cells on the boundary
        for edge in (so, so + n):
            for k, c in list(tmp.items()):
                if k < edge < k + c[0]:
                    self_c = tmp.pop(k)
                    if self_c[2] is BAD:
                        tmp[k] = (edge - k, 'bad', BAD); tmp[edge] = (k + self_c[0] - edge, 'bad', BAD)
                    elif self_c[1] == 'raw':
                        tmp[k] = (edge - k, 'raw', self_c[2])
                        tmp[edge] = (k + self_c[0] - edge, 'raw', (self_c[2][0], self_c[2][1] + edge - k))
                    else:
                        v = self.convert(self_c[1], self_c[2], ('i', 8 * self_c[0]))
                        for a, b in ((k, edge), (edge, k + self_c[0])):
                            sh, w = 8 * (a - k), 8 * (b - a)
                            tmp[a] = (b - a, 'i%d' % w, lift("sub%d.%d" % (sh, w), lambda x: int_trunc(ishift("lshr", x, sh), w), v))
        for k, c in tmp.items():
            if so <= k and k + c[0] <= so + n:
                new.append((k - so, c))
                covered.append((k, k + c[0]))
        covered.sort()
        # uncovered ranges keep the source's initial content
        gaps = []
        pos = so
        for a, b in covered:
            if a > pos:
                gaps.append((pos, a))
            pos = max(pos, b)
        if pos < so + n:
            gaps.append((pos, so + n))
        if s.obj.kind in ("arg",) or (s.obj.kind == "global" and not s.obj.has_init) or (s.obj.kind == "global" and src_cells is not s.obj.init):
            for a, b in gaps:
                p = a
                while p < b:
                    q = min(b, (p // 8 + 1) * 8)
                    new.append((p - so, (q - p, 'raw', (s.obj, p))))
                    p = q
        cells = st.wcells(d.obj)
        self.carve(d.obj, cells, do, n)
        for k, c in new:
            cells[do + k] = c
        if gaps and s.obj.kind not in ("arg",) and d.obj.kind == "arg":
            for a, b in gaps:
                cells[do + a - so] = (b - a, 'i%d' % (8 * (b - a)) if b - a in (1, 2, 4, 8) else 'pad', mt.leaf(U))

    def has_small(self, st, ptr, i):
        for sel, p in self.ptr_leaves(ptr):
            if isU(p) or p.obj is None or p.off.sconst() is None:
                continue
            off = p.off.sconst() + i
            cells = st.mem.get(p.obj, {}) or (p.obj.init if p.obj.kind == "global" else {})
            for k, c in cells.items():
                if off <= k < off + 8 and c[0] < 8 and c[1] != 'raw':
                    return True
            if p.obj.kind == "arg":
                for k, z in p.obj.init:
                    if z < 8 and off <= k < off + 8:
                        return True
        return False

    def load_any(self, st, ptr, sz, cond):
        for sel, p in self.ptr_leaves(ptr):
            if p == U or p.obj is None:
                continue
            off = p.off.sconst()
            c = st.mem.get(p.obj, {}).get(off) if off is not None else None
            if c is None and p.obj.kind == "global":
                c = p.obj.init.get(off)
            if c is None and p.obj.kind == "arg":
                c = p.obj.init.get((off, sz))
            if c is not None and c[0] == sz:
                if c[1] in ('f64', 'f32'):
                    t = ('f', int(c[1][1:]))
                elif c[1] == 'ptr':
                    t = ('ptr',)
                elif c[1] == 'raw':
                    rc = c[2][0].init.get((c[2][1], sz))
                    t = ('i', 8 * sz)
                    if rc is not None and rc[1][0] == 'f':
                        t = ('f', 8 * sz)
                else:
                    t = ('i', 8 * sz)
                return self.load(st, ptr, t, cond), t
        t = ('i', 8 * sz)
        return self.load(st, ptr, t, cond), t

    def memset(self, st, dst, val, n, cond):
        if not mt.is_leaf(dst):
            raise Unsupported("memset to several targets")
        d = dst.val
        if isU(d):
            return
        off = d.off.sconst()
        if off is None:
            raise Unsupported("memset at variable offset")
        if not self.bounds(d.obj, off, n, cond, "memset"):
            return
        c = val.val.const() if mt.is_leaf(val) and not isU(val.val) else None
        if c is None:
            raise Unsupported("memset of a variable byte")
        cells = st.wcells(d.obj)
        self.carve(d.obj, cells, off, n)
        p = off
        while p < off + n:
            q = 8 if p % 8 == 0 and p + 8 <= off + n else (4 if p % 4 == 0 and p + 4 <= off + n else 1)
            cells[p] = (q, 'i%d' % (8 * q), mt.leaf(iconst(8 * q, int.from_bytes(bytes([c]) * q, 'big'))))
            p += q

    def merge(self, ins):
        """ins: [(cond, State)] -> State"""
        if len(ins) == 1:
            return ins[0][1].fork()
        out = State()
        ev = ins[-1][1].events
        for c, s in reversed(ins[:-1]):
            ev = mt.ite(c, s.events, ev)
        out.events = ev
        objs = {}
        for _, s in ins:
            for o in s.mem:
                objs[o] = 1
        for o in objs:
            maps = [s.mem.get(o) for _, s in ins]
            if all(m is maps[0] for m in maps):
                out.mem[o] = maps[0]
                continue
            present = [m for m in maps if m is not None]
            if len(present) < len(maps) and o.kind in ("alloca", "heap"):
                pass
            res = {}
            offs = {}
            for m in present:
                for k, c in m.items():
                    offs.setdefault(k, set()).add(c[0])
            # refine to common granularity when the sizes differ
            bad = False
            ks = sorted(offs)
            ivals = []
            for k in ks:
                if len(offs[k]) > 1:
                    bad = True
                for s in offs[k]:
                    ivals.append((k, k + s))
            ivals.sort()
            for x, y in zip(ivals, ivals[1:]):
                if y[0] < x[1] and x != y:
                    bad = True
            if bad:
                cuts = sorted({p for iv in ivals for p in iv})
                mm = []
                for m in maps:
                    if m is None:
                        mm.append(None)
                        continue
                    m = dict(m)
                    for k, c in list(m.items()):
                        inner = [p for p in cuts if k < p < k + c[0]]
                        if inner:
                            pts = [k] + inner + [k + c[0]]
                            m.pop(k)
                            for a, b in zip(pts, pts[1:]):
                                if c[2] is BAD:
                                    m[a] = (b - a, 'bad', BAD)
                                elif c[1] == 'raw':
                                    m[a] = (b - a, 'raw', (c[2][0], c[2][1] + a - k))
                                elif c[1] == 'ptr' or c[1] == 'pad':
                                    m[a] = (b - a, 'bad', BAD)
                                else:
                                    v = self.convert(c[1], c[2], ('i', 8 * c[0]))
                                    sh, w = 8 * (a - k), 8 * (b - a)
                                    m[a] = (b - a, 'i%d' % w, lift("sub%d.%d" % (sh, w), lambda x: int_trunc(ishift("lshr", x, sh), w), v))
                    mm.append(m)
                maps = mm
                offs = {}
                for m in maps:
                    if m:
                        for k, c in m.items():
                            offs.setdefault(k, set()).add(c[0])
            for k in offs:
                sz = max(offs[k])
                cs = [(m.get(k) if m is not None else None) for m in maps]
                first = next(c for c in cs if c is not None)
                if all(c is not None and c[0] == first[0] and c[1] == first[1] and (c[2] is first[2] or (c[1] == 'raw' and c[2] == first[2])) for c in cs):
                    res[k] = first
                    continue
                kinds = {c[1] for c in cs if c is not None and c[1] != 'raw' and c[2] is not BAD}
                if any(c is not None and c[2] is BAD for c in cs):
                    res[k] = (sz, 'bad', BAD)
                    continue
                if not kinds:
                    t = ('f', 64) if sz == 8 else ('i', 8 * sz)
                    if sz == 8:
                        for c in cs:
                            if c is not None:
                                rc = c[2][0].init.get((c[2][1], 8))
                                if rc is not None and rc[1] != 'f64':
                                    t = ('i', 64) if rc[1] == 'i64' else ('ptr',)
                else:
                    kd = sorted(kinds)[0] if len(kinds) == 1 else ('f64' if 'f64' in kinds and 'ptr' not in kinds else sorted(kinds)[0])
                    if kd == 'pad':
                        res[k] = (sz, 'bad', BAD)
                        continue
                    t = ('ptr',) if kd == 'ptr' else ((kd[0] == 'f' and 'f' or 'i'), int(kd[1:]))
                vals = []
                try:
                    for m, c in zip(maps, cs):
                        if c is None:
                            vals.append(self.initial(o, k, t) if o.kind in ("arg", "global") else mt.leaf(U))
                        elif c[1] == 'raw':
                            vals.append(self.initial(c[2][0], c[2][1], t))
                        else:
                            vals.append(self.convert(c[1], c[2], t))
                except Unsupported:
                    res[k] = (sz, 'bad', BAD)
                    continue
                v = vals[-1]
                for (c, _), x in zip(reversed(ins[:-1]), reversed(vals[:-1])):
                    v = zero_reduce(mt.ite(c, x, v))
                res[k] = (sz, kind_of(t), v)
            out.mem[o] = res
            out.owned.add(o)
        return out

    # ------------------------------------------------------------ expressions
    def gep(self, bt, ops):
        base = ops[0][1]
        acc = None       # N of IntV
        t = bt
        koff = 0
        for n, (it, iv) in enumerate(ops[1:]):
            if n == 0:
                scale = tsize(bt)
            elif t[0] == 'st':
                i = iv.val.const()
                koff += field_offset(t, i)
                t = t[2][i]
                continue
            else:
                t = t[2]
                scale = tsize(t)
            if mt.is_leaf(iv) and not isU(iv.val) and iv.val.const() is not None:
                koff += iv.val.sconst() * scale
            else:
                w = it[1]

                def f(x, scale=scale, w=w):
                    if w != 64:
                        x = int_ext(x, 64, "sext") if w < 64 else int_trunc(x, 64)
                    return A.imul(x, iconst(64, scale))
                y = lift(("gepidx", scale, w), f, iv)
                acc = y if acc is None else lift("iadd", A.iadd, acc, y)
        r = self.padd(base, koff)
        if acc is not None:
            r = lift("ptradd", lambda p, o: Ptr(p.obj, A.iadd(p.off, o)), r, acc)
        return r

    def cast(self, op, ft, v, tt):
        if ft[0] == 'vec' and tt[0] == 'vec' and ft[1] == tt[1]:
            return tuple(self.cast(op, ft[2], x, tt[2]) for x in v)
        if op == 'bitcast' and (ft[0] == 'vec' or tt[0] == 'vec'):
            return self.bitcast_vec(ft, v, tt)
        if op == 'trunc':
            if tt[1] == 1:
                return bit0(v)
            return lift("tr%d" % tt[1], lambda x: int_trunc(x, tt[1]), v)
        if op in ('zext', 'sext'):
            if ft[1] == 1:
                if op == 'zext':
                    return b2i(v, tt[1])
                return mt.ite(v, mt.leaf(iconst(tt[1], -1)), mt.leaf(iconst(tt[1], 0)))
            return lift("%s%d" % (op, tt[1]), lambda x: int_ext(x, tt[1], op), v)
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            def f(x):
                c = x.const()
                if c is not None:
                    try:
                        return rconst(Fraction(struct.unpack('>f', struct.pack('>f', float(c)))[0])) if tt[1] == 32 else A.ratom(A.fn_atom("fptrunc%d" % tt[1], (x,)))
                    except OverflowError:
                        return INFA() if c > 0 else A.rneg(INFA())
                return narrow(x, tt[1])
            return lift("fptrunc%d" % tt[1], f, v)
        if op in ('sitofp', 'uitofp'):
            s = op == 'sitofp'
            if ft[1] == 1:
                return mt.ite(v, mt.leaf(rconst(-1 if s else 1)), mt.leaf(RZERO))
            return lift(op + str(tt[1]) if Opt.round_ints else op, lambda x: i2r_rounded(x, s, tt[1]) if Opt.round_ints else i2r(x, s), v)
        if op in ('fptosi', 'fptoui'):
            return lift("%s%d" % (op, tt[1]), lambda x: r2i(x, tt[1], op), v)
        if op in ('ptrtoint', 'ptrtoaddr'):
            r = lift("p2i", self.p2i, v)
            for x in mt.leaves(v):
                if not isU(x) and x.obj is not None:
                    self.objs[x.obj.uid] = x.obj
            if tt[1] != 64:
                r = lift("tr%d" % tt[1], lambda x: int_trunc(x, tt[1]), r)
            return r
        if op == 'inttoptr':
            if ft[1] != 64:
                v = lift("zext64", lambda x: int_ext(x, 64, "zext"), v)
            return lift("i2p" + self.tag, self.i2p, v)
        if op == 'bitcast':
            if ft == tt:
                return v
            if ft[0] == 'f' and tt[0] == 'i':
                return lift("bits%d" % tt[1], lambda x: bits_of(x, tt[1]), v)
            if ft[0] == 'i' and tt[0] == 'f':
                return lift("frombits", from_bits, v)
        if op == 'addrspacecast':
            return v
        raise Unsupported("cast %s %r" % (op, (ft, tt)))

    def bitcast_vec(self, ft, v, tt):
        if ft[0] == 'vec' and tt[0] == 'vec':
            fs, ts = ft[2], tt[2]
            fw = fs[1] if fs[0] in 'if' else 64
            tw = ts[1] if ts[0] in 'if' else 64
            if fw == tw:
                return tuple(self.cast('bitcast', fs, x, ts) for x in v)
            w = fw * ft[1]
            return self.bitcast_vec(('i', w), self.bitcast_vec(ft, v, ('i', w)), tt)
        if ft[0] == 'vec' and tt[0] == 'i':
            if ft[2] == ('i', 1):
                acc = None
                for i, b in enumerate(v):
                    x = mt.ite(b, mt.leaf(iconst(tt[1], 1 << i)), mt.leaf(iconst(tt[1], 0)))
                    acc = x if acc is None else lift("iadd", A.iadd, acc, x)
                return acc
            fw = ft[2][1] if ft[2][0] in 'if' else 64
            w = tt[1]
            acc = None
            for i, b in enumerate(v):
                x = b if ft[2][0] == 'i' else self.cast('bitcast', ft[2], b, ('i', fw))
                sh = fw * i
                x = lift("cat%d.%d" % (w, sh), lambda q: A.imul(int_ext(q, w, "zext"), iconst(w, 1 << sh)), x)
                acc = x if acc is None else lift("iadd", A.iadd, acc, x)
            return acc
        if ft[0] == 'i' and tt[0] == 'vec' and tt[2][0] in 'if' and tt[2] != ('i', 1):
            tw = tt[2][1]
            out = []
            for i in range(tt[1]):
                sh = tw * i
                x = lift("sub%d.%d" % (sh, tw), lambda q: int_trunc(ishift("lshr", q, sh), tw), v)
                out.append(x if tt[2][0] == 'i' else self.cast('bitcast', ('i', tw), x, tt[2]))
            return tuple(out)
        raise Unsupported("vector bitcast")

    def binop(self, op, t, a, b):
        if t[0] == 'vec':
            return tuple(self.binop(op, t[2], x, y) for x, y in zip(a, b))
        if t[0] == 'f':
            if Opt.exact and op in ROUNDED:
                return lift(op + "!", ROUNDED[op], a, b)
            f = {"fadd": A.radd, "fsub": A.rsub, "fmul": A.rmul, "fdiv": rdivz, "frem": lambda x, y: A.ratom(A.fn_atom("frem", (x, y)))}[op]
            return lift(op, f, a, b)
        if t == ('i', 1):
            if op == 'and':
                return mt.and_(a, b)
            if op == 'or':
                return mt.or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return mt.ite(a, mt.not_(b), b)
            if op == 'mul':
                return mt.and_(a, b)
            raise Unsupported("i1 " + op)
        return lift("i" + op, lambda x, y: int_bin2(op, x, y), a, b)

    def cmp(self, kind, pred, t, a, b):
        if t[0] == 'vec':
            return tuple(self.cmp(kind, pred, t[2], x, y) for x, y in zip(a, b))
        if kind == 'fcmp':
            return mt.apply(("fcmp", pred), lambda x, y: fcmp(pred, x, y), a, b)
        if t == ('i', 1):
            e = mt.ite(a, b, mt.not_(b))
            if pred == 'eq':
                return e
            if pred == 'ne':
                return mt.not_(e)
            if pred in ('ult', 'sgt'):
                return mt.and_(mt.not_(a), b)
            if pred in ('ugt', 'slt'):
                return mt.and_(a, mt.not_(b))
            if pred in ('ule', 'sge'):
                return mt.or_(mt.not_(a), b)
            return mt.or_(a, mt.not_(b))
        return mt.apply(("icmp", pred), lambda x, y: int_cmp(pred, x, y), a, b)

    # ------------------------------------------------------------ functions
    def parsed(self, f):
        if not getattr(f, "done", False):
            for lab in f.order:
                f.blocks[lab] = [parse_instr(s, self.M.types) for s in f.blocks[lab]]
            f.done = True
            f.succ = {}
            for lab in f.order:
                last = f.blocks[lab][-1]
                if last.op == 'br':
                    f.succ[lab] = [last.a[1]] if last.a[0] is None else [last.a[1], last.a[2]]
                elif last.op == 'switch':
                    f.succ[lab] = [last.a[2]] + [x[1] for x in last.a[3]]
                else:
                    f.succ[lab] = []
            self.structure(f)
        return f

    def structure(self, f):
        # reverse postorder, natural loops
        entry = f.order[0]
        post = []
        seen = set()
        stack = [(entry, iter(f.succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        f.rpo = rpo
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in f.succ[b]:
                preds[s].append(b)
        # dominators
        dom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in dom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]:
                            x = dom[x]
                        while idx[y] > idx[x]:
                            y = dom[y]
                    n = x
                if dom.get(b) != n:
                    dom[b] = n
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in f.succ[b]:
                if idx[s] <= idx[b]:
                    if not dominates(s, b):
                        f.irreducible = True
                        raise Unsupported("irreducible control flow in " + f.name)
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        f.loops = loops
        f.idx = idx

    def run(self, name, args, st, cond):
        f = self.M.funcs[name]
        self.parsed(f)
        self.depth += 1
        if self.depth > 24:
            raise Unsupported("call depth (recursion) in " + name)
        env = {}
        for (t, nm, at), a in zip(f.params, args):
            env[nm] = a
        rets = []
        frame = (f, env, rets)
        self.region(frame, f.order[0], set(f.rpo), [(cond, st, {})], None)
        self.depth -= 1
        if not rets:
            return None, st, mt.FALSE
        c = mt.FALSE
        for r in rets:
            c = mt.or_(c, r[0])
        s = self.merge([(r[0], r[1]) for r in rets])
        v = rets[-1][2]
        for r in reversed(rets[:-1]):
            v = self.select(r[0], r[2], v)
        return v, s, c

    def select(self, c, a, b):
        if isinstance(a, tuple):
            return tuple(self.select(c, x, y) for x, y in zip(a, b))
        if a is None:
            return None
        return zero_reduce(mt.ite(c, a, b))

    def region(self, frame, header, body, entry, parent):
        """execute the loop (or function) region; returns exit edges [(target, edge)]"""
        f, env, rets = frame
        exits = []
        cur = entry
        order = [b for b in f.rpo if b in body]
        inner = {}
        for h, bd in f.loops.items():
            if h != header and h in body and bd <= body:
                # outermost inner loops only
                inner[h] = bd
        top = {h: bd for h, bd in inner.items() if not any(h in bd2 and h != h2 for h2, bd2 in inner.items())}
        isloop = header in f.loops and parent is not None
        if isloop and all(f.succ[b] and all(t in body for t in f.succ[b]) for b in body) and not any(" call " in str(i) or "invoke" in str(i) for b in body for i in f.blocks[b]):
            raise Unsupported("never returns: the loop at %s of %s has no exit" % (header, f.name))
        it = 0
        while True:
            pending = {header: cur}
            nxt = []
            skip = set()

            def route(tgt, edge):
                if tgt == header and isloop:
                    nxt.append(edge)
                elif tgt in body:
                    pending.setdefault(tgt, []).append(edge)
                else:
                    exits.append((tgt, edge))
            for b in order:
                if b in skip:
                    continue
                if b in top and b != header:
                    ins = pending.pop(b, None)
                    skip |= top[b]
                    if ins:
                        for tgt, e in self.region(frame, b, top[b], ins, header):
                            route(tgt, e)
                    continue
                ins = pending.pop(b, None)
                if not ins:
                    continue
                for tgt, e in self.block(frame, b, ins):
                    route(tgt, e)
            if not isloop or not nxt:
                return exits
            nxt = [e for e in nxt if polyhedra.satisfiable(e[0])]
            live = mt.FALSE
            for e in nxt:
                live = mt.or_(live, e[0])
            if live is mt.FALSE:
                return exits
            it += 1
            self.loops += 1
            if it > Opt.max_iter:
                raise Unsupported("loop at %s of %s does not unroll" % (header, f.name))
            cur = nxt

    def block(self, frame, b, ins):
        f, env, rets = frame
        self.nblocks += 1
        cond = mt.FALSE
        for e in ins:
            cond = mt.or_(cond, e[0])
        if cond is mt.FALSE:
            return []
        st = self.merge([(e[0], e[1]) for e in ins])
        # phis
        for nm in ins[0][2]:
            v = ins[-1][2][nm]
            for e in reversed(ins[:-1]):
                v = self.select(e[0], e[2][nm], v)
            env[nm] = v
        instrs = f.blocks[b]
        V = lambda t, v: env[v[1]] if v[0] == 'loc' else self.const(t, v)
        for k, I in enumerate(instrs):
            op = I.op
            self.ninstr += 1
            if op == 'phi':
                continue
            try:
                if op in BIN:
                    t, a, c = I.a
                    env[I.res] = self.binop(op, t, V(t, a), V(t, c))
                elif op == 'load':
                    t, p, at = I.a
                    env[I.res] = self.load(st, V(('ptr',), p), t, cond)
                elif op == 'store':
                    t, v, p = I.a
                    self.store(st, V(('ptr',), p), t, V(t, v), cond)
                elif op == 'getelementptr':
                    bt, ops = I.a
                    env[I.res] = self.gep(bt, [(t, V(t, v)) for t, v in ops])
                elif op in ('icmp', 'fcmp'):
                    pred, t, a, c = I.a
                    env[I.res] = self.cmp(op, pred, t, V(t, a), V(t, c))
                elif op == 'select':
                    ct, c, t, x, y = I.a
                    cv = V(ct, c)
                    if isinstance(cv, tuple):
                        env[I.res] = tuple(mt.ite(cc, p, q) for cc, p, q in zip(cv, V(t, x), V(t, y)))
                    else:
                        env[I.res] = self.select(cv, V(t, x), V(t, y))
                elif op in CASTS:
                    ft, v, tt = I.a
                    env[I.res] = self.cast(op, ft, V(ft, v), tt)
                elif op == 'fneg':
                    t, v = I.a
                    x = V(t, v)
                    env[I.res] = tuple(lift("fneg", A.rneg, e) for e in x) if isinstance(x, tuple) else lift("fneg", A.rneg, x)
                elif op == 'freeze':
                    t, v = I.a
                    env[I.res] = V(t, v)
                elif op == 'alloca':
                    t, n = I.a
                    if n != 1 and not (isinstance(n, tuple) and n[0] == 'ci'):
                        raise Unsupported("dynamic alloca")
                    cnt = 1 if n == 1 else n[2]
                    o = self.newobj("%s:%s" % (f.name, I.res), "alloca", tsize(t) * cnt)
                    st.mem[o] = {}
                    st.owned.add(o)
                    env[I.res] = mt.leaf(Ptr(o, iconst(64, 0)))
                elif op == 'call':
                    rt, callee, args = I.a
                    nxt = instrs[k + 1].op if k + 1 < len(instrs) else ''
                    r = self.call(frame, st, cond, rt, callee, [(t, V(t, v) if v[0] != 'meta' else None) for t, v in args], nxt == 'unreachable', I)
                    if r == 'stop':
                        return []
                    if isinstance(r, tuple) and len(r) == 3 and r[0] == 'ret':
                        _, val, (st2, c2) = r
                        st = st2
                        cond = c2
                        if I.res:
                            env[I.res] = val
                        if cond is mt.FALSE:
                            return []
                    elif I.res:
                        env[I.res] = r
                elif op == 'extractvalue':
                    t, v, idx = I.a
                    x = V(t, v)
                    for i in idx:
                        x = x[i]
                    env[I.res] = x
                elif op == 'insertvalue':
                    t, v, et, e, idx = I.a
                    env[I.res] = ins_agg(V(t, v), idx, V(et, e))
                elif op == 'extractelement':
                    t, v, it, i = I.a
                    iv = V(it, i)
                    env[I.res] = V(t, v)[iv.val.const()]
                elif op == 'insertelement':
                    t, v, et, e, it, i = I.a
                    x = list(V(t, v))
                    x[V(it, i).val.const()] = V(et, e)
                    env[I.res] = tuple(x)
                elif op == 'shufflevector':
                    t, a, c, mt_, m = I.a
                    src = list(V(t, a)) + list(V(t, c))
                    if m[0] == 'agg':
                        idx = [(None if e[0] == 'undef' else e[2]) for e in m[2]]
                    elif m[0] == 'zero':
                        idx = [0] * mt_[1]
                    else:
                        idx = [None] * mt_[1]
                    env[I.res] = tuple(src[i] if i is not None else self.undef(t[2]) for i in idx)
                elif op == 'br':
                    if I.a[0] is None:
                        return self.edge(frame, b, [(I.a[1], cond)], st)
                    c = V(('i', 1), I.a[0])
                    return self.edge(frame, b, [(I.a[1], mt.and_(cond, c)), (I.a[2], mt.and_(cond, mt.not_(c)))], st)
                elif op == 'switch':
                    t, v, d, cases = I.a
                    x = V(t, v)
                    rest = cond
                    outs = []
                    for cv, lab in cases:
                        e = self.cmp('icmp', 'eq', t, x, self.const(t, cv))
                        outs.append((lab, mt.and_(rest, e)))
                        rest = mt.and_(rest, mt.not_(e))
                    outs.append((d, rest))
                    return self.edge(frame, b, outs, st)
                elif op == 'ret':
                    t, v = I.a
                    rets.append((cond, st, None if v is None else V(t, v)))
                    return []
                elif op == 'unreachable':
                    self.unreach = mt.or_(self.unreach, cond)
                    return []
                elif op == 'fence':
                    pass
                else:
                    raise Unsupported("instruction " + I.line)
            except Unsupported as e:
                if not getattr(e, "located", False):
                    e.located = True
                    e.args = ("%s  [in %s: %s]" % (e.args[0], f.name, I.line[:160]),)
                raise
        return []

    def edge(self, frame, b, outs, st):
        f, env, rets = frame
        merged = {}
        order = []
        for lab, c in outs:
            if c is mt.FALSE:
                continue
            if lab in merged:
                merged[lab] = mt.or_(merged[lab], c)
            else:
                merged[lab] = c
                order.append(lab)
        res = []
        for lab in order:
            phis = {}
            for I in f.blocks[lab]:
                if I.op != 'phi':
                    break
                t, inc = I.a
                for v, p in inc:
                    if p == b:
                        phis[I.res] = env[v[1]] if v[0] == 'loc' else self.const(t, v)
                        break
            res.append((lab, (merged[lab], st.fork(), phis)))
        return res

    # ------------------------------------------------------------ calls
    def event(self, st, cond, name, args):
        vs = []
        for a in args:
            if isinstance(a, tuple):
                vs.extend(a)
            elif a is not None:
                vs.append(a)

        def f(ev, *xs):
            return mt.leaf(EvT(ev, (name,) + xs))
        ev = mt.apply(("event", name), lambda e, *xs: f(e, *xs), st.events, *vs)
        st.events = ev

    def call(self, frame, st, cond, rt, callee, args, noreturn, I):
        from .calls import do_call
        return do_call(self, frame, st, cond, rt, callee, args, noreturn, I)


class EvT(tuple):
    def __new__(cls, prev, item):
        return tuple.__new__(cls, tuple(prev) + (item,))

    def key(self):
        return ("E", tuple((it[0],) + tuple(x.key() if hasattr(x, "key") else x for x in it[1:]) for it in self))


def ins_agg(agg, idx, v):
    x = list(agg)
    if len(idx) == 1:
        x[idx[0]] = v
    else:
        x[idx[0]] = ins_agg(x[idx[0]], idx[1:], v)
    return tuple(x)


def int_bin2(op, x, y):
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        raise Unsupported("integer op on pointer")
    if op == 'and':
        # alignment tests on addresses
        for a, b in ((x, y), (y, x)):
            c = b.const()
            if c is not None and c < 16 and (c & (c + 1)) == 0:
                off = {m: k for m, k in a.p.items() if not (len(m) == 1 and k == 1 and A.ATOMS[m[0][0]].fn.startswith("addr:"))}
                if len(off) != len(a.p):
                    r = IntV(a.w, off).const()
                    if r is not None:
                        return iconst(a.w, r & c)
    return int_bin(op, x, y)


def narrow(x, w):
    """rounding to a narrower float: nothing is lost of a value computed from operands of that precision"""
    return x if carries(x) == w else A.odd("fptrunc%d" % w, x)


_CARRY = {}
CARRYING = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "exp2", "log", "log2", "log10", "pow", "sqrt", "abs", "hyp", "floor", "ceil", "trunc", "round"}


def carries(x):
    """the precision of the float operands a value is computed from: None when there are none, 0 when they differ or are unknown"""
    ids = set()
    for p in [x.num] + [A.FACTORS[f] for f in x.den]:
        for m in p:
            ids.update(i for i, _ in m)
    w = None
    for i in ids:
        k = A.ATOMS[i]
        c = _CARRY.get(k.id)
        if c is None:
            if k.args:
                if k.fn in ("s2r", "u2r"):
                    c = (None,)
                elif k.fn in CARRYING and all(isinstance(a, A.Rat) for a in k.args):
                    ws = {carries(a) for a in k.args} - {None}
                    c = (ws.pop(),) if len(ws) == 1 else (0,) if ws else (None,)
                elif k.fn.startswith("fptrunc"):
                    c = (int(k.fn[7:]),)
                else:
                    c = (0,)
            else:
                m = re.search(r":f(16|32|128)$", k.fn)
                c = (int(m.group(1)) if m else 0,)
            _CARRY[k.id] = c
        if c[0] is not None:
            if w is not None and w != c[0]:
                return 0
            w = c[0]
    return w


def i2r_rounded(x, signed, w):
    """conversion to a float that does not hold every value of the integer type: kept apart from the exact value"""
    r = i2r(x, signed)
    m = {16: 11, 32: 24, 64: 53}.get(w)
    if m is None or x.w <= m or x.const() is not None:
        return r
    q = int_range(x, signed)
    if q and -(1 << m) <= q[0] and q[1] <= 1 << m:
        return r
    return A.ratom(A.fn_atom("rnd%d" % m, (r,)))


def i2r(x, signed):
    c = x.const()
    if c is not None:
        return rconst(A.signed_coef(x.w, c) if signed else c)
    # conversion distributes over sums that cannot wrap
    if not (len(x.p) == 1 and list(x.p.values()) == [1]) and int_range(x, signed) is None:
        return A.ratom(A.fn_atom("s2r" if signed else "u2r", (x,)))
    r = RZERO
    for m, c in x.p.items():
        t = rconst(A.signed_coef(x.w, c))
        for i, e in m:
            at = A.ATOMS[i]
            s = signed
            base = IntV(x.w, {((i, 1),): 1})
            if at.fn in ("zext",) and at.args:
                base = at.args[0]; s = False
            elif at.fn == "sext" and at.args:
                base = at.args[0]; s = True
            fn = "s2r" if s else "u2r"
            sa = single_atom(base)
            t = A.rmul(t, A.rpow(A.ratom(A.fn_atom(fn, (base,))), e))
        r = A.radd(r, t)
    return r


def r2i(x, w, op):
    c = x.const()
    if c is not None:
        v = math.trunc(c)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op.startswith('fptosi') else (0, (1 << w) - 1)
        return iconst(w, min(max(v, lo), hi))
    a = has_atom(x, "INF")
    sa = A.as_scaled_atom(x)
    if sa and sa[0] == 1 and sa[1].fn in ("trunc",) and sa[1].args:
        x = sa[1].args[0]
    if sa and sa[0] == 1 and sa[1].fn in ("s2r", "u2r") and sa[1].args and sa[1].args[0].w <= w and \
            ((sa[1].fn == "s2r") == (op == "fptosi") or sa[1].fn == "u2r" and sa[1].args[0].w < w):
        return int_ext(sa[1].args[0], w, "sext" if sa[1].fn == "s2r" else "zext") if sa[1].args[0].w < w else sa[1].args[0]
    return A.iatom(w, op, (x,))


def reset_all():
    LOADS.clear()
    A.reset()
    mt.reset()
    polyhedra.reset()
    SIGN.clear()
    _CARRY.clear()
    INTS.clear()
    RANGES.clear()


from . import polyhedra  # noqa: E402  (needs the definitions above)
