"""Normal forms for value numbers.

Reals are rational functions over *atoms* (inputs and uninterpreted or partly
interpreted function applications) with exact rational coefficients; machine
integers are polynomials modulo 2^w over atoms.  Nothing here executes the
analysed program: values are names for what a program point computes.
"""
from fractions import Fraction
import math

TOL = Fraction(1, 10**9)          # relative tolerance between two constants of a normal form


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "fn", "args", "nonneg", "text", "kind")

    def __init__(self, id, fn, args, nonneg, kind):
        self.id, self.fn, self.args, self.nonneg, self.kind = id, fn, args, nonneg, kind


ATOMS = []
_BY_FN = {}
_INPUT = {}
NONNEG_FN = {"sqrt", "exp", "cosh", "abs", "u2r", "hyp"}


def input_atom(name, kind="real", nonneg=False):
    key = (name, kind)
    a = _INPUT.get(key)
    if a is None:
        a = Atom(len(ATOMS), name, (), nonneg, kind)
        ATOMS.append(a)
        _INPUT[key] = a
    return a


def _same_arg(x, y):
    if x is y:
        return True
    if type(x) is not type(y):
        return False
    if isinstance(x, Rat):
        return rat_eq(x, y)
    if isinstance(x, IntV):
        return x.key() == y.key()
    if isinstance(x, tuple):
        return len(x) == len(y) and all(_same_arg(a, b) for a, b in zip(x, y))
    return x == y


def fn_atom(fn, args, kind="real"):
    lst = _BY_FN.setdefault((fn, kind, len(args)), [])
    for a in lst:
        if all(_same_arg(x, y) for x, y in zip(a.args, args)):
            return a
    a = Atom(len(ATOMS), fn, tuple(args), fn in NONNEG_FN, kind)
    ATOMS.append(a)
    lst.append(a)
    return a


def reset():
    ATOMS.clear(); _BY_FN.clear(); _INPUT.clear(); FACTORS.clear(); _FKEY.clear(); _SQ.clear()


# ----------------------------------------------------------------- polynomials
# monomial: tuple of (atom id, exponent) sorted by id; poly: dict mono -> Fraction
ONE = ()


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]:
            out.append(x); i += 1
        else:
            out.append(y); j += 1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)


def poly_add(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c * k
        else:
            v = v + c * k
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


LIMIT_TERMS = 40000


def poly_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            if c == 1:
                return q
            return {k: v * c for k, v in q.items()}
        return {mono_mul(m, k): v * c for k, v in q.items()}
    if len(p) * len(q) > LIMIT_TERMS * 20:
        raise Unsupported("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                v += c1 * c2
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    return r


def poly_pow(p, n):
    r = {ONE: Fraction(1)}
    b = p
    while n:
        if n & 1:
            r = poly_mul(r, b)
        n >>= 1
        if n:
            b = poly_mul(b, b)
    return r


def mono_key(m):
    return (sum(e for _, e in m), m)


def lead(p):
    return max(p, key=mono_key)


def mono_div(a, b):
    """a / b or None."""
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def _lex_key(m):
    # lexicographic order (a monomial order compatible with multiplication)
    return tuple((-i, e) for i, e in m)


def poly_divexact(p, f):
    """p / f when f divides p exactly, else None (graded-lex division)."""
    if len(p) < 1:
        return p
    def gk(m):
        return (sum(e for _, e in m), _dense(m))
    ids = sorted({i for m in list(p) + list(f) for i, _ in m})
    pos = {i: k for k, i in enumerate(ids)}

    def _dense(m):
        v = [0] * len(ids)
        for i, e in m:
            v[pos[i]] = e
        return tuple(v)
    lf = max(f, key=gk)
    cf = f[lf]
    r = dict(p)
    out = {}
    steps = 0
    limit = 4 * len(p) + 50
    while r:
        lr = max(r, key=gk)
        m = mono_div(lr, lf)
        if m is None:
            return None
        c = r[lr] / cf
        out[m] = c
        for fm, fc in f.items():
            k = mono_mul(fm, m)
            v = r.get(k, 0) - fc * c
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
        steps += 1
        if steps > limit:
            return None
    return out


# ----------------------------------------------------------------- denominators
FACTORS = []      # id -> poly with leading coefficient 1
_FKEY = {}


def factor_id(p):
    k = frozenset(p.items())
    i = _FKEY.get(k)
    if i is None:
        # approximate match
        for j, q in enumerate(FACTORS):
            if len(q) == len(p) and poly_close(p, q):
                _FKEY[k] = j
                return j
        i = len(FACTORS)
        FACTORS.append(p)
        _FKEY[k] = i
    return i


def poly_close(p, q):
    if p.keys() != q.keys():
        return False
    for m, c in p.items():
        d = q[m]
        if c != d and abs(c - d) > TOL * max(abs(c), abs(d)):
            return False
    return True


def den_poly(den):
    """the denominator multiplied out"""
    p = {ONE: Fraction(1)}
    for f, k in den.items():
        for _ in range(k):
            p = poly_mul(p, FACTORS[f])
    return p


class Rat:
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = ("R", frozenset(self.num.items()), frozenset(self.den.items()))
        return self._key

    def const(self):
        if self.den:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and ONE in self.num:
            return self.num[ONE]
        return None

    def __repr__(self):
        return show(self)


def rconst(c):
    c = Fraction(c)
    return Rat({ONE: c} if c else {})


RZERO = rconst(0)
RONE = rconst(1)


def ratom(a):
    return Rat({((a.id, 1),): Fraction(1)})


def _reduce_num(num):
    """Apply sqrt(a)^2 -> a and cos(a)^2 -> 1-sin(a)^2; returns Rat or None if nothing to do."""
    todo = None
    for m in num:
        for i, e in m:
            if e >= 2:
                fn = ATOMS[i].fn
                if (fn == "sqrt" or fn == "cos") and ATOMS[i].args:
                    todo = True
                    break
        if todo:
            break
    if not todo:
        return None
    total = None
    plain = {}
    acc = []
    for m, c in num.items():
        special = None
        for i, e in m:
            if e >= 2 and ATOMS[i].args and ATOMS[i].fn in ("sqrt", "cos"):
                special = (i, e)
                break
        if special is None:
            v = plain.get(m, 0) + c
            if v == 0:
                plain.pop(m, None)
            else:
                plain[m] = v
            continue
        i, e = special
        rest = tuple((a, b) for a, b in m if a != i)
        if e & 1:
            rest = mono_mul(rest, ((i, 1),))
        base = Rat({rest: c})
        at = ATOMS[i]
        if at.fn == "sqrt":
            rep = at.args[0]
        else:
            s = ratom(fn_atom("sin", at.args))
            rep = rsub(RONE, rmul(s, s))
        acc.append(rmul(base, rpow(rep, e // 2)))
    total = Rat(plain)
    for a in acc:
        total = radd(total, a)
    return total


def _norm(num, den):
    """build a Rat from raw num/den, reducing."""
    if not num:
        return RZERO
    r = _reduce_num(num)
    if r is not None:
        if den:
            d2 = dict(r.den)
            for f, k in den.items():
                d2[f] = d2.get(f, 0) + k
            return _norm(r.num, d2)
        return r
    if den:
        den = dict(den)
        # cancel single-atom factors
        for f in list(den):
            fp = FACTORS[f]
            if len(fp) == 1:
                (m, _), = fp.items()
                aid = m[0][0]
                k = den[f]
                mn = k
                for mm in num:
                    e = 0
                    for i, x in mm:
                        if i == aid:
                            e = x
                            break
                    if e < mn:
                        mn = e
                        if mn == 0:
                            break
                if mn:
                    num = {_mono_drop(mm, aid, mn): c for mm, c in num.items()}
                    if k == mn:
                        del den[f]
                    else:
                        den[f] = k - mn
            else:
                while f in den and len(num) >= 1:
                    if len(num) < 2:
                        break
                    q = poly_divexact(num, fp) if _maybe_div(num, fp) else None
                    if q is None:
                        break
                    num = q
                    den[f] -= 1
                    if den[f] == 0:
                        del den[f]
    if len(num) > LIMIT_TERMS:
        raise Unsupported("normal form too large")
    return Rat(num, den)


def _maybe_div(num, fp):
    ids = set()
    for m in fp:
        for i, _ in m:
            ids.add(i)
    have = set()
    for m in num:
        for i, _ in m:
            have.add(i)
    return ids <= have


def _mono_drop(m, aid, k):
    return tuple((i, e) if i != aid else (i, e - k) for i, e in m if not (i == aid and e == k))


def _lift(num, den, full):
    for f, k in full.items():
        d = k - den.get(f, 0)
        if d:
            num = poly_mul(num, poly_pow(FACTORS[f], d))
    return num


def radd(a, b, k=1):
    if a.den == b.den:
        n = poly_add(a.num, b.num, k)
        return _norm(n, a.den) if a.den else Rat(n)
    full = dict(a.den)
    for f, e in b.den.items():
        if full.get(f, 0) < e:
            full[f] = e
    n = poly_add(_lift(a.num, a.den, full), _lift(b.num, b.den, full), k)
    return _norm(n, full)


def rsub(a, b):
    return radd(a, b, -1)


def rneg(a):
    return Rat({m: -c for m, c in a.num.items()}, a.den)


# Naming of large intermediate values (off unless an obligation asks for it): a factor or divisor with
# more terms than CAP is replaced by an atom that stands for exactly that normal form. Sound for equality:
# two named values agree only if their normal forms do.
CAP = None
# functions whose values an obligation wants kept as atoms without their laws (cos(asin u) stays as it is);
# sound for equality: what holds for every value of the atom holds for this one
OPAQUE = ()


def name_big(a):
    lc = a.num[lead(a.num)]
    u = Rat({m: c / lc for m, c in a.num.items()}, a.den)
    return Rat({((fn_atom("named", (u,)).id, 1),): lc})


def rmul(a, b):
    if not a.num or not b.num:
        return RZERO
    if CAP is not None:
        if len(a.num) > CAP and b.const() is None:
            a = name_big(a)
        if len(b.num) > CAP and a.const() is None:
            b = name_big(b)
    n = poly_mul(a.num, b.num)
    if not a.den and not b.den:
        d = {}
    else:
        d = dict(a.den)
        for f, k in b.den.items():
            d[f] = d.get(f, 0) + k
    return _norm(n, d)


def rinv(a):
    if not a.num:
        raise Unsupported("division by the constant zero")
    if CAP is not None and len(a.num) > CAP:
        a = name_big(a)
    # 1/(N/D) = D/N
    num = {ONE: Fraction(1)}
    for f, k in a.den.items():
        num = poly_mul(num, poly_pow(FACTORS[f], k))
    n = a.num
    # split the common monomial of N
    common = None
    for m in n:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        if not common:
            break
    out = Rat(num)
    if common:
        cm = tuple(sorted(common.items()))
        n = {mono_div(m, cm): c for m, c in n.items()}
        for i, e in cm:
            at = ATOMS[i]
            if at.fn == "sqrt" and at.args:
                # 1/s = s / radicand
                out = rmul(out, rpow(rmul(ratom(at), rinv(at.args[0])), e))
            else:
                out = _norm(out.num, _addden(out.den, factor_id({((i, 1),): Fraction(1)}), e))
    lc = n[lead(n)]
    if lc != 1:
        n = {m: c / lc for m, c in n.items()}
    if len(n) == 1 and ONE in n:
        return Rat({m: c / lc for m, c in out.num.items()}, out.den)
    # rationalise a binomial with a sqrt?  (a + b*s): multiply by the conjugate
    sq = [i for i in {i for m in n for i, _ in m} if ATOMS[i].fn == "sqrt" and ATOMS[i].args]
    if len(sq) == 1 and len(n) <= 12:
        i = sq[0]
        conj = {m: (-c if any(x == i for x, _ in m) else c) for m, c in n.items()}
        prod = _norm(poly_mul(n, conj), {})
        if prod.num and not any(x == i for m in prod.num for x, _ in m):
            r = rmul(Rat(conj), rinv(prod))
            r = rmul(out, r)
            return Rat({m: c / lc for m, c in r.num.items()}, r.den)
    d = _addden(out.den, factor_id(n), 1)
    return _norm({m: c / lc for m, c in out.num.items()}, d)


def _addden(den, f, k):
    d = dict(den)
    d[f] = d.get(f, 0) + k
    return d


def rdiv(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by the constant zero")
        return Rat({m: v / c for m, v in a.num.items()}, a.den)
    if not a.num:
        return RZERO
    return rmul(a, rinv(b))


def rpow(a, n):
    if n < 0:
        return rinv(rpow(a, -n))
    if CAP is not None and n > 1 and len(a.num) > CAP:
        a = name_big(a)
    r = RONE
    b = a
    while n:
        if n & 1:
            r = rmul(r, b)
        n >>= 1
        if n:
            b = rmul(b, b)
    return r


def rat_eq(a, b):
    if a is b:
        return True
    if a.den == b.den:
        return num_close(a.num, b.num)
    full = dict(a.den)
    for f, e in b.den.items():
        if full.get(f, 0) < e:
            full[f] = e
    x = _norm(_lift(a.num, a.den, full), {})
    y = _norm(_lift(b.num, b.den, full), {})
    if x.den != y.den:
        d = rsub(x, y)
        return not d.num
    return num_close(x.num, y.num)


def num_close(p, q):
    if p == q:
        return True
    scale = None
    for m in p.keys() | q.keys():
        c = p.get(m, 0)
        d = q.get(m, 0)
        if c == d:
            continue
        if c == 0 or d == 0:
            # a residue of rounding in constants: only relative to the largest coefficient
            if scale is None:
                scale = max([abs(x) for x in p.values()] + [abs(x) for x in q.values()])
            if abs(c - d) > Fraction(1, 10**14) * scale:
                return False
            continue
        if abs(c - d) > TOL * max(abs(c), abs(d)):
            return False
    return True


# ----------------------------------------------------------------- sign knowledge
def poly_sign(p):
    """+1: > 0 when any variable nonzero / has positive constant; 0+: >= 0 ; None unknown."""
    if not p:
        return "0"
    strict = False
    sgn = None
    for m, c in p.items():
        s = 1 if c > 0 else -1
        for i, e in m:
            if e % 2 and not ATOMS[i].nonneg:
                return None
        if sgn is None:
            sgn = s
        elif sgn != s:
            return None
        if not m or all(ATOMS[i].fn == "exp" for i, _ in m):
            strict = True
    if sgn == 1:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


def rat_sign(r):
    s = poly_sign(r.num)
    if s is None or s == "0":
        return s
    neg = False
    for f, k in r.den.items():
        if k % 2 == 0:
            continue
        t = poly_sign(FACTORS[f])
        if t is None:
            return None
        if t[-1] == "-" or t == "-":
            neg = not neg
    if neg:
        return {"+": "-", "0+": "0-", "-": "+", "0-": "0+"}[s]
    return s


# ----------------------------------------------------------------- functions
def lead_negative(r):
    if not r.num:
        return False
    return r.num[lead(r.num)] < 0


def as_scaled_atom(r):
    """r = c * atom -> (c, atom) else None"""
    if r.den or len(r.num) != 1:
        return None
    (m, c), = r.num.items()
    if len(m) == 1 and m[0][1] == 1:
        return c, ATOMS[m[0][0]]
    return None


def isqrt_frac(c):
    """exact sqrt of a Fraction if it is a square, else a close rational"""
    n, d = c.numerator, c.denominator
    sn, sd = math.isqrt(n), math.isqrt(d)
    if sn * sn == n and sd * sd == d:
        return Fraction(sn, sd)
    k = 10 ** 40
    return Fraction(math.isqrt(n * k * k // d), k)


def f_sqrt(a):
    if "sqrt" in OPAQUE and a.const() is None and a.num:
        return name_big(_f_sqrt(a))
    return _f_sqrt(a)


def _f_sqrt(a):
    c = a.const()
    if c is not None:
        if c < 0:
            return ratom(fn_atom("sqrt", (a,)))
        return rconst(isqrt_frac(c))
    # pull denominators of known sign / even powers out
    outden = {}
    outnum = RONE
    num = a.num
    inden = {}
    for f, k in a.den.items():
        s = poly_sign(FACTORS[f])
        if s in ("+", "0+"):
            # sqrt(N/f^k) = sqrt(N) * sqrt(f)^(k%2) / f^ceil(k/2)
            if k % 2:
                outnum = rmul(outnum, f_sqrt(Rat(dict(FACTORS[f]))))
                outden[f] = (k + 1) // 2
            else:
                outden[f] = k // 2
        else:
            inden[f] = k
    # even powers of non-negative atoms common to the whole numerator
    common = None
    for m in num:
        d = {i: e for i, e in m if e >= 2 and ATOMS[i].nonneg}
        common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
        if not common:
            break
    if common and (len(num) > 1 or inden):
        common = {i: e - e % 2 for i, e in common.items()}
        num = {tuple((i, e - common.get(i, 0)) for i, e in m if e != common.get(i, 0)): c for m, c in num.items()}
        outnum = rmul(outnum, Rat({tuple(sorted((i, e // 2) for i, e in common.items())): Fraction(1)}))
    rad = _norm(num, inden)
    lc = rad.num[lead(rad.num)]
    if lc < 0:
        lc = -lc
    coef = isqrt_frac(lc)
    if lc != 1:
        rad = Rat({m: c / lc for m, c in rad.num.items()}, rad.den)
    rc = rad.const()
    if rc == 1:
        s = rconst(coef)
    else:
        s = None
        # perfect square monomial over nonneg atoms
        if not rad.den and len(rad.num) == 1:
            (m, c), = rad.num.items()
            if c == 1 and all(e % 2 == 0 and ATOMS[i].nonneg for i, e in m):
                s = rmul(Rat({tuple((i, e // 2) for i, e in m): Fraction(1)}), rconst(coef))
        if s is None:
            s = rmul(ratom(fn_atom("sqrt", (rad,))), rconst(coef))
    if outnum is not RONE:
        s = rmul(s, outnum)
    if outden:
        s = rmul(s, _norm({(): Fraction(1)}, outden))
    return s


def square_atom(r):
    """an atom sqrt(q^2) occurring in r -> (atom id, q), else None"""
    for p in [r.num] + [FACTORS[f] for f in r.den]:
        for m in p:
            for i, _ in m:
                at = ATOMS[i]
                if at.fn == "sqrt" and at.args:
                    q = square_root_poly(at.args[0])
                    if q is not None:
                        return i, q
    return None


def subst_atom(r, aid, val):
    """r with the atom replaced by val (a Rat)"""
    def ev(p):
        acc = RZERO
        for m, c in p.items():
            t = rconst(c)
            rest = []
            for i, e in m:
                if i == aid:
                    t = rmul(t, rpow(val, e))
                else:
                    rest.append((i, e))
            acc = radd(acc, rmul(t, Rat({tuple(rest): Fraction(1)})))
        return acc
    out = ev(r.num)
    for f, k in r.den.items():
        out = rdiv(out, rpow(ev(FACTORS[f]), k))
    return out


def square_root_poly(a):
    """If a = q^2 for a polynomial q over any atoms return q (sign ambiguous)."""
    if a.den:
        return None
    if 3 <= len(a.num) <= 80:
        q = _poly_sqrt(a.num)
        return None if q is None else Rat(q)
    if len(a.num) != 1:
        return None
    (m, c), = a.num.items()
    if c > 0 and m and all(e % 2 == 0 for _, e in m):
        return Rat({tuple((i, e // 2) for i, e in m): isqrt_frac(c)})
    return None


_SQ = {}


def _poly_sqrt(p):
    """q with q^2 = p, leading terms first (graded lexicographic order); None when p is no square"""
    key = frozenset(p.items())
    if key in _SQ:
        return _SQ[key]
    _SQ[key] = None

    def gk(m):
        return (sum(e for _, e in m), _lex_key(m))
    try:
        top, low = max(p, key=gk), min(p, key=gk)
    except TypeError:
        return None
    for m in (top, low):
        if p[m] <= 0 or any(e % 2 for _, e in m):
            return None
    half = tuple((i, e // 2) for i, e in top)
    c = isqrt_frac(p[top])
    q = {half: c}
    r = poly_add(p, poly_mul(q, q), -1)
    while r:
        m = max(r, key=gk)
        t = mono_div(m, half)
        if t is None or len(q) > len(p) or t in q:
            return None
        k = r[m] / (2 * c)
        term = {t: k}
        r = poly_add(r, poly_mul(poly_add(q, q), term), -1)
        r = poly_add(r, poly_mul(term, term), -1)
        q = poly_add(q, term)
    _SQ[key] = q
    return q


def odd(fn, a):
    if lead_negative(a):
        return rneg(ratom(fn_atom(fn, (rneg(a),))))
    return ratom(fn_atom(fn, (a,)))


PI = Fraction(math.pi)


def _int_multiple(a):
    """a = n * b with integer n>1 where b's leading coefficient is 1 (used to expand angles)"""
    if not a.num:
        return None
    lc = a.num[lead(a.num)]
    if lc.denominator == 1 and lc > 1 and lc <= 4:
        if all(c % lc == 0 for c in a.num.values()):
            return int(lc), Rat({m: c / lc for m, c in a.num.items()}, a.den)
    return None


def f_sin(a):
    if not a.num:
        return RZERO
    c = a.const()
    if c is not None:
        return rconst(Fraction(math.sin(c)))
    if lead_negative(a):
        return rneg(f_sin(rneg(a)))
    im = _int_multiple(a)
    if im:
        n, b = im
        s, c = f_sin(b), f_cos(b)
        sn, cn = s, c
        for _ in range(n - 1):
            sn, cn = radd(rmul(sn, c), rmul(cn, s)), rsub(rmul(cn, c), rmul(sn, s))
        return sn
    sa = as_scaled_atom(a)
    if sa and sa[0] == 1 and sa[1].args:
        at = sa[1]
        if at.fn == "asin":
            return at.args[0]
        if at.fn == "acos":
            x = at.args[0]
            return f_sqrt(rsub(RONE, rmul(x, x)))
        if at.fn == "atan2":
            y, x = at.args
            return rdiv(y, f_sqrt(radd(rmul(x, x), rmul(y, y))))
        if at.fn == "atan":
            x = at.args[0]
            return rdiv(x, f_sqrt(radd(rmul(x, x), RONE)))
    return ratom(fn_atom("sin", (a,)))


def f_cos(a):
    if not a.num:
        return RONE
    c = a.const()
    if c is not None:
        return rconst(Fraction(math.cos(c)))
    if lead_negative(a):
        return f_cos(rneg(a))
    im = _int_multiple(a)
    if im:
        n, b = im
        s, c = f_sin(b), f_cos(b)
        sn, cn = s, c
        for _ in range(n - 1):
            sn, cn = radd(rmul(sn, c), rmul(cn, s)), rsub(rmul(cn, c), rmul(sn, s))
        return cn
    sa = as_scaled_atom(a)
    if sa and sa[0] == 1 and sa[1].args:
        at = sa[1]
        if at.fn == "acos":
            return at.args[0]
        if at.fn == "asin":
            x = at.args[0]
            return f_sqrt(rsub(RONE, rmul(x, x)))
        if at.fn == "atan2":
            y, x = at.args
            return rdiv(x, f_sqrt(radd(rmul(x, x), rmul(y, y))))
        if at.fn == "atan":
            x = at.args[0]
            return rdiv(RONE, f_sqrt(radd(rmul(x, x), RONE)))
    return ratom(fn_atom("cos", (a,)))


def f_tan(a):
    return rdiv(f_sin(a), f_cos(a))


def f_exp(a):
    c = a.const()
    if c is not None:
        if c == 0:
            return RONE
        return rconst(Fraction(math.exp(c)))
    if lead_negative(a):
        return rinv(f_exp(rneg(a)))
    return ratom(fn_atom("exp", (a,)))


def f_ln(a):
    c = a.const()
    if c is not None and c > 0:
        return RZERO if c == 1 else rconst(Fraction(math.log(c)))
    sa = as_scaled_atom(a)
    if sa and sa[1].fn == "exp" and sa[1].args and sa[0] == 1:
        return sa[1].args[0]
    return ratom(fn_atom("ln", (a,)))


def f_pow(a, b):
    c = b.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64:
            return rpow(a, int(c))
        if c.denominator == 2 and abs(c) <= 16:
            n = int(c * 2)
            s = f_sqrt(a)
            return rpow(s, n)
        ac = a.const()
        if ac is not None and ac > 0:
            return rconst(Fraction(float(ac) ** float(c)))
        if c < 0:
            return rinv(ratom(fn_atom("pow", (a, rneg(b)))))
    elif lead_negative(b):
        return rinv(f_pow(a, rneg(b)))
    return ratom(fn_atom("pow", (a, b)))


def f_atan2(y, x):
    # odd in y (away from the branch cut)
    if lead_negative(y):
        return rneg(f_atan2(rneg(y), x))
    # common positive scale: constants and factors of known positive sign
    den = {}
    for f in set(y.den) | set(x.den):
        if poly_sign(FACTORS[f]) in ("+", "0+"):
            k = max(y.den.get(f, 0), x.den.get(f, 0))
            den[f] = k
    if den:
        p = {ONE: Fraction(1)}
        for f, k in den.items():
            p = poly_mul(p, poly_pow(FACTORS[f], k))
        y = rmul(y, Rat(p)); x = rmul(x, Rat(p))
    # common nonneg sqrt atoms
    while y.num and x.num:
        done = True
        for i, _ in next(iter(y.num)):
            if ATOMS[i].nonneg and all(any(j == i for j, _ in m) for m in y.num) and \
               all(any(j == i for j, _ in m) for m in x.num):
                y = Rat({_mono_drop(m, i, 1): c for m, c in y.num.items()}, y.den)
                x = Rat({_mono_drop(m, i, 1): c for m, c in x.num.items()}, x.den)
                done = False
                break
        if done:
            break
    if y.num:
        lc = y.num[lead(y.num)]
    elif x.num:
        lc = abs(x.num[lead(x.num)])
    else:
        lc = Fraction(1)
    if lc < 0:
        return rneg(f_atan2(rneg(y), x))
    if lc != 1:
        y = Rat({m: c / lc for m, c in y.num.items()}, y.den)
        x = Rat({m: c / lc for m, c in x.num.items()}, x.den)
    xc, yc = x.const(), y.const()
    if xc is not None and yc is not None:
        return rconst(Fraction(math.atan2(yc, xc)))
    if xc == 0 and rat_sign(y) == "+":
        return rconst(Fraction(math.pi / 2))
    if yc == 0 and rat_sign(x) == "+":
        return RZERO
    return ratom(fn_atom("atan2", (y, x)))


def f_unary(fn, a):
    c = a.const()
    if c is not None:
        try:
            v = {"asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh,
                 "tanh": math.tanh, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
                 "cbrt": lambda t: math.copysign(abs(t) ** (1 / 3), t)}.get(fn)
            if v is not None:
                return rconst(Fraction(v(c)))
        except ValueError:
            pass
    if fn in OPAQUE:
        return ratom(fn_atom("named", (ratom(fn_atom(fn, (a,))),)))
    if fn in ("asin", "atan", "sinh", "tanh", "cbrt", "trunc", "asinh", "atanh", "round", "roundeven"):
        return odd(fn, a)
    if fn == "cosh" and lead_negative(a):
        return f_unary("cosh", rneg(a))
    return ratom(fn_atom(fn, (a,)))


# ----------------------------------------------------------------- machine integers
class IntV:
    """polynomial with integer coefficients modulo 2^w over int atoms"""
    __slots__ = ("w", "p", "_key")

    def __init__(self, w, p):
        self.w = w
        M = 1 << w
        self.p = {m: c % M for m, c in p.items() if c % M}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = ("I", self.w, frozenset(self.p.items()))
        return self._key

    def const(self):
        if not self.p:
            return 0
        if len(self.p) == 1 and ONE in self.p:
            return self.p[ONE]
        return None

    def sconst(self):
        c = self.const()
        if c is None:
            return None
        return c - (1 << self.w) if c >> (self.w - 1) else c

    def __repr__(self):
        return show(self)


def iconst(w, v):
    return IntV(w, {ONE: v})


def iatom(w, fn, args):
    return IntV(w, {((fn_atom(fn, args, "i%d" % w).id, 1),): 1})


def iinput(w, name):
    return IntV(w, {((input_atom(name, "i%d" % w).id, 1),): 1})


def iadd(a, b, k=1):
    p = dict(a.p)
    for m, c in b.p.items():
        p[m] = p.get(m, 0) + k * c
    return IntV(a.w, p)


def imul(a, b):
    r = {}
    for m1, c1 in a.p.items():
        for m2, c2 in b.p.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return IntV(a.w, r)


def signed_coef(w, c):
    return c - (1 << w) if c >> (w - 1) else c




# ----------------------------------------------------------------- printing
def show_atom(a, depth=0):
    if isinstance(a, int):
        a = ATOMS[a]
    if not a.args:
        return a.fn
    if depth > 4:
        return a.fn + "(..)"
    return "%s(%s)" % (a.fn, ", ".join(show(x, depth + 1) for x in a.args))


def show_coef(c):
    if isinstance(c, int):
        return str(c)
    if c.denominator == 1 and abs(c.numerator) < 10 ** 15:
        return str(c.numerator)
    return repr(float(c))


def show_poly(p, depth=0):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0]))[:24]:
        ms = "*".join(show_atom(i, depth) + ("^%d" % e if e > 1 else "") for i, e in m)
        if not ms:
            out.append(show_coef(c))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append(show_coef(c) + "*" + ms)
    s = " + ".join(out)
    if len(p) > 24:
        s += " + ...(%d terms)" % len(p)
    return s


def show(v, depth=0):
    if isinstance(v, Rat):
        s = show_poly(v.num, depth)
        if v.den:
            d = "*".join("(%s)" % show_poly(FACTORS[f], depth) + ("^%d" % k if k > 1 else "") for f, k in v.den.items())
            s = "(%s)/%s" % (s, d)
        return s
    if isinstance(v, IntV):
        c = v.const()
        if c is not None:
            return str(signed_coef(v.w, c))
        return show_poly({m: signed_coef(v.w, c) for m, c in v.p.items()}, depth)
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, depth) for x in v) + ")"
    return str(v)
