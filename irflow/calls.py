"""Transfer functions of calls: compiler intrinsics, libm, allocation, panics,
uninterpreted functions, effects, and defined callees (evaluated in place)."""
import re
import struct
from fractions import Fraction
from . import algebra as A
from . import mt
from .algebra import Rat, IntV, Unsupported, rconst, iconst, RZERO, RONE
from .llparse import tsize
from . import ev as E
from .ev import lift, Ptr, U, isU, sign_of, Opt

NOOP = re.compile(r'^@llvm\.(lifetime|dbg|experimental\.noalias|assume|invariant|donothing|prefetch|var\.annotation|pseudoprobe|sideeffect)')
ALLOC = re.compile(r'__rust_alloc$|__rust_alloc_zeroed$|__rust_dealloc$|__rust_realloc$|__rust_no_alloc_shim_is_unstable\w*$')
V0ID = re.compile(r'\d+')
PANICNAME = re.compile(r'panic|unwrap_failed|expect_failed|slice_\w*fail|copy_from_slice|handle_error|handle_alloc_error|capacity_overflow|unreachable|bounds_check|cold|abort|trap')


def short(name):
    """last identifiers of a mangled name, for reports"""
    n = name.strip('@').strip('"')
    if n.startswith('_R'):
        ids = []
        i = 0
        s = n
        for m in re.finditer(r'(?<![A-Za-z0-9_])|(?=\d)', s):
            pass
        # decode <len><ident> runs greedily
        i = 2
        while i < len(s):
            if s[i].isdigit():
                j = i
                while j < len(s) and s[j].isdigit():
                    j += 1
                k = int(s[i:j])
                t = s[j:j + k]
                if t.startswith('_') and k > 1:
                    t2 = s[j + 1:j + 1 + k]
                    if len(t2) == k:
                        pass
                if len(t) == k and k > 1 and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', t):
                    ids.append(t)
                    i = j + k
                    continue
                i = j
            else:
                i += 1
        if ids:
            return '::'.join(ids[-4:])
    return n


def mant_round(x, p):
    return x


def fma_(a, b, c):
    def f(x, y, z):
        return A.radd(A.rmul(x, y), z)
    return lift("fma", f, a, b, c)


def vmap(fn, *args):
    """apply lane-wise when the operands are vectors"""
    if isinstance(args[0], tuple):
        return tuple(vmap(fn, *xs) for xs in zip(*[a if isinstance(a, tuple) else (a,) * len(args[0]) for a in args]))
    return fn(*args)


def f_powi(an, x, n, w=64):
    def f(a, k):
        c = k.sconst()
        if c is None:
            r = A.f_pow(a, E.i2r(k, True))
            return E.narrow(r, w) if w < 64 else r
        if c < 0:
            if a.const() is not None and a.const() == 0:
                return E.INFA()
            return A.rpow(A.rinv(a), -c)
        return A.rpow(a, c)
    return lift("powi%d" % w, f, x, n)


def f_pow(x, y):
    def f(a, b):
        c = b.const()
        if c is not None and c.denominator == 2 and c.numerator == 1:
            return E.rsqrt(a)
        return A.f_pow(a, b)
    return lift("pow", f, x, y)


def f_copysign(x, s):
    def f(a, b):
        mag = E.rfabs(a)
        c = b.const()
        if c is not None:
            return mag if c >= 0 else lift("fneg", A.rneg, mag)
        P, Z = sign_of(b)
        # the sign of zero is not tracked: zero counts as positive
        return mt.ite(mt.or_(P, Z), mag, lift("fneg", A.rneg, mag))
    return lift("copysign", f, x, s)


def f_round(name, x):
    def f(a):
        sa = A.as_scaled_atom(a)
        if sa and sa[0].denominator == 1 and sa[1].fn in ("s2r", "u2r", "floor", "ceil", "trunc", "round", "roundeven") and sa[1].args:
            return a
        return A.f_unary(name, a)
    return lift(name, f, x)


def f_hypot(x, y):
    return lift("hypot", lambda a, b: E.rsqrt(A.radd(A.rmul(a, a), A.rmul(b, b))), x, y)


def f_atan2(y, x):
    return lift("atan2", lambda a, b: A.f_atan2(a, b), y, x)


def f_math(name, x):
    fn = E.MATH1[name]
    if name in ("sin", "cos", "tan"):
        return lift("m:" + name, lambda a: E.split_squares(fn(a)), x)
    return lift("m:" + name, fn, x)


LIBM_CANON = {"rint": "roundeven", "nearbyint": "roundeven"}


def libm_call(name, args):
    """value of a libm function or None when it is not one"""
    r = libm_call2(name, args)
    if r is not None and name.endswith('f') and name not in ("erf",):
        # single precision: a constant result is the f32 one
        def rnd(x):
            if isU(x) or x.const() is None:
                return x
            return E.fconst(struct.unpack('f', struct.pack('f', float(x.const())))[0])
        r = lift("f32c", rnd, r)
    return r


ELEM = {"sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "asin", "acos", "atan", "atan2", "pow", "powi"}


def half(x):
    return x if isU(x) or x.const() is not None else E.narrow(x, 16)


def libm_call2(name, args):
    n = name
    if n.endswith("f128"):
        n = n[:-4]
    elif n.endswith("f16"):
        return lift("fptrunc16", half, libm_call2(n[:-3], args))
    if n.endswith('f') and n[:-1] in ("atan2", "pow", "hypot", "fmod", "fabs", "sqrt", "copysign", "fmin", "fmax", "fdim", "ldexp") :
        n = n[:-1]
    if n in E.LIBM:
        n = E.LIBM[n]
        n = LIBM_CANON.get(n, n)
        if n in ("floor", "ceil", "trunc", "round", "roundeven"):
            return f_round(n, args[0])
        return f_math(n, args[0])
    if n == "sqrt":
        return lift("sqrt", E.rsqrt, args[0])
    if n == "fabs":
        return lift("fabs", E.rfabs, args[0])
    if n == "atan2":
        return f_atan2(args[0], args[1])
    if n == "pow":
        return f_pow(args[0], args[1])
    if n == "hypot":
        return f_hypot(args[0], args[1])
    if n == "fmod":
        return lift("frem", lambda x, y: A.ratom(A.fn_atom("frem", (x, y))), args[0], args[1])
    if n == "fma":
        return fma_(*args)
    if n == "fmin":
        return E.fminmax("min", args[0], args[1])
    if n == "fmax":
        return E.fminmax("max", args[0], args[1])
    if n == "copysign":
        return f_copysign(args[0], args[1])
    if n in ("tgamma", "lgamma", "lgamma_r", "erf", "erfc"):
        return lift(n, lambda a: A.ratom(A.fn_atom(n, (a,))), args[0])
    return None


def masked(an, st, cond, rt, name, args):
    """a vector load or store of the lanes a mask selects; the others are not touched"""
    args = [x for x in args if x[0] != ('i', 32)]          # the alignment, where it is an operand
    if "load" in name:
        (_, ptr), (_, mask), (_, other) = args
        es, out = E.tsize(rt[2]), []
        for i in range(rt[1]):
            c = mt.and_(cond, mask[i])
            o = other[i] if isinstance(other, tuple) else mt.leaf(U)
            out.append(o if c is mt.FALSE else mt.ite(mask[i], an.load(st, an.padd(ptr, i * es), rt[2], c), o))
        return tuple(out)
    (vt, val), (_, ptr), (_, mask) = args
    es = E.tsize(vt[2])
    for i in range(vt[1]):
        c = mt.and_(cond, mask[i])
        if c is mt.FALSE:
            continue
        if c is not cond:
            if mask[i] is not mt.TRUE:
                raise Unsupported("masked store with a mask that is not fixed")
        an.store(st, an.padd(ptr, i * es), vt[2], val[i], c)
    return None


def ovf(an, op, signed, t, a, b):
    """(result, overflow) of {s,u}{add,sub,mul}.with.overflow"""
    w = t[1]

    def cond(x, y):
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            if signed:
                p, q = A.signed_coef(w, cx), A.signed_coef(w, cy)
                v = {"add": p + q, "sub": p - q, "mul": p * q}[op]
                return mt.TRUE if not (-(1 << (w - 1)) <= v < (1 << (w - 1))) else mt.FALSE
            v = {"add": cx + cy, "sub": cx - cy, "mul": cx * cy}[op]
            return mt.TRUE if v < 0 or v >= (1 << w) else mt.FALSE
        if not signed and op == "sub":
            return E.int_cmp("ult", x, y)
        if not signed and op == "add" and (cx is not None or cy is not None):
            # x + c overflows  <=>  x > MAX - c
            v, c = (y, cx) if cx is not None else (x, cy)
            return E.int_cmp("ugt", v, iconst(w, (1 << w) - 1 - c))
        if not signed and op == "mul" and (cx is not None or cy is not None):
            v, c = (y, cx) if cx is not None else (x, cy)
            if c == 0:
                return mt.FALSE
            return E.int_cmp("ugt", v, iconst(w, ((1 << w) - 1) // c))
        if signed and op in ("add", "sub") and cy is not None:
            c = A.signed_coef(w, cy)
            if op == "sub":
                c = -c
            if c >= 0:
                return E.int_cmp("sgt", x, iconst(w, (1 << (w - 1)) - 1 - c))
            return E.int_cmp("slt", x, iconst(w, -(1 << (w - 1)) - c))
        if signed and op == "add" and cx is not None:
            c = A.signed_coef(w, cx)
            if c >= 0:
                return E.int_cmp("sgt", y, iconst(w, (1 << (w - 1)) - 1 - c))
            return E.int_cmp("slt", y, iconst(w, -(1 << (w - 1)) - c))
        if signed and op == "mul" and (cx is not None or cy is not None):
            v, c = (y, cx) if cx is not None else (x, cy)
            c = A.signed_coef(w, c)
            if c == 0:
                return mt.FALSE
            mx, mn = (1 << (w - 1)) - 1, -(1 << (w - 1))
            if c > 0:
                return mt.or_(E.int_cmp("sgt", v, iconst(w, mx // c)), E.int_cmp("slt", v, iconst(w, -((-mn) // c))))
        rx, ry = E.int_range(x, signed), E.int_range(y, signed)
        if rx and ry:
            vs = [{"add": p + q, "sub": p - q, "mul": p * q}[op] for p in rx for q in ry]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if op == "sub":
                vs = [rx[0] - ry[1], rx[1] - ry[0]]
            if min(vs) >= lo and max(vs) <= hi:
                return mt.FALSE
        k = (x.key(), y.key())
        if op in ("add", "mul") and str(k[1]) < str(k[0]):
            x, y = y, x
        return mt.var(("ovf", op, signed, x.key(), y.key()), ("ovf", op, signed, x, y))

    def g(x, y):
        if isU(x, y):
            return mt.var(("undefcmp",), ("undef",))
        return cond(x, y)
    r = lift("i" + op, lambda x, y: E.int_bin2(op, x, y), a, b)
    o = mt.apply(("ovf", op, signed, w), g, a, b)
    return (r, o)


def iminmax(name, a, b):
    s = name[0]
    lt = mt.apply(("icmp", s + "lt"), lambda x, y: E.int_cmp(s + "lt", x, y), a, b)
    return mt.ite(lt, a, b) if name.endswith("min") else mt.ite(lt, b, a)


def iabs(w, a):
    neg = mt.apply(("icmp", "slt"), lambda x, y: E.int_cmp("slt", x, y), a, mt.leaf(iconst(w, 0)))
    return mt.ite(neg, lift("ineg", lambda x: A.iadd(iconst(w, 0), x, -1), a), a)


def r2i_sat(x, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    c = x.const()
    if c is not None:
        import math
        return mt.leaf(iconst(w, min(max(math.trunc(c), lo), hi)))
    a = E.has_atom(x, "INF")
    if a is not None and not x.den and len(x.num) == 1:
        return mt.leaf(iconst(w, hi if next(iter(x.num.values())) > 0 else lo))
    if E.has_atom(x, "NAN") is not None:
        return mt.leaf(iconst(w, 0))
    return mt.leaf(E.r2i(x, w, "fptosi" if signed else "fptoui"))


def fclass(mask, x):
    """llvm.is.fpclass for the classes the tree uses: nan, inf, finite"""
    NANM, PINF, NINF = 3, 512, 4
    PZ, NZ = 64, 32
    PN, PS, NN, NS = 256, 128, 8, 16

    def f(a):
        c = a.const()
        out = mt.FALSE
        nan = E.nanvar(a)
        inf = E.has_atom(a, "INF") is not None
        if mask & NANM:
            out = mt.or_(out, nan)
        if inf:
            pos = True
            for m, k in a.num.items():
                pos = k > 0
            hit = bool(mask & (PINF if pos else NINF))
            return mt.or_(out, mt.and_(mt.not_(nan), mt.TRUE if hit else mt.FALSE))
        fin = mask & (PZ | NZ | PN | PS | NN | NS)
        allfin = PZ | NZ | PN | PS | NN | NS
        if c is not None:
            b = (PZ if c == 0 else (PN if c > 0 else NN))
            return mt.TRUE if mask & b else mt.FALSE
        if Opt.strict_nan:
            iv = mt.var(("isinf", a.key()), ("isinf", a))
        else:
            iv = mt.FALSE
        P, Z = sign_of(a)
        r = mt.FALSE
        if fin == allfin:
            r = mt.not_(iv)
        elif fin:
            if mask & PN:
                r = mt.or_(r, mt.and_(P, mt.not_(iv)))
            if mask & NN:
                r = mt.or_(r, mt.and_(mt.and_(mt.not_(P), mt.not_(Z)), mt.not_(iv)))
            if mask & PZ or mask & NZ:
                r = mt.or_(r, Z)
        if mask & (PINF | NINF):
            if mask & PINF and mask & NINF:
                r = mt.or_(r, iv)
            else:
                r = mt.or_(r, mt.and_(iv, P if mask & PINF else mt.not_(P)))
        return mt.or_(out, mt.and_(mt.not_(nan), r))
    return mt.apply(("fpclass", mask), lambda a: mt.FALSE if isU(a) else f(a), x)


def intrinsic(an, st, cond, rt, name, args):
    """(handled, value)"""
    p = name[1:].split('.')
    n = p[1]
    av = [a for _, a in args]
    at = [t for t, _ in args]
    if n in ("memcpy", "memmove"):
        ln = av[2].val if mt.is_leaf(av[2]) else None
        k = ln.const() if isinstance(ln, IntV) else None
        if k is None:
            k = var_len(an, st, cond, av)
            if k is not None:
                return True, None
            raise Unsupported("copy of variable length")
        an.memcpy(st, av[0], av[1], k, cond)
        return True, None
    if n == "memset":
        ln = av[2].val if mt.is_leaf(av[2]) else None
        k = ln.const() if isinstance(ln, IntV) else None
        if k is None:
            raise Unsupported("memset of variable length")
        an.memset(st, av[0], av[1], k, cond)
        return True, None
    if n == "memcmp" or n == "bcmp":
        return False, None
    if n in ("expect",):
        return True, av[0]
    if n in ("is",) and p[2] == "fpclass":
        m = av[1].val.const()
        return True, vmap(lambda x: fclass(m, x), av[0])
    if n == "is" and p[2] == "constant":
        return True, mt.FALSE
    if n == "sqrt":
        return True, vmap(lambda x: lift("sqrt", E.rsqrt, x), av[0])
    if n == "fabs":
        return True, vmap(lambda x: lift("fabs", E.rfabs, x), av[0])
    if at and at[0] == ('f', 16) and n in ELEM:
        # a half is computed in single precision and rounded
        r = libm_call2(n, av) if n != "powi" else f_powi(an, av[0], av[1])
        return True, lift("fptrunc16", half, r)
    if n in ("sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "asin", "acos", "atan", "sinh", "cosh", "tanh"):
        return True, vmap(lambda x: f_math(n, x), av[0])
    if n in ("floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint"):
        m = LIBM_CANON.get(n, n)
        return True, vmap(lambda x: f_round(m, x), av[0])
    if n == "pow":
        return True, vmap(f_pow, av[0], av[1])
    if n == "atan2":
        return True, vmap(f_atan2, av[0], av[1])
    if n == "powi":
        return True, vmap(lambda x, k: f_powi(an, x, k, at[0][1] if at[0][0] == 'f' else 64), av[0], av[1])
    if n in ("fma", "fmuladd"):
        return True, vmap(fma_, av[0], av[1], av[2])
    if n in ("minnum", "minimumnum", "minimum"):
        return True, vmap(lambda x, y: E.fminmax("min", x, y), av[0], av[1])
    if n in ("maxnum", "maximumnum", "maximum"):
        return True, vmap(lambda x, y: E.fminmax("max", x, y), av[0], av[1])
    if n == "copysign":
        return True, vmap(f_copysign, av[0], av[1])
    if n in ("smin", "smax", "umin", "umax"):
        return True, vmap(lambda x, y: iminmax(n, x, y), av[0], av[1])
    if n == "abs":
        return True, vmap(lambda x: iabs(at[0][1] if at[0][0] == 'i' else at[0][2][1], x), av[0])
    if len(p) > 3 and p[2] == "with" and p[3] == "overflow":
        return True, ovf(an, n[1:], n[0] == 's', at[0], av[0], av[1])
    if len(p) > 2 and p[2] == "sat" and n[1:] in ("add", "sub"):
        w = at[0][1]
        r, o = ovf(an, n[1:], n[0] == 's', at[0], av[0], av[1])
        if n[0] == 'u':
            lim = mt.leaf(iconst(w, (1 << w) - 1 if n[1:] == "add" else 0))
        else:
            neg = mt.apply(("icmp", "slt"), lambda x, y: E.int_cmp("slt", x, y), av[0], mt.leaf(iconst(w, 0)))
            lim = mt.ite(neg, mt.leaf(iconst(w, 1 << (w - 1))), mt.leaf(iconst(w, (1 << (w - 1)) - 1)))
        return True, mt.ite(o, lim, r)
    if n in ("fptosi", "fptoui") and p[2] == "sat":
        w = rt[1] if rt[0] == 'i' else rt[2][1]
        return True, vmap(lambda x: lift("%ssat%d" % (n, w), lambda v: r2i_sat(v, w, n == "fptosi"), x), av[0])
    if n in ("scmp", "ucmp"):
        w = rt[1]
        lt = mt.apply(("icmp", n[0] + "lt"), lambda x, y: E.int_cmp(n[0] + "lt", x, y), av[0], av[1])
        eq = mt.apply(("icmp", "eq"), lambda x, y: E.int_cmp("eq", x, y), av[0], av[1])
        return True, mt.ite(lt, mt.leaf(iconst(w, -1)), mt.ite(eq, mt.leaf(iconst(w, 0)), mt.leaf(iconst(w, 1))))
    if n in ("ctpop", "ctlz", "cttz", "bitreverse", "bswap"):
        w = at[0][1]

        def f(x):
            c = x.const()
            if c is None:
                if n == "bswap":
                    sa = E.single_atom(x)
                    if sa is not None and sa.fn == "bswap" and sa.args:
                        return sa.args[0]
                return A.iatom(w, n, (x,))
            if n == "ctpop":
                return iconst(w, bin(c).count("1"))
            if n == "ctlz":
                return iconst(w, w - c.bit_length())
            if n == "cttz":
                return iconst(w, (c & -c).bit_length() - 1 if c else w)
            if n == "bswap":
                return iconst(w, int.from_bytes(c.to_bytes(w // 8, 'big'), 'little'))
            return iconst(w, int(format(c, '0%db' % w)[::-1], 2))
        return True, vmap(lambda x: lift("%s%d" % (n, w), f, x), av[0])
    if n in ("fshl", "fshr"):
        w = at[0][1]

        def f(x, y, k):
            c = k.const()
            if c is None:
                return A.iatom(w, n, (x, y, k))
            c %= w
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None:
                full = (cx << w) | cy
                sh = w - c if n == "fshl" else c
                return iconst(w, (full >> sh))
            if n == "fshr":
                c = (w - c) % w
                # fshr(x,y,k) = fshl(x,y,w-k) except k=0 -> y
                if k.const() % w == 0:
                    return y
            if c == 0:
                return x
            return A.iatom(w, "fshl", (x, y, iconst(w, c)))
        return True, vmap(lambda x, y, k: lift("%s%d" % (n, w), f, x, y, k), av[0], av[1], av[2])
    if n == "vector" and p[2] == "reduce":
        op = p[3]
        if op in ("fadd", "fmul"):
            acc = av[0]
            for x in av[1]:
                acc = lift(op, A.radd if op == "fadd" else A.rmul, acc, x)
            return True, acc
        acc = None
        for x in av[0]:
            if acc is None:
                acc = x
            elif op in ("add", "mul", "and", "or", "xor"):
                if rt == ('i', 1):
                    acc = an.binop(op, rt, acc, x)
                else:
                    acc = lift("i" + op, lambda a, b: E.int_bin2(op, a, b), acc, x)
            elif op in ("smin", "smax", "umin", "umax"):
                acc = iminmax(op, acc, x)
            elif op in ("fmin", "fmax", "fminimum", "fmaximum"):
                acc = E.fminmax("min" if "min" in op else "max", acc, x)
            else:
                raise Unsupported("vector.reduce." + op)
        return True, acc
    if n == "x86":
        return x86(an, name, av)
    if n in ("ptrmask", "threadlocal", "stacksave", "stackrestore"):
        if n == "threadlocal":
            return True, av[0]
        if n.startswith("stack"):
            return True, mt.leaf(U)
    if n in ("canonicalize", "arithmetic"):
        return True, av[0]
    if n == "ldexp":
        def f(x, k):
            c = k.sconst()
            if c is None:
                return A.ratom(A.fn_atom("ldexp", (x, k)))
            return A.rmul(x, rconst(Fraction(2) ** c))
        return True, lift("ldexp", f, av[0], av[1])
    if n == "masked" and p[2] in ("load", "store"):
        pass
    if n == "load" and p[2] == "relative":
        pass
    return False, None


def x86(an, name, av):
    if name.startswith("@llvm.x86.sse.") or name.startswith("@llvm.x86.sse2."):
        t = name.split('.')[3]
        if t in ("min", "max"):
            return True, tuple(E.fminmax(t, x, y) for x, y in zip(av[0], av[1]))
    raise Unsupported("x86 intrinsic " + name)


def var_len(an, st, cond, av):
    """copy whose length is one of a few constants: copy each under its selector"""
    lens = av[2]
    vals = mt.leaves(lens)
    if any(isU(v) or v.const() is None for v in vals) or len(vals) > 16:
        return None
    base = st.fork()
    states = []
    for v in vals:
        target = mt.leaf(v)
        sel = mt.apply(("is", target.id), lambda x, t=target: mt.TRUE if mt.leaf(x) is t else mt.FALSE, lens)
        s = base.fork()
        if v.const():
            an.memcpy(s, av[0], av[1], v.const(), mt.and_(cond, sel))
        states.append((sel, s))
    m = an.merge(states)
    st.mem = m.mem
    st.owned = m.owned
    return True


def new_heap(an, st, size, zero, cond):
    an.heap_n += 1
    o = an.newobj("heap#%d" % an.heap_n, "heap", size)
    o.serial = an.heap_n
    st.mem[o] = {}
    st.owned.add(o)
    p = mt.leaf(Ptr(o, iconst(64, 0)))
    an.objs[o.uid] = o
    if zero and size:
        an.memset(st, p, mt.leaf(iconst(8, 0)), size, cond)
    return p


def const_of(n, what):
    if mt.is_leaf(n) and not isU(n.val):
        c = n.val.const()
        if c is not None:
            return c
    return None


def do_call(an, frame, st, cond, rt, callee, args, noreturn, I):
    f, env, rets = frame
    kind, name = callee[0], callee[1]
    if kind == 'asm':
        if noreturn:
            an.panics.append((cond, "asm"))
            return 'stop'
        raise Unsupported("inline assembly")
    if kind == 'loc':
        target = env[name]
        vals = mt.leaves(target)
        if all(not isU(v) and v.obj is not None and v.obj.kind == "fn" for v in vals):
            if len(vals) == 1:
                name = vals[0].obj.name
            else:
                outs = []
                for v in vals:
                    tl = mt.leaf(v)
                    sel = mt.apply(("is", tl.id), lambda x, t=tl: mt.TRUE if mt.leaf(x) is t else mt.FALSE, target)
                    s2 = st.fork()
                    c2 = mt.and_(cond, sel)
                    if c2 is mt.FALSE:
                        continue
                    r = do_call(an, frame, s2, c2, rt, ('glob', v.obj.name), args, noreturn, I)
                    if r == 'stop':
                        continue
                    if isinstance(r, tuple) and len(r) == 3 and r[0] == 'ret':
                        outs.append((r[2][1], r[2][0], r[1]))
                    else:
                        outs.append((c2, s2, r))
                if not outs:
                    return 'stop'
                c = mt.FALSE
                for o in outs:
                    c = mt.or_(c, o[0])
                m = an.merge([(o[0], o[1]) for o in outs])
                v = outs[-1][2]
                for o in reversed(outs[:-1]):
                    v = an.select(o[0], o[2], v)
                return ('ret', v, (m, c))
        else:
            raise Unsupported("indirect call")
    name = an.M.aliases.get(name, name)
    bare = name[1:].strip('"')
    if bare.startswith("llvm."):
        if NOOP.match(name):
            return None
        if bare in ("llvm.trap", "llvm.ubsantrap", "llvm.debugtrap"):
            an.panics.append((cond, "abort"))
            return 'stop'
        if bare.startswith(("llvm.masked.load.", "llvm.masked.store.")):
            return masked(an, st, cond, rt, bare, args)
        ok, v = intrinsic(an, st, cond, rt, '@' + bare, args)
        if ok:
            return v
        raise Unsupported("intrinsic " + bare)
    av = [a for _, a in args]
    an.calls.add(name)
    m = ALLOC.search(bare)
    if m:
        k = m.group(0)
        if k.startswith("__rust_no_alloc"):
            return None
        if k == "__rust_dealloc":
            return None
        if k == "__rust_realloc":
            n = const_of(av[3], "size")
            old = const_of(av[1], "size")
            if n is None or old is None:
                raise Unsupported("reallocation of variable size")
            p = new_heap(an, st, n, False, cond)
            an.memcpy(st, p, av[0], min(n, old), cond)
            return p
        n = const_of(av[0], "size")
        if n is None:
            if all(not isU(x) and x.const() is not None for x in mt.leaves(av[0])):
                n = max(x.const() for x in mt.leaves(av[0]))
                o = new_heap(an, st, n, k.endswith("zeroed"), cond)
                return o
            o = new_heap(an, st, None, False, cond)
            if k.endswith("zeroed"):
                raise Unsupported("zeroed allocation of variable size")
            return o
        return new_heap(an, st, n, k.endswith("zeroed"), cond)
    if bare == "vf_assume":
        c = av[0]
        if args[0][0] != ('i', 1):
            c = mt.not_(mt.apply(("icmp", "eq"), lambda x, y: E.int_cmp("eq", x, y), c, mt.leaf(iconst(args[0][0][1], 0))))
        an.assumes.append((cond, c))
        c2 = mt.and_(cond, c)
        if c2 is mt.FALSE:
            return 'stop'
        return ('ret', None, (st, c2))
    if bare.startswith("uf_"):
        return uninterp(an, st, bare, rt, args)
    if bare.startswith("ev_"):
        return event(an, st, cond, bare, rt, args)
    if noreturn:
        an.panics.append((cond, short(name)))
        return 'stop'
    if name in an.M.funcs:
        g = an.M.funcs[name]
        an.callconds.append((name, cond, frame[0].name))
        lib = libm_of(bare)
        if lib is not None:
            v = libm_call(lib, av)
            if v is not None:
                return v
        v, s2, c2 = an.run(name, av, st, cond)
        if c2 is mt.FALSE:
            return 'stop'
        return ('ret', v, (s2, c2))
    lib = bare
    mo = re.match(r'_RN\w*4libm', bare)
    if mo or '4libm' in bare:
        lib = libm_of(bare) or bare
    v = libm_call(lib, av)
    if v is not None:
        return v
    if bare in ("memcmp", "bcmp"):
        return mem_cmp(an, st, cond, av, rt)
    if bare.endswith("4call") and "4sync4once" in bare and len(av) >= 4:
        # first use of a once-cell: run its initialiser (dyn FnMut(&OnceState): vtable slot 4)
        fp = an.load(st, an.padd(av[3], 32), ('ptr',), cond)
        state = an.newobj("once_state", "alloca", 16)
        if mt.is_leaf(fp) and not isU(fp.val) and fp.val.obj is not None and fp.val.obj.kind == "fn":
            env["%$once"] = fp
            return do_call(an, frame, st, cond, ('void',), ('loc', "%$once"), [(('ptr',), av[2]), (('ptr',), mt.leaf(Ptr(state, iconst(64, 0))))], False, I)
        raise Unsupported("initialiser of a once-cell %r %r" % (fp.val if mt.is_leaf(fp) else fp, args[3]))
    h = EXTERN(an, st, cond, bare, rt, args)
    if h is not NotImplemented:
        return h
    raise Unsupported("external function " + short(name))


def libm_of(bare):
    m = re.search(r'4libm.*?(\d+)([a-z]\w*)$', bare)
    if m and '4libm' in bare:
        n = short('@' + bare).split('::')[-1]
        return n
    return None


def EXTERN(an, st, cond, bare, rt, args):
    s = short('@' + bare)
    av = [a for _, a in args]
    if "std_detect" in bare and bare.endswith("detect_and_initialize"):
        return mt.leaf(A.iinput(rt[1], "cpu_features"))
    if re.search(r'fmt.*format_inner', bare) or s.endswith("format_inner"):
        # formatted text: an opaque owned string
        opaque_string(an, st, av[0], cond)
        return None
    if re.search(r'to_string|fmt', bare) and rt[0] == 'i' and rt[1] == 1:
        return mt.FALSE
    return NotImplemented


def opaque_string(an, st, dst, cond):
    an.heap_n += 1
    nm = "text#%d" % an.heap_n
    o = an.newobj(nm, "heap", 1 << 20)
    an.objs[o.uid] = o
    st.mem[o] = {}
    st.owned.add(o)
    an.store(st, dst, ('i', 64), mt.leaf(iconst(64, 1)), cond)
    an.store(st, an.padd(dst, 8), ('ptr',), mt.leaf(Ptr(o, iconst(64, 0))), cond)
    an.store(st, an.padd(dst, 16), ('i', 64), mt.leaf(iconst(64, 1)), cond)


def flat(args):
    out = []
    for t, a in args:
        if isinstance(a, tuple):
            et = t[2] if t[0] in ('vec', 'arr') else None
            for i, x in enumerate(a):
                out.append((et if et else t[2][i], x))
        else:
            out.append((t, a))
    return out


def uninterp(an, st, bare, rt, args):
    av = []
    for t, a in flat(args):
        if t == ('i', 1):
            a = E.b2i(a, 8)
        av.append(a)

    def mk(rt, suffix=""):
        nm = bare + suffix
        if rt[0] == 'st':
            return tuple(mk(x, "%s.%d" % (suffix, i)) for i, x in enumerate(rt[2]))
        if rt[0] in ('arr', 'vec'):
            return tuple(mk(rt[2], "%s.%d" % (suffix, i)) for i in range(rt[1]))

        def f(*xs):
            if rt[0] == 'f':
                return A.ratom(A.fn_atom(nm, tuple(xs)) if xs else A.input_atom(nm))
            if rt == ('i', 1):
                w = 8
            else:
                w = rt[1]
            return A.iatom(w, nm, tuple(xs)) if xs else A.iinput(w, nm)
        v = lift("uf:" + nm, f, *av) if av else mt.leaf(f())
        if rt == ('i', 1):
            return E.bit0(v)
        return v
    if rt[0] == 'void':
        raise Unsupported("uninterpreted function without a result")
    return mk(rt)


def event(an, st, cond, bare, rt, args):
    an.event(st, cond, bare, [a if t != ('i', 1) else E.b2i(a, 8) for t, a in flat(args)])
    if rt[0] == 'void':
        return None
    # the result of an effect depends on the history
    evs = st.events
    if rt[0] == 'f':
        return mt.apply("evres:" + bare, lambda e: A.ratom(A.fn_atom("res:" + bare, (Hist(e),))), evs)
    w = rt[1] if rt != ('i', 1) else 8
    r = mt.apply("evresi%d:" % w + bare, lambda e: A.iatom(w, "res:" + bare, (Hist(e),)), evs)
    return E.bit0(r) if rt == ('i', 1) else r


class Hist:
    """an effect history as an argument of an atom"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if not isinstance(o, Hist) or len(self.e) != len(o.e):
            return False
        for x, y in zip(self.e, o.e):
            if x[0] != y[0] or len(x) != len(y) or not all(A._same_arg(a, b) for a, b in zip(x[1:], y[1:])):
                return False
        return True

    def __hash__(self):
        return len(self.e)

    def __str__(self):
        return "history[%d]" % len(self.e)


def mem_cmp(an, st, cond, av, rt):
    n = const_of(av[2], "len")
    if n is None:
        raise Unsupported("memcmp of variable length")
    eq = mt.TRUE
    for i in range(n):
        a = an.load(st, an.padd(av[0], i), ('i', 8), cond)
        b = an.load(st, an.padd(av[1], i), ('i', 8), cond)
        e = mt.apply(("icmp", "eq"), lambda x, y: E.int_cmp("eq", x, y), a, b)
        eq = mt.and_(eq, e)
    return mt.ite(eq, mt.leaf(iconst(rt[1], 0)), mt.leaf(iconst(rt[1], 1)))
