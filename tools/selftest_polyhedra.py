"""Soundness self-test of the integer domain: a guard satisfied by a concrete valuation must never be called empty."""
import random
import sys
sys.path.insert(0, "/verif")
from irflow import algebra as A, ev as E, mt, polyhedra as P


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def run(seed):
    rnd = random.Random(seed)
    A.reset() if hasattr(A, "reset") else None
    val = {}
    pool = []
    for i in range(3):
        w = rnd.choice([64, 32, 16])
        x = A.iinput(w, "x%d_%d" % (seed, i))
        c = rnd.choice([rnd.randrange(1 << w), rnd.randrange(300), (1 << w) - rnd.randrange(300) - 1, rnd.randrange(1 << 20)])
        pool.append((x, c % (1 << w)))
    for _ in range(rnd.randrange(2, 9)):
        a, va = rnd.choice(pool)
        w = a.w
        M = 1 << w
        op = rnd.choice(["add", "lin", "sdiv", "udiv", "ashr", "lshr", "and", "or", "trunc", "sext", "zext", "euclid", "nest"])
        same = [(b, vb) for b, vb in pool if b.w == w]
        b, vb = rnd.choice(same)
        c = rnd.choice([2, 3, 4, 5, 7, 60, 100, 128, 400, 1024, 1460])
        try:
            if op == "add":
                r = (A.iadd(a, b), (va + vb) % M)
            elif op == "lin":
                k = rnd.choice([-60, -7, -1, 2, 5, 153, 1024])
                r = (E.int_bin("mul", a, A.iconst(w, k % M)), va * k % M)
            elif op == "sdiv":
                if rnd.random() < .3:
                    c = -c
                s = sgn(va, w)
                q = abs(s) // abs(c) * (1 if (s >= 0) == (c > 0) else -1)
                r = (E.int_bin("sdiv", a, A.iconst(w, c % M)), q % M)
            elif op == "udiv":
                r = (E.int_bin("udiv", a, A.iconst(w, c)), va // c)
            elif op in ("ashr", "lshr"):
                k = rnd.choice([1, 2, 5, w - 1])
                r = (E.int_bin(op, a, A.iconst(w, k)), ((sgn(va, w) if op == "ashr" else va) >> k) % M)
            elif op == "and":
                m = rnd.choice([255, 1023, M - 1024, 0xff00, 15, M - 4])
                r = (E.int_bin("and", a, A.iconst(w, m % M)), va & m % M)
            elif op == "or":
                m1, m2 = rnd.choice([(255, 0xff00), (3, 12), (1023, M - 1024)])
                x, y = E.int_bin("and", a, A.iconst(w, m1)), E.int_bin("and", b, A.iconst(w, m2))
                r = (E.int_bin("or", x, y), (va & m1) | (vb & m2))
            elif op == "trunc" and w > 16:
                r = (E.int_trunc(a, w // 2), va % (1 << (w // 2)))
            elif op in ("sext", "zext") and w < 64:
                r = (E.int_ext(a, 64, op), (sgn(va, w) if op == "sext" else va) % (1 << 64))
            elif op == "euclid":
                q = E.int_bin("sdiv", a, A.iconst(w, c))
                m = A.iadd(a, E.int_bin("mul", q, A.iconst(w, c)), -1)
                s = E.int_bin("ashr", m, A.iconst(w, w - 1))
                r = (A.iadd(q, s), (sgn(va, w) // c) % M)
            else:
                q = E.int_bin("sdiv", a, A.iconst(w, c))
                m = A.iadd(a, E.int_bin("mul", q, A.iconst(w, c)), -1)
                s = sgn(va, w)
                r = (m, (s - (abs(s) // c * (1 if s >= 0 else -1)) * c) % M)
        except Exception as e:
            if not isinstance(e, (KeyError, AttributeError)):
                continue
            raise
        pool.append(r)
    lits = []
    for _ in range(rnd.randrange(1, 7)):
        a, va = rnd.choice(pool)
        same = [(b, vb) for b, vb in pool if b.w == a.w]
        b, vb = rnd.choice(same)
        pick = rnd.random()
        if pick < .3:
            d = A.iadd(a, b, -1)
            if d.const() is None:
                lits.append((("ieq", d), va == vb))
        elif pick < .7:
            s = rnd.random() < .6
            x = sgn(va, a.w) if s else va
            y = x + rnd.choice([-5, -1, 0, 1, 5])
            if a.const() is None:
                lits.append((("ilt", s, a, y), x < y))
        else:
            s = rnd.random() < .6
            x, y = (sgn(va, a.w), sgn(vb, a.w)) if s else (va, vb)
            lits.append((("ilt2", s, a, b), x < y))
    differ = None
    for _ in range(10):
        a, va = rnd.choice(pool)
        b, vb = rnd.choice([p for p in pool if p[0].w == a.w])
        if va != vb:
            differ = (a, b)
            break
    if P.empty(lits, differ):
        print("UNSOUND seed", seed, lits, differ)
        return False
    return True


n = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
bad = [s for s in range(n) if not run(s)]
print(n, "guards,", len(bad), "wrong")
