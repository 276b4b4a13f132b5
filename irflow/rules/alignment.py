"""Alignment analysis over the lowered IR of the vectorised kernels: an access that assumes an alignment must be
through a pointer whose origin (parameter type, stack slot, static) promises it.  Origins are followed backwards
through address arithmetic, phi and select; the promise of a pointer is the largest power of two that divides the
alignment of the origin and every offset added on the way."""
import re
from math import gcd

from .. import build, llparse, run

ALIGN = re.compile(r', align (\d+)')
TOP = 1 << 30


def pow2(n):
    return n & -n if n else TOP


class Fun:
    def __init__(self, M, f, aligned_globals):
        self.M, self.f, self.g = M, f, aligned_globals
        self.defs = {}
        self.acc = []
        for t, nm, at in f.params:
            if t[0] == 'ptr':
                self.defs[nm] = ('const', int(at['align']) if at.get('align') else None)
        for b in f.order:
            for s in f.blocks[b]:
                s = s if isinstance(s, str) else s.line
                m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = (.*)$', s)
                res, rhs = (m.group(1), m.group(2)) if m else (None, s)
                op = rhs.split(' ', 1)[0]
                if op in ('tail', 'musttail', 'notail'):
                    op = rhs.split(' ', 2)[1]
                if op == 'alloca':
                    a = ALIGN.search(rhs)
                    self.defs[res] = ('const', int(a.group(1)) if a else 1)
                elif op in ('getelementptr', 'phi', 'select') and ('ptr ' in rhs):
                    self.defs[res] = (op, s)
                elif op in ('load', 'store'):
                    a = ALIGN.search(rhs)
                    p = re.search(r'ptr (%(?:"[^"]*"|[\w.$-]+)|@(?:"[^"]*"|[\w.$-]+)|getelementptr .*?\))(?:,|$)', rhs.split(', align')[0] + ',')
                    if op == 'store':
                        ps = re.findall(r', ptr (%(?:"[^"]*"|[\w.$-]+)|@(?:"[^"]*"|[\w.$-]+)|getelementptr .*?\)), align', rhs)
                        p = ps[-1] if ps else None
                    else:
                        p = p.group(1) if p else None
                    if a and p:
                        self.acc.append((p, int(a.group(1)), s))
                elif op == 'call' and res and rhs.find(' ptr @') > 0:
                    a = re.search(r'call (?:[\w()]+ )*?align (\d+)', rhs)
                    self.defs[res] = ('const', int(a.group(1)) if a else None)
        self.memo = {}

    def parsed(self, s):
        return llparse.parse_instr(s, self.M.types)

    def of(self, p, busy=()):
        """promised alignment, None when unknown"""
        if isinstance(p, tuple):
            k = p[0]
            if k == 'loc':
                p = p[1]
            elif k == 'glob':
                return self.g.get(p[1])
            elif k == 'gep':
                return self.gep(p[1], p[2], busy)
            else:
                return None
        if p.startswith('@'):
            return self.g.get(p)
        if p in self.memo:
            return self.memo[p]
        if p in busy:
            return TOP
        d = self.defs.get(p)
        if d is None or d[1] is None:
            return None
        if d[0] == 'const':
            return d[1]
        ins = self.parsed(d[1])
        b2 = busy + (p,)
        if d[0] == 'getelementptr':
            r = self.gep(ins.a[0], ins.a[1], b2)
        elif d[0] == 'phi':
            rs = [self.of(v, b2) for v in phi_values(d[1])]
            r = None if None in rs else min(rs)
        else:
            m = re.findall(r'ptr (%(?:"[^"]*"|[\w.$-]+)|@(?:"[^"]*"|[\w.$-]+))', d[1])
            rs = [self.of(v, b2) for v in m]
            r = None if len(rs) != 2 or None in rs else min(rs)
        if not busy:
            self.memo[p] = r
        return r

    def gep(self, bt, ops, busy):
        base = self.of(name_of(ops[0][1]), busy)
        if base is None:
            return None
        g, t = 0, bt
        for i, (ot, ov) in enumerate(ops[1:]):
            c = const_of(ov)
            if i == 0:
                g = gcd(g, llparse.tsize(bt) * (c if c is not None else 1))
                continue
            if t[0] == 'st':
                g = gcd(g, llparse.field_offset(t, c))
                t = t[2][c]
            else:
                t = t[2]
                g = gcd(g, llparse.tsize(t) * (c if c is not None else 1))
        return min(base, pow2(g)) if g else base


def phi_values(s):
    return [x.strip() for x in re.findall(r'\[ (.*?), %(?:"[^"]*"|[\w.$-]+) \]', s)]


def name_of(v):
    return v if isinstance(v, (tuple, str)) else None


def const_of(v):
    if isinstance(v, tuple) and v and v[0] == 'ci':
        x = v[-1]
        return x if isinstance(x, int) else None
    return v if isinstance(v, int) else None


def check(prop, tier):
    bad, n, known, fns = [], 0, 0, []
    for variant in ("default", "avx", "avxfma"):
        path = build.lower("p02", variant)
        text = open(path).read()
        M = llparse.parse_module(text)
        gl = {}
        for m in re.finditer(r'(?m)^(@(?:"[^"]*"|[\w.$-]+)) = .*?, align (\d+)', text):
            gl[m.group(1)] = int(m.group(2))
        for nm, f in M.funcs.items():
            F = Fun(M, f, gl)
            k = 0
            for p, a, s in F.acc:
                n += 1
                r = F.of(p)
                if r is None:
                    continue
                known += 1
                k += 1
                if a > r:
                    bad.append({"obligation": "%s in %s" % (nm, variant), "kind": "misaligned", "where": nm[:70],
                                "text": "%s (%s): an access assumes alignment %d through a pointer that promises %d\n%s" % (nm, variant, a, r, s)})
            if k:
                fns.append(nm)
    return {"obligations": n, "violations": bad, "coverage": {"functions": len(set(fns)), "accesses": n, "origin_known": known}, "samples": []}
