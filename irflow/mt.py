"""Hash-consed multi-terminal decision diagrams: a value guarded by branch conditions.

Booleans are diagrams with the two leaves TRUE and FALSE.  Variables are branch
conditions (sign of a normal form, equality of machine integers, opaque bits).
"""
from .algebra import Unsupported

INF = 1 << 60


class N:
    __slots__ = ("v", "hi", "lo", "val", "id")


_leafs = {}
_nodes = {}
_cache = {}
_count = [0]
VARS = []        # index -> description tuple
_VARKEY = {}


def reset():
    _leafs.clear(); _nodes.clear(); _cache.clear(); VARS.clear(); _VARKEY.clear()
    _count[0] = 0
    global TRUE, FALSE
    TRUE = leaf(True)
    FALSE = leaf(False)


def _lk(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("c", v)
    k = getattr(v, "key", None)
    if k is not None:
        return k()
    return ("t", v)


def leaf(v):
    k = _lk(v)
    n = _leafs.get(k)
    if n is None:
        n = N()
        n.v = INF; n.hi = n.lo = None; n.val = v
        _count[0] += 1
        n.id = _count[0]
        _leafs[k] = n
    return n


def node(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = N()
        n.v = v; n.hi = hi; n.lo = lo; n.val = None
        _count[0] += 1
        if _count[0] > 3000000:
            raise Unsupported("decision diagram too large")
        n.id = _count[0]
        _nodes[k] = n
    return n


TRUE = FALSE = None


def var(key, desc):
    i = _VARKEY.get(key)
    if i is None:
        i = len(VARS)
        VARS.append(desc)
        _VARKEY[key] = i
    return node(i, TRUE, FALSE)


def newvar(desc):
    i = len(VARS)
    VARS.append(desc)
    return i


def is_leaf(n):
    return n.v == INF


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = ("ite", c.id, a.id, b.id)
    r = _cache.get(k)
    if r is not None:
        return r
    v = min(c.v, a.v, b.v)
    ch, cl = (c.hi, c.lo) if c.v == v else (c, c)
    ah, al = (a.hi, a.lo) if a.v == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.v == v else (b, b)
    r = node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _cache[k] = r
    return r


def not_(a):
    return ite(a, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def apply(name, fn, *args):
    """pointwise application; fn maps leaf values to an N"""
    k = (name,) + tuple(a.id for a in args)
    r = _cache.get(k)
    if r is not None:
        return r
    v = min(a.v for a in args)
    if v == INF:
        r = fn(*[a.val for a in args])
        if not isinstance(r, N):
            r = leaf(r)
    else:
        h = [a.hi if a.v == v else a for a in args]
        l = [a.lo if a.v == v else a for a in args]
        hi = apply(name, fn, *h)
        lo = apply(name, fn, *l)
        # a leaf function may itself branch (fcmp, fabs, ...): use ite, not node
        if hi.v <= v or lo.v <= v:
            r = ite(node(v, TRUE, FALSE), hi, lo)
        else:
            r = node(v, hi, lo)
    _cache[k] = r
    return r


def leaves(n, seen=None, out=None):
    if out is None:
        out, seen = [], set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.v == INF:
            out.append(x.val)
        else:
            stack.append(x.lo); stack.append(x.hi)
    return out


reset()
