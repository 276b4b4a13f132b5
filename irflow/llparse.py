"""Reader for textual LLVM IR (the subset rustc emits)."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-$._A-Za-z0-9]+))
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-$._A-Za-z0-9]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-$._A-Za-z0-9]*))
  | (?P<attr>\#[0-9]+)
  | (?P<num>f0x[0-9A-Fa-f]+|0x[HKLMR]?[0-9A-Fa-f]+|[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|[-+]?(?:inf|nan|qnan)\b|-?[0-9]+)
  | (?P<word>[A-Za-z_$.][-A-Za-z0-9_$.]*)
  | (?P<p>\.\.\.|[(){}\[\]<>,=*:|+])
)''', re.X)


class ParseError(Exception):
    pass


COMMENT = re.compile(r"/\*.*?\*/")


def tokenize(s):
    if "/*" in s:
        s = COMMENT.sub(" ", s)
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            if s[i:].lstrip().startswith(";"):
                break
            raise ParseError("token at %r" % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
        if i < n and s[i:].lstrip().startswith(";"):
            break
    return out


# ------------------------------------------------------------------ types
# ('i',w) ('f',bits) ('ptr',) ('vec',n,T) ('arr',n,T) ('st',packed,[T..]) ('void',) ('label',) ('meta',)
def tsize(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p
    if k == 'f':
        return t[1] // 8
    if k == 'ptr':
        return 8
    if k == 'vec':
        return t[1] * tsize(t[2]) if t[2] != ('i', 1) else (t[1] + 7) // 8
    if k == 'arr':
        return t[1] * tsize(t[2])
    if k == 'st':
        o = 0
        al = 1
        for x in t[2]:
            a = 1 if t[1] else talign(x)
            al = max(al, a)
            o = (o + a - 1) // a * a + tsize(x)
        return (o + al - 1) // al * al
    raise ParseError("size of %r" % (t,))


def talign(t):
    k = t[0]
    if k in ('i', 'f'):
        return min(tsize(t), 16)
    if k == 'ptr':
        return 8
    if k == 'vec':
        return tsize(t)
    if k == 'arr':
        return talign(t[2])
    if k == 'st':
        return 1 if t[1] else max([talign(x) for x in t[2]] or [1])
    return 1


def field_offset(t, i):
    o = 0
    for j, x in enumerate(t[2]):
        a = 1 if t[1] else talign(x)
        o = (o + a - 1) // a * a
        if j == i:
            return o
        o += tsize(x)
    raise ParseError("field")


FLOATS = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'fp128': 128, 'x86_fp80': 80}


class P:
    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s and self.peek()[0] in ('p', 'word'):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise ParseError("expected %r got %r in %r" % (s, self.peek(), self.t))

    def is_type(self):
        k, v = self.peek()
        if k == 'word':
            return v in FLOATS or v in ('ptr', 'void', 'label', 'metadata', 'token') or re.fullmatch(r'i\d+', v)
        if k == 'p':
            return v in '[{<'
        return False

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v in FLOATS:
                return ('f', FLOATS[v])
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.need('('); self.next(); self.need(')')
                return ('ptr',)
            if re.fullmatch(r'i\d+', v):
                return ('i', int(v[1:]))
            if v == 'void':
                return ('void',)
            if v in ('label', 'metadata', 'token'):
                return (v,)
        if k == 'p':
            if v == '[':
                n = int(self.next()[1]); self.need('x'); t = self.type(); self.need(']')
                return ('arr', n, t)
            if v == '<':
                if self.peek()[1] == '{':
                    self.next()
                    ts = self.types_until('}')
                    self.need('>')
                    return ('st', True, ts)
                n = int(self.next()[1]); self.need('x'); t = self.type(); self.need('>')
                return ('vec', n, t)
            if v == '{':
                return ('st', False, self.types_until('}'))
        if k == 'loc':
            return self.types[v]
        raise ParseError("type %r" % ((k, v),))

    def types_until(self, end):
        ts = []
        while not self.eat(end):
            ts.append(self.type())
            self.eat(',')
        return ts

    PATTRS = {'noundef', 'noalias', 'nofree', 'nonnull', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext', 'returned',
              'nocapture', 'inreg', 'immarg', 'nest', 'dead_on_return', 'dead_on_unwind', 'writable', 'allocptr', 'swiftself', 'nosync', 'noext',
              'disjoint'}
    PATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'sret', 'byval', 'initializes', 'nofpclass', 'elementtype', 'allocalign', 'alignstack', 'memory'}

    def pattrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'attr':
                self.next()
                continue
            if k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            if k != 'word':
                return at
            if v in self.PATTRS:
                self.next(); at[v] = True
                continue
            if v in self.PATTRS_P:
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    txt = []
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        if x == ')':
                            d -= 1
                        txt.append(x)
                        if d == 0:
                            break
                    at[v] = txt[1:-1]
                else:
                    at[v] = self.next()[1]
                continue
            return at

    # values: ('loc',name) ('glob',name) ('ci',w,int) ('cf',bits,Fraction|'inf'..) ('undef',T) ('null',)
    # ('agg',T,[vals]) ('zero',T) ('bytes',b) ('gep',...) ('p2i',val) ('meta',)
    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glob':
            return ('glob', v)
        if k == 'num':
            return const_num(t, v)
        if k == 'str':
            return ('bytes', unescape(v))
        if k == 'word':
            if v == 'true':
                return ('ci', 1, 1)
            if v == 'false':
                return ('ci', 1, 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', t)
            if v == 'zeroinitializer':
                return ('zero', t)
            if v == 'none':
                return ('null',)
            if v == 'splat':
                self.need('(')
                et = self.type(); x = self.value(et)
                self.need(')')
                return ('agg', t, [x] * t[1])
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        while self.next()[1] != ')':
                            pass
                self.need('(')
                bt = self.type(); self.need(',')
                ops = []
                while True:
                    ot = self.type(); ops.append((ot, self.value(ot)))
                    if not self.eat(','):
                        break
                self.need(')')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast', 'ptrtoaddr'):
                self.need('(')
                ft = self.type(); x = self.value(ft); self.need('to'); tt = self.type(); self.need(')')
                return ('cast', v, ft, x, tt)
            if v in ('sub', 'add', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.need('(')
                t1 = self.type(); a = self.value(t1); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
                return ('cbin', v, t1, a, b)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(t)
            if v == 'blockaddress':
                raise ParseError('blockaddress')
        if k == 'p':
            if v == '<' and self.peek()[1] == '{':
                self.next()
                vals = self.vals_until('}')
                self.need('>')
                return ('agg', t, vals)
            end = {'<': '>', '[': ']', '{': '}'}.get(v)
            if end:
                return ('agg', t, self.vals_until(end))
        if k == 'meta':
            return ('meta', v)
        raise ParseError("value %r of type %r" % ((k, v), t))

    def vals_until(self, end):
        vs = []
        while not self.eat(end):
            t = self.type()
            if self.peek()[0] != 'str':
                self.pattrs()
            vs.append(self.value(t))
            self.eat(',')
        return vs

    def tv(self):
        t = self.type()
        at = self.pattrs()
        return t, self.value(t), at


def unescape(s):
    s = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


def decode_float(bits, n):
    if bits == 64:
        v = struct.unpack('>d', n.to_bytes(8, 'big'))[0]
    elif bits == 32:
        v = struct.unpack('>f', n.to_bytes(4, 'big'))[0]
    elif bits == 16:
        v = struct.unpack('>e', n.to_bytes(2, 'big'))[0]
    else:
        return 'big'
    if v != v:
        return 'nan'
    if v in (float('inf'), float('-inf')):
        return 'inf' if v > 0 else '-inf'
    if v == 0 and n >> (bits - 1):
        return '-0'
    return Fraction(v)


def const_num(t, v):
    if t[0] == 'i':
        return ('ci', t[1], int(v) % (1 << t[1]))
    if t[0] == 'f':
        if v.startswith('f0x'):
            return ('cf', t[1], decode_float(t[1], int(v[3:], 16)))
        if v.startswith('0x'):
            h = v[2:]
            if h[0] in 'HR':
                return ('cf', t[1], decode_float(16, int(h[1:], 16)))
            if h[0] in 'KLM':
                return ('cf', t[1], 'big')
            return ('cf', t[1], decode_float(64, int(h, 16)))
        if 'inf' in v:
            return ('cf', t[1], '-inf' if v[0] == '-' else 'inf')
        if 'nan' in v:
            return ('cf', t[1], 'nan')
        f = float(v)
        if f == 0 and v[0] == '-':
            return ('cf', t[1], '-0')
        return ('cf', t[1], Fraction(f))
    if t[0] == 'ptr':
        return ('null',)
    raise ParseError("number of type %r" % (t,))


class Instr:
    __slots__ = ('op', 'res', 'a', 'line', 'flags')

    def __init__(self, op, res, a, line, flags=()):
        self.op, self.res, self.a, self.line, self.flags = op, res, a, line, flags


class Func:
    def __init__(self, name, params, ret, attrs):
        self.name, self.params, self.ret, self.attrs = name, params, ret, attrs
        self.blocks = {}      # label -> [Instr]
        self.order = []


class Types(dict):
    def __init__(self):
        self.raw = {}

    def __missing__(self, k):
        if k not in self.raw:
            raise KeyError(k)
        t = self[k] = P(tokenize(self.raw[k]), self).type()
        return t


class Module:
    def __init__(self):
        self.types = Types()
        self.globals = {}     # name -> (type, value-or-None, const?)
        self.funcs = {}
        self.decls = {}
        self.attrs = {}
        self.aliases = {}


FM = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw',
      'tail', 'musttail', 'notail', 'volatile'}
BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'}


def strip_meta(toks):
    # drop trailing ", !xxx !n" metadata attachments
    for i, (k, v) in enumerate(toks):
        if k == 'meta' and i and toks[i - 1][1] == ',':
            return toks[:i - 1]
    return toks


def parse_instr(line, types):
    toks = tokenize(line)
    res = None
    if len(toks) > 1 and toks[0][0] == 'loc' and toks[1][1] == '=':
        res = toks[0][1]
        toks = toks[2:]
    toks = strip_meta(toks)
    p = P(toks, types)
    flags = []
    op = p.next()[1]
    while op in FM:
        flags.append(op)
        op = p.next()[1]
    while p.peek()[0] == 'word' and p.peek()[1] in FM:
        flags.append(p.next()[1])
    I = lambda a: Instr(op, res, a, line, flags)
    if op in BIN:
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return I((t, a, b))
    if op == 'fneg' or op == 'freeze':
        t = p.type(); return I((t, p.value(t)))
    if op in ('icmp', 'fcmp'):
        pred = p.next()[1]
        while p.peek()[1] in FM:
            pred = p.next()[1] if False else pred
            p.next()
        if pred in FM:
            raise ParseError(line)
        t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return I((pred, t, a, b))
    if op == 'select':
        ct = p.type(); c = p.value(ct); p.need(',')
        t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); b = p.value(t2)
        return I((ct, c, t, a, b))
    if op == 'phi':
        t = p.type()
        ins = []
        while p.eat('['):
            v = p.value(t); p.need(','); lab = p.next()[1]; p.need(']')
            ins.append((v, lab)); p.eat(',')
        return I((t, ins))
    if op == 'br':
        if p.eat('label'):
            return I((None, p.next()[1]))
        t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = p.next()[1]; p.need(','); p.need('label'); b = p.next()[1]
        return I((c, a, b))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.next()[1]
        cases = []
        p.need('[')
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.need(','); p.need('label'); cases.append((cv, p.next()[1]))
        return I((t, v, d, cases))
    if op == 'ret':
        t = p.type()
        return I((t, None if t[0] == 'void' else p.value(t)))
    if op == 'unreachable':
        return I(())
    if op == 'alloca':
        t = p.type(); n = 1
        while p.eat(','):
            if p.peek()[1] == 'align':
                p.next(); p.next()
            elif p.is_type():
                ct = p.type(); n = p.value(ct)
        return I((t, n))
    if op == 'load':
        atomic = p.eat('atomic')
        while p.peek()[1] in FM:
            p.next()
        t = p.type(); p.need(','); pt = p.type(); v = p.value(pt)
        return I((t, v, atomic))
    if op == 'store':
        atomic = p.eat('atomic')
        while p.peek()[1] in FM:
            p.next()
        t = p.type(); v = p.value(t); p.need(','); pt = p.type(); q = p.value(pt)
        return I((t, v, q))
    if op == 'getelementptr':
        while p.peek()[1] in FM:
            p.next()
        bt = p.type(); p.need(',')
        ops = []
        while True:
            ot = p.type(); ops.append((ot, p.value(ot)))
            if not p.eat(','):
                break
        return I((bt, ops))
    if op in CASTS:
        ft = p.type(); v = p.value(ft); p.need('to'); tt = p.type()
        return I((ft, v, tt))
    if op in ('call', 'invoke'):
        # cconv and ret attrs
        while p.peek()[0] == 'word' and (p.peek()[1] in ('fastcc', 'coldcc', 'ccc', 'cc', 'preserve_mostcc', 'preserve_nonecc') or p.peek()[1].endswith('cc')):
            if p.next()[1] == 'cc':
                p.next()
        p.pattrs()
        rt = p.type()
        if p.peek()[1] == '(':   # full function type
            d = 0
            while True:
                x = p.next()[1]
                if x == '(':
                    d += 1
                if x == ')':
                    d -= 1
                if d == 0:
                    break
        callee = None
        k, v = p.next()
        if k in ('glob', 'loc'):
            callee = (k, v)
        elif v == 'asm':
            return I((rt, ('asm', line), []))
        else:
            raise ParseError("callee %r in %s" % ((k, v), line))
        p.need('(')
        args = []
        while not p.eat(')'):
            t = p.type()
            if t[0] == 'metadata':
                d = 0
                while p.peek()[1] not in (',', ')') or d:
                    x = p.next()[1]
                    if x == '(':
                        d += 1
                    if x == ')':
                        d -= 1
                args.append((t, ('meta', '')))
            else:
                p.pattrs()
                args.append((t, p.value(t)))
            p.eat(',')
        return I((rt, callee, args))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return I((t, v, idx))
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.need(','); et = p.type(); e = p.value(et); idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return I((t, v, et, e, idx))
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.need(','); it = p.type(); i = p.value(it)
        return I((t, v, it, i))
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.need(','); et = p.type(); e = p.value(et); p.need(','); it = p.type(); i = p.value(it)
        return I((t, v, et, e, it, i))
    if op == 'shufflevector':
        t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); b = p.value(t2); p.need(','); mt = p.type(); m = p.value(mt)
        return I((t, a, b, mt, m))
    return Instr('?' + op, res, (), line, flags)


def parse_module(text):
    M = Module()
    lines = text.split('\n')
    # join multi-line switch
    i = 0
    cur = None
    block = None
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if cur is None:
            if ln.startswith('define'):
                cur = parse_header(ln, M)
                block = None
                cur.pending = []
                continue
            if ln.startswith('declare'):
                f = parse_header(ln, M)
                M.decls[f.name] = f
                continue
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                if rest.strip() != 'opaque':
                    M.types.raw[nm.strip()] = rest
                continue
            if ln.startswith('@'):
                parse_global(ln, M)
                continue
            if ln.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                M.attrs[m.group(1)] = m.group(2)
                continue
            continue
        s = ln.strip()
        if s == '}' and not ln.startswith(' '):
            M.funcs[cur.name] = cur
            cur = None
            continue
        if not s or s.startswith(';'):
            continue
        if not ln.startswith(' ') and not ln.startswith('\t'):
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-$._A-Za-z0-9]+):', ln)
            if m:
                block = '%' + m.group(1)
                cur.blocks[block] = []
                cur.order.append(block)
                continue
        if s.startswith('switch ') and ']' not in s:
            while ']' not in lines[i]:
                s += ' ' + lines[i].strip(); i += 1
            s += ' ' + lines[i].strip(); i += 1
        if block is None:
            block = '%entry'
            cur.blocks[block] = []
            cur.order.append(block)
        if s.startswith('#dbg'):
            continue
        cur.blocks[block].append(s)      # parsed lazily
    return M


def parse_header(ln, M):
    name = re.search(r'@("(?:[^"\\]|\\.)*"|[-$._A-Za-z0-9]+)\(', ln)
    pre = ln[:name.start()]
    toks = tokenize(ln[name.end() - 1:])
    p = P(toks, M.types)
    p.need('(')
    params = []
    vararg = False
    while not p.eat(')'):
        if p.eat('...'):
            vararg = True
            continue
        t = p.type()
        at = p.pattrs()
        nm = None
        if p.peek()[0] == 'loc':
            nm = p.next()[1]
        params.append((t, nm, at))
        p.eat(',')
    attrs = [v for k, v in toks[p.i:] if k == 'attr']
    f = Func('@' + name.group(1), params, None, attrs)
    f.pre = pre
    # unnamed parameters get numbers
    k = 0
    fixed = []
    for t, nm, at in params:
        if nm is None:
            nm = '%%%d' % k
            k += 1
        fixed.append((t, nm, at))
    f.params = fixed
    return f


def parse_global(ln, M):
    m = re.match(r'@("(?:[^"\\]|\\.)*"|[-$._A-Za-z0-9]+) = (.*)$', ln)
    name = '@' + m.group(1)
    rest = m.group(2)
    const = False
    mm = re.match(r'(.*?)\b(global|constant)\b (.*)$', rest)
    if not mm:
        ma = re.match(r'.*\balias\b.*ptr (@\S+)', rest)
        if ma:
            M.aliases[name] = ma.group(1)
        return
    const = mm.group(2) == 'constant'
    external = 'external' in mm.group(1) and 'externally' not in mm.group(1)
    toks = tokenize(mm.group(3))
    toks = strip_meta(toks)
    p = P(toks, M.types)
    try:
        t = p.type()
        v = None if external else p.value(t)
    except ParseError:
        t, v = None, None
    M.globals[name] = (t, v, const, 'once' if external and 'once_lock::OnceLock<' in mm.group(3) else None)
