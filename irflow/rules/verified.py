"""Typestate analysis over the MIR of the star-catalogue loaders: on every path of a loader that was asked to
verify, no row is parsed (and no Ok is returned) unless the complete content of the same file went through
SHA-256 and the hexadecimal digest compared equal, ignoring case, with the expected one; and a loader that succeeds has gone through the rows
to the end of the file and kept every one that could be read.

The analysis walks all paths of the loaders with their local helpers entered at each call; the states are finite
(tags of where a value comes from, the state of the reading loop, whether the digest has matched), so loops close.
Calls outside the crate keep the tags of their arguments when they are known to preserve the text or bytes, and
otherwise mark the result as lossy, which never counts as the digest."""
import re

from . import mirscan

LOADERS = ["from_csv", "from_default_catalog", "from_csv_verified_v1_1", "from_csv_with_expected_sha256", "verify_catalog_checksum"]
PUBLISHED = "d317268726ff5fd28d87d6e3d0a3aa0f26abc0408a43e711f4b87579bb00b640"
KEEP = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "as_bytes", "as_path", "as_slice", "as_mut_slice", "clone", "to_string", "to_owned",
        "to_path_buf", "into", "from", "must_use", "format", "new_lower_hex", "new_upper_hex", "new_display", "trim", "new_debug",
        "into_boxed_path", "into_boxed_str", "into_iter", "iter", "by_ref", "unwrap", "expect", "as_os_str", "into_path_buf", "identity", "buffer", "get_ref", "cloned", "copied"}
REFS = {"deref", "deref_mut", "as_mut", "as_mut_slice", "as_slice", "borrow", "borrow_mut", "by_ref", "as_bytes", "as_mut_str", "as_str"}
TWO_HEX_DIGITS = 'const:b"\\xc3 \\x00\\x00i\\x02\\x00\\x00"'      # the compiled form of {:02x}
E0 = frozenset()


class Abort(Exception):
    pass


class V:
    """tags: origins; var: known variant (0 = Ok / Continue / Some-like success, 1 = Err / Break); sem: meaning of a bool, number or read; ref: cell"""
    __slots__ = ("tags", "var", "sem", "ref", "kids")

    def __init__(self, tags=E0, var=None, sem=None, ref=None, kids=()):
        self.tags, self.var, self.sem, self.ref, self.kids = frozenset(tags), var, sem, ref, kids

    def key(self):
        return (self.tags, self.var, self.sem, self.ref, tuple(k.key() for k in self.kids))

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def with_(self, **k):
        d = {a: getattr(self, a) for a in self.__slots__}
        d.update(k)
        return V(**d)


class Body:
    def __init__(self, b):
        self.b, self.blocks, cur = b, {}, None
        for line in b.lines:
            m = re.match(r'    (bb\d+)(?: \(cleanup\))?: \{', line)
            if m:
                cur = self.blocks.setdefault(m.group(1), [])
                continue
            t = line.strip()
            if cur is not None and t and t != "}" and not t.startswith(("StorageLive", "StorageDead", "debug ", "scope ", "nop", "//", "FakeRead", "PlaceMention", "AscribeUserType", "Coverage", "ConstEvalCounter", "Retag")):
                cur.append(re.sub(r'\bno_retag ', '', t))
        h = b.head
        self.params = [int(x) for x in re.findall(r'(?:\(|, )_(\d+): ', h.split(") ->")[0])]
        self.ptypes = {int(i): t for i, t in re.findall(r'(?:\(|, )_(\d+): (&?(?:\'\w+ )?(?:mut )?[^,()]*)', h)}


def split_args(s):
    out, d, cur, q = [], 0, "", False
    for i, c in enumerate(s):
        if c == '"' and (i == 0 or s[i - 1] != "\\"):
            q = not q
        if not q:
            if c in "([{<":
                d += 1
            elif c in ")]}" or (c == ">" and s[i - 1] != "-"):
                d -= 1
            elif c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def call_parts(t):
    """dest, callee, args, next block of a call terminator"""
    m = re.match(r'^(?:(\S.*?) = )?(.*) -> (?:\[return: (bb\d+).*\]|unwind.*|(bb\d+))$', t)
    if not m:
        return None
    dest, call, nxt = m.group(1), m.group(2), m.group(3) or m.group(4)
    if not call.endswith(")"):
        return None
    d, i, q = 0, len(call) - 1, False
    while i >= 0:                      # the matching parenthesis of the argument list
        c = call[i]
        if c == '"' and call[i - 1] != "\\":
            q = not q
        if not q:
            if c == ")":
                d += 1
            elif c == "(":
                d -= 1
                if d == 0:
                    break
        i -= 1
    return dest, call[:i], split_args(call[i + 1:-1]), nxt


class Walk:
    def __init__(self, bodies):
        self.bodies = {}
        self.closures = {}
        self.consts = {}
        for b in bodies:
            if b.crate != "aether_catalogs":
                continue
            if b.kind == "fn":
                m = re.search(r'_1: [&\w\' ]*\{closure@(\S+: \d+:\d+)', b.head)
                if m:
                    self.closures.setdefault(m.group(1), Body(b))
                else:
                    self.bodies.setdefault(re.sub(r'<impl at [^>]*>', 'I', b.name), Body(b))
            elif b.kind == "const":
                m = re.search(r'(\w+): &(?:\'static )?str = (.*)$', b.head)
                if m:
                    self.consts[m.group(1)] = m.group(2) + "\n".join(b.lines)
        self.events = []
        self.steps = 0
        self.depth = 0
        self.seen_fns = set()
        self.sinks = 0
        self.compares = 0
        self.viol = {}

    # ---------------------------------------------------------------- places and operands
    def base(self, fr, place, st):
        """cell a place lives in (through references)"""
        m = re.match(r'^[(*&\s]*_(\d+)', place.replace("(*", "("))
        m = re.search(r'_(\d+)', place)
        if not m:
            return None, None
        cell = (fr, int(m.group(1)))
        v = st["c"].get(cell, V())
        proj = place[m.end():]
        if "(*" in place or "*" in place[:m.start()]:
            n = 0
            while v.ref is not None and n < 8:
                cell = v.ref
                v = st["c"].get(cell, V())
                n += 1
        return cell, proj

    def read(self, fr, place, st):
        cell, proj = self.base(fr, place, st)
        if cell is None:
            return V()
        v = st["c"].get(cell, V())
        fm = re.match(r'^\.(\d+): ', proj)
        if fm and v.kids and v.var is None and int(fm.group(1)) < len(v.kids):
            return v.kids[int(fm.group(1))]
        if " as " in proj or " as " in place:      # payload of a variant
            if v.kids and v.var is not None:
                return v.kids[0]
            return v.with_(var=None, sem=("n",) if v.sem == ("readres",) else v.sem if v.sem in (("n",),) else None)
        return v

    def operand(self, fr, s, st):
        s = s.strip()
        m = re.match(r'^(?:copy|move) (.*)$', s)
        if m:
            return self.read(fr, m.group(1), st)
        if s.startswith("const "):
            c = s[6:]
            if c.startswith('"'):
                return V({"lit:" + c})
            if c in ("true", "false"):
                return V(sem=("known", c == "true"))
            m = re.match(r'^(-?\d+)_u(?:size|8|16|32|64)$', c)
            if m:
                return V(sem=("int", int(m.group(1))))
            nm = c.split("::")[-1]
            if nm in self.consts and '"' in self.consts[nm]:
                return V({"lit:" + re.search(r'"[^"]*"', self.consts[nm]).group(0)})
            return V({"const:" + c[:60]}) if c.startswith('b"') else V()
        if s.startswith("_") or s.startswith("("):
            return self.read(fr, s, st)
        return V()

    def deref(self, v, st):
        n = 0
        while v.ref is not None and n < 8:
            v = st["c"].get(v.ref, V())
            n += 1
        return v

    def cell_of(self, v, st):
        """the cell a reference leads to in the end"""
        cell, n = v.ref, 0
        while cell is not None and st["c"].get(cell, V()).ref is not None and n < 8:
            cell, n = st["c"][cell].ref, n + 1
        return cell

    def put(self, fr, place, v, st):
        m = re.search(r'_(\d+)', place)
        if not m:
            return
        if "*" in place[:m.start()]:
            cell, _ = self.base(fr, place, st)
        else:
            cell = (fr, int(m.group(1)))
            if place != m.group(0):           # a field: the container collects the tags
                old = st["c"].get(cell, V())
                v = V(old.tags | v.tags, None, None, old.ref)
        st["c"][cell] = v

    # ---------------------------------------------------------------- right-hand sides
    def rvalue(self, fr, r, st):
        r = r.strip()
        if r.startswith(("copy ", "move ", "const ")):
            m = re.match(r'^copy \((_\d+)\.0: .*\) as .* \(BoxDerefTransmute\)$', r)
            if m:                                 # the content of a box
                cell, _ = self.base(fr, m.group(1), st)
                return V(ref=cell)
            m = re.match(r'^(.*?) as .*\((?:PointerCoercion|Transmute|PtrToPtr|IntToInt|FloatToFloat|IntToFloat|FloatToInt|Pointer).*\)$', r)
            v = self.operand(fr, m.group(1) if m else r, st)
            return v
        m = re.match(r'^&(?:mut |raw (?:const|mut) |fake (?:shallow|deep) )?(.*)$', r)
        if m:
            p = m.group(1).strip()
            cell, proj = self.base(fr, p, st)
            if cell is None:
                return V()
            if proj.rstrip(")").strip() == "" and " as " not in p:
                return V(ref=cell)
            return self.read(fr, p, st).with_(ref=None)
        m = re.match(r'^discriminant\((.*)\)$', r)
        if m:
            cell, _ = self.base(fr, m.group(1), st)
            v = st["c"].get(cell, V())
            v = self.deref(v, st)
            return V(v.tags, v.var, ("disc", cell))
        m = re.match(r'^(Eq|Ne|Lt|Le|Gt|Ge)\((.*)\)$', r)
        if m:
            a, b = [self.operand(fr, x, st) for x in split_args(m.group(2))]
            return V(sem=self.compare_n(m.group(1), a, b))
        m = re.match(r'^Not\((.*)\)$', r)
        if m:
            v = self.operand(fr, m.group(1), st)
            return V(v.tags, None, self.negate(v.sem))
        m = re.match(r'^(.*)::(Ok|Continue|Some|Err|Break|None)(?:\((.*)\))?$', r)
        if m:
            arg = self.operand(fr, m.group(3), st) if m.group(3) else V()
            var = 0 if m.group(2) in ("Ok", "Continue") else 1 if m.group(2) in ("Err", "Break", "Some") else 0
            return V(arg.tags, var, None, None, (arg,))
        m = re.match(r'^std::ops::(RangeTo|Range|RangeFrom|RangeInclusive|RangeToInclusive)::<usize> \{ (.*) \}$', r)
        if m:
            f = dict((x.split(": ", 1)[0].strip(), self.operand(fr, x.split(": ", 1)[1], st)) for x in split_args(m.group(2)))
            whole = f.get("end") is not None and f["end"].sem == ("n",) and (m.group(1) == "RangeTo" or (m.group(1) == "Range" and f["start"].sem == ("int", 0)))
            return V(sem=("upto_n",) if whole else ("range",))
        m = re.match(r'^\{closure@(\S+: \d+:\d+)[^}]*\}(?: \{ (.*) \})?$', r)
        if m:
            caps = [self.operand(fr, x.split(": ", 1)[1], st) for x in split_args(m.group(2) or "")]
            return V(sem=("closure", m.group(1)), kids=tuple(caps))
        if r.startswith("(") or r.startswith("["):
            xs = [self.operand(fr, x, st) for x in split_args(r[1:-1])]
            t = E0.union(*[self.deref(x, st).tags for x in xs]) if xs else E0
            return V(t, kids=tuple(xs) if r.startswith("(") else ())
        m = re.match(r'^([\w:<> ]+?)(?:::<.*>)? \{ (.*) \}$', r)
        if m:
            xs = [self.operand(fr, x.split(": ", 1)[1], st) for x in split_args(m.group(2))]
            return V(E0.union(*[self.deref(x, st).tags for x in xs]) if xs else E0, kids=tuple(xs))
        return V()

    @staticmethod
    def negate(s):
        if s and s[0] in ("cmp", "nz", "known", "isok"):
            return (s[0], not s[1]) + s[2:]
        return None

    @staticmethod
    def compare_n(op, a, b):
        """sem of a comparison of the read length with 0: ("nz", p): truth p means it is zero"""
        if b.sem == ("n",):
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if a.sem == ("n",) and b.sem == ("int", 0):
            return {"Eq": ("nz", True), "Ne": ("nz", False), "Gt": ("nz", False), "Le": ("nz", True)}.get(op)
        if b.sem and b.sem[0] == "known" and op in ("Eq", "Ne"):
            return a.sem if b.sem[1] == (op == "Eq") else Walk.negate(a.sem)
        if a.sem == ("n",) and b.sem == ("int", 1):
            return {"Lt": ("nz", True), "Ge": ("nz", False)}.get(op)
        return None

    # ---------------------------------------------------------------- facts
    def report(self, what, where):
        self.viol.setdefault((self.entry, what), where)

    def learn(self, sem, truth, st):
        """False when the branch cannot be taken"""
        if not sem:
            return True
        if sem[0] == "known":
            return sem[1] == truth
        if sem[0] == "cmp" and sem[1] == truth:
            st["m"] = sem[2]
        elif sem[0] == "nz":
            if st["h"] == "pend" and sem[1] == truth:
                st["h"] = "eof"
        elif sem[0] == "isok":
            self.choose(sem[2], 0 if sem[1] == truth else 1, st)
        return True

    def choose(self, cell, var, st):
        v = st["c"].get(cell, V())
        if v.var is not None:
            return v.var == var
        if v.sem == ("readres",):
            if var == 0:
                st["h"] = "bad" if st["h"] == "pend" else "pend" if st["h"] != "bad" else "bad"
            st["c"][cell] = V(v.tags, var, None, None, (V(sem=("n",)) if var == 0 else V(),))
        elif v.sem == ("bytenext",):
            if var == 0 and st["x"] is None:
                return False                      # a digest is not empty
            st["x"] = "bad" if st["x"] in ("pending", "bad") else "pending" if var == 1 else "end"
            st["c"][cell] = V(v.tags, var, None, None, (V(v.tags | {"hbyte"}),))
        elif v.sem == ("rownext",):
            st["r"] = "live" if var == 1 else "end"
            st["c"][cell] = V(v.tags, var, None, None, (V({"rows"}, sem=("rowres",)),))
        elif v.sem == ("rowres",):
            if var == 0:
                st["r"] = "pending"
            st["c"][cell] = V(v.tags, var, None, None, (V({"row"}) if var == 0 else V(),))
        else:
            st["c"][cell] = V(v.tags, var, v.sem, None, v.kids or (v.with_(var=None),))
        return True

    # ---------------------------------------------------------------- calls
    def resolve(self, callee):
        c = mirscan.strip_generics(callee)
        if c.startswith("<"):
            return None
        seg = c.split("::")
        if seg[0] not in ("star_catalogs", "wmm", "crate", "GncCatalogReader"):
            return None
        for k, b in self.bodies.items():
            ks = k.split("::")
            if ks[-1] == seg[-1] and ("I" in ks or ks == seg):
                return b
        return None

    def inline(self, body, args, st):
        if self.depth > 12:
            raise Abort("helpers call each other too deeply")
        self.depth += 1
        fr = self.depth
        s2 = copy(st)
        for k in [k for k in s2["c"] if k[0] >= fr]:
            del s2["c"][k]
        for i, a in zip(body.params, args):
            s2["c"][(fr, i)] = a
        out = self.run(body, fr, s2)
        self.depth -= 1
        res = []
        for v, s in out:
            if v.ref is not None and v.ref[0] >= fr:
                v = self.deref(v, s)
            for k in [k for k in s["c"] if k[0] >= fr]:
                del s["c"][k]
            res.append((v, s))
        return res

    def external(self, callee, args, raw, st, where):
        """[(value, state)] of a call that leaves the crate"""
        c = mirscan.strip_generics(callee)
        name = c.split("::")[-1]
        d = [self.deref(a, st) for a in args]
        tags = E0.union(*[x.tags for x in d]) if d else E0
        hashing = ("sha2::" in c or "digest::" in c) and name in ("new", "default", "new_with_prefix", "update", "chain_update", "write", "write_all", "finalize", "finalize_fixed", "digest", "finalize_reset", "reset", "finalize_into", "finalize_into_reset")
        if hashing or "hasher" in (d[0].tags if d else E0):
            if name in ("new", "default", "new_with_prefix"):
                st["h"] = "fresh" if name != "new_with_prefix" else "bad"
                st["o"] = None
                return [(V({"hasher"}), st)]
            if name in ("update", "chain_update", "write", "write_all"):
                a = d[1] if len(d) > 1 else V()
                if "content" in a.tags and "lossy" not in a.tags and st["h"] == "fresh":
                    st["h"] = "eof"
                    st["o"] = origin(a.tags)
                elif a.sem == ("chunk",) and st["h"] == "pend":
                    st["h"] = "all"
                else:
                    st["h"] = "bad"
                return [(V({"hasher"} if name == "chain_update" else E0), st)]
            if name in ("finalize", "finalize_fixed", "digest", "finalize_reset"):
                if name == "digest":
                    a = d[0]
                    ok = "content" in a.tags and "lossy" not in a.tags
                    st["o"] = origin(a.tags) if ok else None
                else:
                    ok = st["h"] == "eof"
                if not ok:
                    self.report("the digest does not cover the complete file", where)
                return [(V({"digest"} if ok else {"digest", "lossy"}), st)]
            if "hasher" in tags:
                st["h"] = "bad"
            return [(V({"lossy"}), st)]
        if name in ("skip", "take", "step_by", "skip_while", "take_while", "map_while", "nth", "last", "scan") and d and "rows" in d[0].tags and "Iterator>" in callee:
            self.report("rows of the file are passed over", where)
        if name == "next" and "rows" in d[0].tags and "csv::" in callee:
            if st["r"] == "pending":
                self.report("a well-formed row is left out", where)
            return [(V({"rows"}, sem=("rownext",)), st)]
        if name == "next" and "digest" in d[0].tags and "Iterator>" in callee and "hex" not in tags:
            return [(V(tags, sem=("bytenext",)), st)]
        if name in ("map", "fold") and "Iterator>" in callee and "digest" in d[0].tags and "hex" not in tags and self.closure_body(d[-1]):
            out, bytes_ = [], V(d[0].tags | {"hbyte"})
            s2 = copy(st)
            s2["x"] = "pending"
            for v, s3 in self.inline(self.closure_body(d[-1]), [d[-1]] + ([d[1]] if name == "fold" else []) + [bytes_], s2):
                ok = {"hbyte", "hex"} <= v.tags if name == "map" else "bytewise" in v.tags and s3["x"] == "live"
                s3["x"] = "end"
                out.append((V((v.tags - {"hbyte"}) if ok else v.tags | {"lossy"}), s3))
            return out
        if c in ("std::string::String::new", "String::new", "std::string::String::with_capacity", "String::with_capacity"):
            return [(V({"empty"}), st)]
        if name in ("push_str", "write_fmt", "write_str", "add_assign", "push") and args and args[0].ref is not None and len(d) == 2 and "hasher" not in tags and "row" not in d[1].tags:
            cell, t = self.cell_of(args[0], st), d[0].tags
            if "hbyte" in d[1].tags and "hex" in d[1].tags and (t == {"empty"} or "bytewise" in t):
                new = (d[1].tags - {"hbyte"}) | {"bytewise"} | (t & {"lossy"})
                st["x"] = "live" if st["x"] == "pending" else "bad"
            elif t == {"empty"} and "hbyte" not in d[1].tags:
                new = d[1].tags or {"lossy"}
            else:
                new = t | d[1].tags | {"lossy"}
            st["c"][cell] = V(new)
            return [(V(), st)]
        if name == "collect" and {"digest", "hex"} <= tags:
            return [(V(tags), st)]
        if name in ("split_at", "split_at_mut") and len(d) == 2 and d[1].sem == ("n",) and "buf" in d[0].tags:
            return [(V(tags, kids=(V({"buf"}, sem=("chunk",)), V({"lossy"}))), st)]
        if c.startswith("csv::") or "csv::" in callee:
            if any(x.tags & {"file", "content"} for x in d) or any(t.startswith(("path", "lit:")) for x in d for t in x.tags):
                if name.startswith("from_"):
                    self.sinks += 1
                    src = origin(tags)
                    if self.guarded and (st["m"] is None or st["m"] != src):
                        self.report("rows are parsed from a file whose digest has not matched", where)
            return [(V(tags | {"rows"}), st)]
        if c in ("std::fs::File::open",) or c.endswith("OpenOptions::open"):
            return [(V({"file"} | {t for x in d for t in x.tags if t.startswith(("path", "lit:", "lossy"))}), st)]
        if c in ("std::fs::read",):
            return [(V({"content"} | {t for t in tags if t.startswith(("path", "lit:", "lossy"))}), st)]
        if "std::io::Read>" in callee or "std::io::BufRead>" in callee or c.startswith("std::io::"):
            if name == "read" and "file" in d[0].tags:
                if st["o"] not in (None, origin(d[0].tags)):
                    st["h"] = "bad"
                st["o"] = origin(d[0].tags)
                if args[1].ref is not None:
                    cell = self.cell_of(args[1], st)
                    b = st["c"].get(cell, V())
                    st["c"][cell] = V(b.tags | {"buf"})
                return [(V(sem=("readres",)), st)]
            if name == "read_to_end" and "file" in d[0].tags:
                if args[1].ref is not None:
                    st["c"][self.cell_of(args[1], st)] = V({"content"} | (d[0].tags - {"file"}))
                return [(V(), st)]
            if name == "copy" and "file" in d[0].tags and "hasher" in d[1].tags:
                st["h"] = "eof" if st["h"] == "fresh" else "bad"
                st["o"] = origin(d[0].tags)
                return [(V(), st)]
            if name in ("new", "with_capacity", "from") or "Cursor" in c:
                return [(V(tags), st)]
        if name in ("push", "push_back", "extend") and len(d) == 2 and "row" in d[1].tags:
            if st["r"] == "pending":
                st["r"] = "live"
            return [(V(), st)]
        if name in ("index", "get", "index_mut") and len(d) == 2:
            if d[1].sem == ("upto_n",) and "buf" in d[0].tags:
                a = V({"buf"}, sem=("chunk",))
                return [(a if name != "get" else V({"buf"}, None, ("chunk",), None, (a,)), st)]
            if "RangeFull" in callee:
                return [(args[0], st)]
            return [(V(d[0].tags | {"lossy"}), st)]
        if name == "branch" or name in ("map_err", "or_else") and len(d) and name == "map_err":
            a = args[0]
            return [(a, st)]
        if name == "from_residual":
            return [(V(tags, 1, None, None, (V(tags),)), st)]
        if name in ("unwrap", "expect") and d[0].sem == ("readres",):
            s2 = copy(st)
            s2["h"] = "bad" if s2["h"] == "pend" else "pend" if s2["h"] != "bad" else "bad"
            return [(V(sem=("n",)), s2)]
        if name in ("unwrap", "expect") and d[0].sem == ("chunk",):
            return [(V(d[0].tags, sem=("chunk",)), st)]
        if name in ("unwrap", "expect") and d[0].var is not None:
            return [((d[0].kids or (V(tags),))[0], st)] if d[0].var == 0 else []
        if name in ("is_ok", "is_err"):
            if d[0].var is not None:
                return [(V(sem=("known", (d[0].var == 0) == (name == "is_ok"))), st)]
            if args[0].ref is not None:
                return [(V(sem=("isok", name == "is_ok", args[0].ref)), st)]
        if name in ("and_then", "map", "then", "then_some", "ok_or_else", "ok_or") or (name == "call_once" or name == "call" or name == "call_mut"):
            return self.combinator(name, callee, args, d, st, where)
        if name in ("eq_ignore_ascii_case", "eq", "ne") and len(d) == 2:
            a, b = d
            if "digest" not in a.tags:
                a, b = b, a
            if "digest" in a.tags:
                self.compares += 1
                want = {t for t in b.tags if t == "expected" or t == "lit:\"%s\"" % PUBLISHED}
                if "bytewise" in a.tags and st["x"] != "end" or "hbyte" in a.tags or "lossy" in a.tags or "lossy" in b.tags or not want or "hex" not in a.tags:
                    return [(V(), st)]
                if name != "eq_ignore_ascii_case":
                    if not ("lower" in a.tags and "lower" in b.tags and not ({"upper"} & (a.tags | b.tags)) or "upper" in a.tags and "upper" in b.tags and not ({"lower"} & (a.tags | b.tags))):
                        self.report("the comparison of the digests depends on the case of the expected digits", where)
                return [(V(sem=("cmp", name != "ne", st["o"])), st)]
        if name in ("to_ascii_lowercase", "to_lowercase"):
            return [(V((tags - {"upper"}) | {"lower"}), st)]
        if name in ("to_ascii_uppercase", "to_uppercase"):
            return [(V((tags - {"lower"}) | {"upper"}), st)]
        if name in ("new_lower_hex", "new_upper_hex"):
            return [(V(tags | {"hex", "lower" if name == "new_lower_hex" else "upper"}), st)]
        if "fmt::Arguments" in c and name == "new":
            plain = any(t.startswith('const:b"\\xc0\\x00"') for t in tags)
            t2 = {t for t in tags if not t.startswith("const:")}
            if "hbyte" in t2:
                plain = TWO_HEX_DIGITS in tags or plain and "bytewise" in t2
            return [(V(t2 if plain else t2 | {"lossy"}), st)]
        if name in REFS and len(args) == 1 and args[0].ref is not None:
            return [(args[0], st)]
        if name in KEEP:
            return [(V(tags, d[0].var if d else None, d[0].sem if d and len(d) == 1 else None, None, d[0].kids if d else ()), st)]
        if self_text(tags):
            return [(V(tags | {"lossy"}), st)]
        return [(V(tags), st)]

    def closure_body(self, v):
        if v.sem and v.sem[0] == "closure":
            return self.closures.get(v.sem[1])
        return None

    def combinator(self, name, callee, args, d, st, where):
        if name in ("call_once", "call", "call_mut"):
            b = self.closure_body(d[0])
            return self.inline(b, [d[0]] + list(d[1].kids), st) if b else [(V(E0.union(*[x.tags for x in d]) if d else E0), st)]
        f = d[1] if len(d) > 1 else V()
        b = self.closure_body(f)
        out = []
        if name in ("then", "then_some"):
            for truth in (True, False):
                s2 = copy(st)
                if not self.learn(d[0].sem, truth, s2):
                    continue
                if not truth:
                    out.append((V(var=0), s2))          # None
                elif b:
                    out += [(V(v.tags, 1, None, None, (v,)), s) for v, s in self.inline(b, [f], s2)]
                else:
                    out.append((V(f.tags, 1, None, None, (f,)), s2))
            return out
        if name in ("ok_or_else", "ok_or"):       # Some = 1, None = 0  ->  Ok = 0, Err = 1
            a = d[0]
            vs = [a.var] if a.var is not None else [0, 1]
            return [(V(a.tags, 1 - v, None, None, a.kids if v == 1 else (V(),)), copy(st)) for v in vs]
        a = d[0]
        option = "Option" in callee.split("::" + name)[0]
        good = 1 if option else 0
        for var in ([a.var] if a.var is not None else [0, 1]):
            s2 = copy(st)
            if var != good:
                out.append((V(a.tags, var, None, None, (V(),)), s2))
                continue
            pay = (a.kids or (a.with_(var=None),))[0]
            if b is None:
                out.append((V(a.tags, None if name == "and_then" else good, None, None, (pay,)), s2))
                continue
            for v, s in self.inline(b, [f, pay], s2):
                out.append((v, s) if name == "and_then" else (V(v.tags, good, None, None, (v,)), s))
        return out

    # ---------------------------------------------------------------- paths
    def run(self, body, fr, st):
        self.seen_fns.add(body.b.name)
        out, work, seen = [], [("bb0", st)], set()
        while work:
            bb, st = work.pop()
            k = (bb, freeze(st))
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            if self.steps > 200000:
                raise Abort("too many states")
            stmts = body.blocks[bb]
            for t in stmts[:-1]:
                m = re.match(r'^(.*?) = (.*);$', t)
                if m:
                    self.put(fr, m.group(1), self.rvalue(fr, m.group(2), st), st)
            t = stmts[-1].rstrip(";")
            where = "%s: %s" % (body.b.name.split("::")[-1], t[:120])
            if t == "return":
                out.append((st["c"].get((fr, 0), V()), st))
                continue
            if t.startswith(("unreachable", "resume", "terminate", "abort")):
                continue
            m = re.match(r'^goto -> (bb\d+)$', t)
            if m:
                work.append((m.group(1), st))
                continue
            m = re.match(r'^drop\(.*\) -> (?:\[return: (bb\d+).*\]|(bb\d+))$', t) or re.match(r'^assert\(.*\) -> (?:\[success: (bb\d+).*\]|(bb\d+))$', t) or re.match(r'^(?:falseEdge|falseUnwind) -> \[real: (bb\d+)(.*)\]$', t)
            if m:
                work.append((m.group(1) or m.group(2), st))
                continue
            m = re.match(r'^switchInt\((.*)\) -> \[(.*)\]$', t)
            if m:
                v = self.operand(fr, m.group(1), st)
                v = self.deref(v, st)
                arms = [x.split(": ") for x in m.group(2).split(", ")]
                vals = [int(a) for a, _ in arms if a.lstrip("-").isdigit()]
                for a, target in arms:
                    s2 = copy(st)
                    if v.sem and v.sem[0] == "disc":
                        cands = [int(a)] if a != "otherwise" else [x for x in (0, 1) if x not in vals]
                        if v.var is not None:
                            if v.var not in cands:
                                continue
                        elif len(cands) == 1:
                            if not self.choose(v.sem[1], cands[0], s2):
                                continue
                        elif not cands and a == "otherwise":
                            pass
                    elif v.sem == ("n",):
                        if a == "0":
                            self.learn(("nz", True), True, s2)
                    else:
                        truth = None if a == "otherwise" and vals != [0] else (a != "0")
                        if truth is not None and not self.learn(v.sem, truth, s2):
                            continue
                    work.append((target, s2))
                continue
            c = call_parts(t)
            if c is None:
                raise Abort("statement not understood: " + t[:160])
            dest, callee, raw, nxt = c
            args = [self.operand(fr, a, st) for a in raw]
            inner = self.resolve(callee)
            res = self.inline(inner, args, copy(st)) if inner else self.external(callee, args, raw, copy(st), where)
            for v, s2 in res:
                if nxt is None:
                    continue
                if dest:
                    self.put(fr, dest, v, s2)
                work.append((nxt, s2))
        return out


def self_text(tags):
    return tags & {"digest", "expected", "content", "file", "buf"} or any(t.startswith("path") for t in tags)


def origin(tags):
    return frozenset(t for t in tags if t.startswith(("path", "lit:", "lossy")))


def copy(st):
    return {"c": dict(st["c"]), "h": st["h"], "m": st["m"], "o": st["o"], "r": st["r"], "x": st["x"]}


def freeze(st):
    return (frozenset(st["c"].items()), st["h"], st["m"], st["o"], st["r"], st["x"])


def check(prop, tier):
    W = Walk(mirscan.bodies())
    n, samples = 0, []
    viol = []
    for name in LOADERS:
        W.entry, W.guarded = name, name not in ("verify_catalog_checksum", "from_csv")
        bs = [b for k, b in W.bodies.items() if k.split("::")[-1] == name]
        if len(bs) != 1:
            viol.append({"obligation": name, "kind": "undecided", "where": name, "text": "%s was not found" % name})
            continue
        b = bs[0]
        st = {"c": {}, "h": "none", "m": None, "o": None, "r": None, "x": None}
        for i in b.params:
            st["c"][(0, i)] = V({"expected"}) if "str" in b.ptypes.get(i, "") else V({"path"})
        try:
            before = W.sinks, W.compares, W.steps
            outs = W.run(b, 0, st)
            n += 1
            oks = 0
            for v, s in outs:
                v = W.deref(v, s)
                if v.var == 1:
                    if s["m"] is not None and name == "verify_catalog_checksum":
                        W.report("a file is refused although its digest matched", name)
                    continue
                oks += 1
                if s["r"] == "pending":
                    W.report("a well-formed row is left out", name)
                elif s["r"] == "live":
                    W.report("it can succeed before the end of the file is reached", name)
                if name == "from_csv":
                    continue
                if s["m"] is None or "lossy" in s["m"]:
                    W.report("it can succeed although no digest has matched", name)
            if not oks:
                W.report("no path of it succeeds", name)
            if W.compares == before[1] and name != "from_csv":
                W.report("no comparison of a digest with the expected one is reached", name)
            if name != "verify_catalog_checksum" and W.sinks == before[0]:
                W.report("it does not parse the file", name)
            samples.append({"obligation": name, "outcomes": len(outs), "parses": W.sinks - before[0], "comparisons": W.compares - before[1], "states": W.steps - before[2]})
        except Abort as e:
            viol.append({"obligation": name, "kind": "undecided", "where": name, "text": str(e)})
    for (entry, what), where in sorted(W.viol.items()):
        viol.append({"obligation": entry, "kind": "typestate", "where": "%s: %s" % (entry, what), "text": "%s: %s (at %s)" % (entry, what, where)})
    return {"obligations": n, "violations": viol, "coverage": {"functions": sorted(x.split("::")[-1] for x in W.seen_fns), "parse_sites_reached": W.sinks, "digest_comparisons_reached": W.compares, "states": W.steps}, "samples": samples}


if __name__ == "__main__":
    import json
    print(json.dumps(check("C35", "quick"), indent=1))
