"""MIR of every library crate, emitted by the compiler from the current sources; shared by the MIR rules."""
import glob
import os
import re
import shutil
import subprocess

from .. import build

CRATES = {"aether_core": ["std", "simd", "fma", "serde", "bincode"], "aether_catalogs": ["std", "world-magnetic-model"], "aether_fluids": ["std"],
          "aether_graphics": ["std"], "aether_interp": [], "aether_ml": ["std"], "aether_models": ["std"], "aether_opt": ["std"], "aether_rand": ["std"],
          "aether_shapes": ["std"], "aether_stats": ["std"], "aether_time": [], "aether_units": []}


class Body:
    __slots__ = ("crate", "name", "kind", "head", "lines", "calls", "mentions")

    def __init__(self, crate, kind, name, head):
        self.crate, self.kind, self.name, self.head = crate, kind, name, head
        self.lines, self.calls, self.mentions = [], [], set()


HEAD = re.compile(r'^(?:// MIR for )?(fn|static mut|static|const) (.*)$')
# a call terminator:  _3 = path::<..>(args) -> [return: ..   |   path(args) -> ..
CALL = re.compile(r'^\s+(?:\S.*? = )?([<A-Za-z_{].*?)\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\) -> (?:\[|unwind|bb)')


def emit():
    d = os.path.join(build.WORK, "mir_all")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    text = build.manifest("mir_all", CRATES, {})
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(text)
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write("")
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(build.REPO, "Cargo.lock")):
        shutil.copyfile(os.path.join(build.REPO, "Cargo.lock"), lock)
    target = os.path.join(build.WORK, "mir-target")
    # only the library crates are re-emitted: drop what an earlier run left of them
    for p in glob.glob(os.path.join(target, "debug", "**", "aether_*"), recursive=True):
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        elif os.path.exists(p):
            os.remove(p)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="--emit=mir -Zmir-opt-level=0 -Awarnings -Ztrim-diagnostic-paths=no")
    env.pop("RUSTUP_TOOLCHAIN", None)
    r = subprocess.run(["cargo", "+" + build.TOOLCHAIN, "check", "--offline"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[-4000:])
    out = {}
    for p in glob.glob(os.path.join(target, "debug", "**", "*.mir"), recursive=True):
        m = re.match(r'(aether_\w+?)(?:-[0-9a-f]+)?\.mir$', os.path.basename(p))
        if m and m.group(1) in CRATES:
            out.setdefault(m.group(1), []).append(p)
    for c in CRATES:
        if len(out.get(c, [])) != 1:
            raise build.BuildError("expected the MIR of %s once, found %s" % (c, out.get(c)))
    return {c: ps[0] for c, ps in out.items()}


def strip_generics(s):
    """drop `::<..>` turbofish and lifetimes; keep paths"""
    out, depth, i = [], 0, 0
    while i < len(s):
        if s.startswith("::<", i) or (depth and s[i] == '<'):
            depth += 1
            i += 3 if s.startswith("::<", i) else 1
            continue
        if depth and s[i] == '>' and s[i - 1] != '-':
            depth -= 1
            i += 1
            continue
        if not depth:
            out.append(s[i])
        i += 1
    return "".join(out)


def bodies():
    res = []
    for crate, path in sorted(emit().items()):
        cur = None
        with open(path) as f:
            for line in f:
                if line[:1] not in " \t\n}/" and line.rstrip().endswith("{"):
                    m = HEAD.match(line)
                    if m:
                        kind, rest = m.groups()
                        rest = rest.rstrip("{ \n")
                        name = rest.split("(_1")[0].split("() ->")[0] if kind == "fn" else re.split(r': (?!:)', rest, maxsplit=1)[0]
                        cur = Body(crate, kind, re.sub(r'\(\)$', '', name).strip(), rest)
                        res.append(cur)
                        continue
                    cur = None
                    if line.startswith("alloc"):
                        continue
                elif line[:1] not in " \t\n}/" and HEAD.match(line):
                    m = HEAD.match(line)      # one-line constant
                    kind, rest = m.groups()
                    b = Body(crate, kind, re.split(r': (?!:)', rest, maxsplit=1)[0], rest)
                    b.lines = [rest]
                    res.append(b)
                    cur = None
                    continue
                if line.startswith("}"):
                    cur = None
                    continue
                if cur is not None:
                    t = line.rstrip("\n")
                    if t.strip():
                        cur.lines.append(t)
    return res
