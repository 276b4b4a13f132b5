"""Lower a probe crate, together with /repo's current sources, to LLVM IR text.  Nothing is executed."""
import json
import os, time
import shutil
import subprocess
import fcntl
import hashlib
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AETHER_REPO", "/repo")
WORK = os.environ.get("IRFLOW_BUILD", os.path.join(VERIF, ".build"))
TOOLCHAIN = "nightly"


class BuildError(Exception):
    def __init__(self, text):
        self.text = text


def sysroot_tool(name):
    r = subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], capture_output=True, text=True)
    root = r.stdout.strip()
    for d, _, fs in os.walk(os.path.join(root, "lib/rustlib")):
        if name in fs and d.endswith("/bin"):
            return os.path.join(d, name)
    return None


def probe_config(probe):
    with open(os.path.join(VERIF, "probes", probe, "probe.json")) as f:
        return json.load(f)


def crate_dir(name):
    for d in sorted(os.listdir(os.path.join(REPO, "crates"))):
        p = os.path.join(REPO, "crates", d, "Cargo.toml")
        if os.path.exists(p):
            with open(p) as f:
                m = re.search(r'^name\s*=\s*"([^"]+)"', f.read(), re.M)
            if m and m.group(1) == name:
                return os.path.join(REPO, "crates", d)
    raise BuildError("crate %s not found in %s/crates" % (name, REPO))


def manifest(probe, deps, extra):
    lines = ['[package]', 'name = "%s"' % probe, 'version = "0.0.0"', 'edition = "2021"', '[lib]', 'crate-type = ["rlib"]', '[workspace]', '[dependencies]']
    for d, feats in deps.items():
        df = True
        feats = list(feats)
        if "-default" in feats:
            feats.remove("-default")
            df = False
        lines.append('%s = { path = "%s", features = %s%s }' % (d, crate_dir(d), json.dumps(feats), "" if df else ", default-features = false"))
    for k, v in extra.items():
        lines.append("%s = %s" % (k, v.replace("@VERIF@", VERIF)))
    lines += ['[patch.crates-io]', 'libm = { path = "%s" }' % os.path.join(VERIF, "probes", "_libm"),
              '[profile.dev]', 'debug = 0', 'incremental = false', 'opt-level = 3', 'panic = "abort"', 'overflow-checks = false', 'debug-assertions = false', 'codegen-units = 1']
    return "\n".join(lines) + "\n"


def lower(probe, variant="default", overflow=False):
    """lower one probe; checks that share a build directory wait for each other"""
    d = os.path.join(WORK, probe + "-" + variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _lower(probe, variant, overflow)


def _lower(probe, variant, overflow):
    """path of the .ll"""
    cfg = probe_config(probe)
    var = cfg.get("variants", {}).get(variant, {})
    deps = var.get("deps", cfg["deps"])
    extra = dict(cfg.get("extra", {}))
    d = os.path.join(WORK, probe + "-" + variant)
    src = os.path.join(d, "src")
    os.makedirs(src, exist_ok=True)
    mt = manifest(probe, deps, extra)
    mp = os.path.join(d, "Cargo.toml")
    if not os.path.exists(mp) or open(mp).read() != mt:
        with open(mp, "w") as f:
            f.write(mt)
    srcdir = os.path.join(VERIF, "probes", probe, "src")
    for fn in os.listdir(src):
        if not os.path.exists(os.path.join(srcdir, fn)):
            os.remove(os.path.join(src, fn))
    for fn in sorted(os.listdir(srcdir)):
        a, b = os.path.join(srcdir, fn), os.path.join(src, fn)
        ta = open(a).read().replace("@REPO@", REPO)
        if not os.path.exists(b) or open(b).read() != ta:
            with open(b, "w") as f:
                f.write(ta)
    pre = os.path.join(VERIF, "probes", "prelude.rs")
    shutil.copyfile(pre, os.path.join(d, "prelude.rs"))
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), lock)
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTUP_TOOLCHAIN", None)
    flags = ["-Zalways-encode-mir", "-Zcross-crate-inline-threshold=always", "-Awarnings", "--cap-lints=allow"]
    for c in var.get("cfg", []) + cfg.get("cfg", []):
        flags.append("--cfg=" + c)
    flags += var.get("flags", [])
    keep = cfg.get("statics_of", [])
    if keep:
        flags.append("--emit=llvm-ir")
    env["RUSTFLAGS"] = " ".join(flags)
    # a stale output must never be taken for the current tree
    out = os.path.join(env["CARGO_TARGET_DIR"], "debug")
    for dp, dn, fs in os.walk(out):
        for f in fs:
            if f.endswith(".ll") and f.startswith(probe):
                os.remove(os.path.join(dp, f))
    # force the probe crate itself to be lowered again
    os.utime(os.path.join(src, "lib.rs"))
    args = ["cargo", "+" + TOOLCHAIN, "rustc", "--profile", "check", "--offline", "--lib", "--", "--emit=llvm-ir", "-Copt-level=3", "-Ccodegen-units=1", "-Cpanic=abort",
            "-Cno-vectorize-slp", "-Cno-vectorize-loops", "-Cdebug-assertions=off", "-Coverflow-checks=" + ("on" if overflow else "off"),
            "-Cllvm-args=" + cfg.get("llvm_args", "-inline-threshold=4000 -unroll-threshold=3000 -unroll-max-percent-threshold-boost=400"),
            "-Cdebuginfo=0"]
    args += cfg.get("rustc_args", [])
    lls = []
    for again in (False, True):
        if again:
            # cargo took the crate for fresh (time stamps too close): lower it again
            time.sleep(1.5)
            os.utime(os.path.join(src, "lib.rs"))
        r = subprocess.run(args, cwd=d, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(r.stderr[:1500] + "\n...\n" + r.stderr[-1500:] if len(r.stderr) > 3000 else r.stderr)
        for dp, dn, fs in os.walk(out):
            for f in fs:
                if f.endswith(".ll") and f.startswith(probe):
                    p = os.path.join(dp, f)
                    lls.append((os.path.getmtime(p), p))
        if lls:
            break
    if not lls:
        raise BuildError("no IR produced\n" + r.stderr[-2000:])
    ll = sorted(lls)[-1][1]
    opt = sysroot_tool("opt")
    final = os.path.join(d, probe + ".ll")
    fixed = final + ".new"
    if opt:
        passes = cfg.get("passes", "function(loop-simplify,lcssa)")
        r2 = subprocess.run([opt, "-passes=" + passes, "-S", ll, "-o", fixed], capture_output=True, text=True)
        if r2.returncode != 0:
            raise BuildError("opt: " + r2.stderr[-2000:])
    else:
        shutil.copyfile(ll, fixed)
    os.replace(fixed, final)
    fixed = final
    side = fixed + ".statics"
    if os.path.exists(side):
        os.remove(side)
    if keep:
        # the statics of the named crates with their initialisers, for obligations about the initial state
        newest = {}
        for dp, dn, fs in os.walk(os.path.join(env["CARGO_TARGET_DIR"], "debug")):
            for f in sorted(fs):
                if f.endswith(".ll") and f.split("-")[0] in keep:
                    p, c = os.path.join(dp, f), f.split("-")[0]
                    if c not in newest or os.path.getmtime(p) > os.path.getmtime(newest[c]):
                        newest[c] = p
        lines = [ln for p in newest.values() for ln in open(p) if re.match(r'@\S+ = .*\bglobal\b', ln)]
        with open(side, "w") as f:
            f.writelines(lines)
    return fixed
