"""Effect analysis over the MIR of every library crate: no computation may read or keep state that is not in
its arguments.  Sources of ambient state are statics with interior mutability, thread-locals, clocks, the
environment, process and thread identity, entropy, hash-map iteration order, addresses turned into numbers and
the file system.  The few audited sources are listed with the only way in which they may be used."""
import re

from . import mirscan

# (what, pattern over the full-path MIR text)
FORBIDDEN = [
    ("clock", r'std::time::(?:Instant|SystemTime)|core::arch::x86_64::_rdtsc|std::arch::x86_64::_rdtsc'),
    ("environment", r'std::env::|std::process::(?:id|Command)'),
    ("thread identity", r'std::thread::(?:current|Thread\b|ThreadId|park|sleep|yield_now)'),
    ("number of processors", r'std::thread::available_parallelism'),
    ("thread-local state", r'std::thread::LocalKey|thread_local|\bThreadLocalRef\b|LazyStorage|thread::local_impl'),
    ("entropy", r'rand::(?:rng|prelude::ThreadRng|random|thread_rng|rngs::(?:OsRng|ThreadRng|SysRng)|make_rng)\b|getrandom|fastrand|_rdrand|_rdseed|from_os_rng|from_entropy|from_rng'),
    ("hash order", r'std::hash::(?:RandomState|random::RandomState|BuildHasher)|std::collections::hash|std::collections::Hash(?:Map|Set)|hashbrown'),
    ("address as number", r'PointerExposeProvenance|::expose_provenance|const_ptr::addr|mut_ptr::addr|non_null::NonNull::<.*>::addr|fmt::Pointer|std::ptr::hash|std::ptr::fn_addr_eq'),
    ("file system", r'std::fs::|std::net::|std::os::|std::path::Path::(?:exists|is_file|is_dir|metadata|read_dir|canonicalize)|std::io::(?:stdin|Stdin)'),
    ("rounding mode", r'_mm_setcsr|_mm_getcsr|_MM_SET_'),
    ("scheduling", r'std::sync::mpsc|std::sync::(?:Mutex|RwLock|Condvar|Barrier|poison)'),
]
FORBIDDEN = [(k, re.compile(p)) for k, p in FORBIDDEN]
MUTABLE = re.compile(r'\b(?:core::sync::atomic|std::sync::atomic|core::cell::|std::cell::|Atomic<|Mutex<|RwLock<|OnceLock<|OnceCell<|LazyLock<|LazyCell<|Once\b|RefCell<|UnsafeCell<|Cell<)')

# audited sources: crate, kind of source, predicate on the body, why
LEAP = "LEAP_SECONDS"


def audited(b, kind, text):
    if kind == "file system" and b.crate == "aether_catalogs":
        return "reads the catalogue file it is given"
    if kind == "entropy" and b.crate == "aether_catalogs" and b.name.split("::")[-1].startswith("random_"):
        return "a random colour is what is asked for"
    if kind == "number of processors" and b.crate == "aether_opt" and "closure#" in b.name and "minimize" in b.name:
        return "default number of workers when none is set"
    return None


def check(prop, tier):
    B = mirscan.bodies()
    viol, audits = [], []
    refs = {}          # static -> bodies that mention it
    statics = []
    nlines = 0
    for b in B:
        nlines += len(b.lines)
        if b.kind.startswith("static"):
            statics.append(b)
            ty = b.head.split(": ", 1)[1] if ": " in b.head else b.head
            short = re.split(r'::', b.name)[-1]
            if b.kind == "static mut":
                viol.append({"obligation": b.name, "kind": "state", "where": "%s %s" % (b.crate, b.name), "text": "mutable static: %s" % b.head})
            elif MUTABLE.search(ty):
                if b.crate == "aether_time" and short == LEAP:
                    audits.append("%s: the leap-second setting, changed only by its setter" % b.name)
                elif "OnceLock<" in ty and re.search(r'OnceLock<for<[^>]*> fn\(|OnceLock<fn\(', ty) and b.crate == "aether_core":
                    audits.append("%s: remembers which equivalent kernel this processor has" % b.name)
                else:
                    viol.append({"obligation": b.name, "kind": "state", "where": "%s %s" % (b.crate, b.name), "text": "static with interior mutability: %s" % b.head})
    # who stores into a static: direct calls on atomics
    stores, calls = set(), {}
    for b in B:
        if b.kind != "fn":
            continue
        body = "\n".join(b.lines)
        if re.search(r'core::sync::atomic::Atomic::<[^>]*>::(?:store|swap|fetch_\w+|compare_exchange\w*|get_mut|update|try_update)', body):
            stores.add((b.crate, b.name))
        cs = set()
        for line in b.lines:
            m = re.match(r'\s+(?:[_(*][^=]*? = )?([A-Za-z_<].*) -> (?:\[return|unwind|bb)', line)
            if m:
                cs.add(mirscan.strip_generics(m.group(1)).split("(")[0])
        calls[(b.crate, b.name)] = (cs, b)
        seen = set()
        for line in b.lines:
            if line.lstrip().startswith(("debug ", "scope ")):
                continue
            m = re.search(r'::(random_\w+)\(.* -> (?:\[|unwind)', line)
            if m and b.crate == "aether_catalogs" and not b.name.split("::")[-1].startswith("random_"):
                viol.append({"obligation": b.name, "kind": "ambient", "where": "%s %s: entropy" % (b.crate, b.name), "text": "%s uses the random %s: %s" % (b.name, m.group(1), line.strip()[:300])})
            for kind, p in FORBIDDEN:
                m = p.search(line)
                if not m or (kind, m.group(0)) in seen:
                    continue
                seen.add((kind, m.group(0)))
                why = audited(b, kind, line)
                if why:
                    audits.append("%s %s: %s (%s)" % (b.crate, b.name, m.group(0), why))
                else:
                    viol.append({"obligation": b.name, "kind": "ambient", "where": "%s %s: %s" % (b.crate, b.name, kind),
                                 "text": "%s reads %s: %s" % (b.name, kind, line.strip()[:300])})
    # every function that can reach a store is a setter: it returns nothing
    grow = set(stores)
    while True:
        more = set()
        for k, (cs, b) in calls.items():
            if k in grow:
                continue
            for c, n in grow:
                tail = re.sub(r'<impl at [^>]*>', '', n).split("::")[-1]
                if c == k[0] and any(x == n or x.endswith("::" + tail) and "<impl" in n for x in cs):
                    more.add(k)
                    break
        if not more:
            break
        grow |= more
    for k in sorted(grow):
        b = calls[k][1]
        if not (b.crate == "aether_time" and "->" not in b.head.split(")")[-1].replace("-> ()", "")):
            viol.append({"obligation": b.name, "kind": "hidden_write", "where": "%s %s" % (b.crate, b.name),
                         "text": "%s changes shared state and is not a plain setter: %s" % (b.name, b.head)})
        else:
            audits.append("%s: setter of the leap-second count" % b.name)
    fns = [b for b in B if b.kind == "fn"]
    return {"obligations": len(fns) + len(statics), "violations": viol,
            "coverage": {"functions": len(fns), "statics": len(statics), "constants": len(B) - len(fns) - len(statics), "mir_lines": nlines,
                         "audited_sources": sorted(set(audits)), "crates": sorted({b.crate for b in B}), "sources_of_ambient_state": [k for k, _ in FORBIDDEN]},
            "samples": [{"function": b.crate + " " + b.name, "mir_lines": len(b.lines)} for b in fns[:3]]}
