"""Type-level separation of tags, decided by the type checker.

A template is a one-line function over tagged values; every combination of tags is instantiated, and the
library's own types must accept it exactly when the tags agree.  The accepted ones are compiled as one crate
and must all check; the rejected ones are compiled as another and EVERY one must be refused, with an error of
the type-mismatch kinds inside that very function.  Nothing is run."""
import itertools
import json
import os
import re
import shutil
import subprocess

from .. import build

# how the type checker says that types do not fit; name-resolution and syntax errors do not count
MISFIT = {"E0308", "E0277", "E0369", "E0599", "E0271", "E0368", "E0283"}
PRIVATE = {"E0451", "E0616", "E0423", "E0603"}

DEPS = {"aether_core": [], "aether_models": [], "aether_shapes": [], "aether_time": [], "aether_units": []}

HEAD = """#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]
use aether_core::attitude::*;
use aether_core::coordinate::*;
use aether_core::math::*;
use aether_core::numerical_methods;
use aether_core::reference_frame::*;
use aether_models::lunar::{LIRF, LTRF, moon::Moon};
use aether_models::terrestrial::earth::Earth;
use aether_time::time::*;
use aether_units::Quantity;
use aether_units::si::si::*;
use aether_units::si::si_base::*;
use aether_units::si::si_derived::*;
use aether_units::si::si_composites::*;
use aether_units::si::si_prefix::*;
#[derive(Debug, Clone, Copy, PartialEq, Default)] pub struct Mine; impl ReferenceFrame for Mine {}
type I = ICRF<f64>; type E = ITRF<f64>; type N = NED<f64>; type B = Body<f64>; type A = Assembly<f64>; type U = Unknown;
type C<F> = Cartesian<f64, F>; type Q<F, G> = Quaternion<f64, F, G>; type D<F, G> = DirectionCosineMatrix<f64, F, G>; type Eu<F, G> = Euler<f64, F, G>;
type M<const R: usize, const K: usize> = Matrix<f64, R, K>; type V<const K: usize> = Vector<f64, K>; type Qu<K> = Quantity<K, f64>;
"""

W = []      # (name, source, accepted, codes)


def t(name, pools, body, agree, codes=MISFIT):
    """instantiate one template: {0}, {1}, .. are tags from the pools, {n} the function's name"""
    for k, tags in enumerate(itertools.product(*pools)):
        W.append(("%s[%s]" % (name, ",".join(map(str, tags))), "pub fn w%d%s" % (len(W), body.format(*tags)), bool(agree(*tags)), codes))


def frames():
    F = ["I", "E", "N", "B", "A", "U", "LIRF", "LTRF", "Mine"]
    S = ["I", "B", "Mine"]
    T = ["I", "E"]
    two = [F, F]
    same = lambda a, b: a == b
    # two coordinates
    for nm, e in [("add", "let _ = a + b;"), ("add_ref", "let _ = &a + &b;"), ("add_mixed", "let _ = &a + b;"), ("add_mixed2", "let _ = a + &b;"), ("sub", "let _ = a - b;"), ("sub_ref", "let _ = &a - &b;"),
                  ("sub_mixed", "let _ = &a - b;"), ("sub_mixed2", "let _ = a - &b;"),
                  ("add_assign", "let mut a = a; a += b;"), ("sub_assign", "let mut a = a; a -= b;"), ("cross", "let _ = a.cross(&b);"), ("dot", "let _ = a.dot(&b);"),
                  ("assign", "let mut a = a; a = b;"), ("into", "let _: C<{0}> = b.into();"), ("into_ref", "let _: C<{0}> = (&b).into();"), ("from", "let _ = <C<{0}> as From<C<{1}>>>::from(b);")]:
        t("Cartesian::" + nm, two, "(a: C<{0}>, b: C<{1}>) {{ " + e + " }}", (lambda a, b: False) if nm == "into_ref" else same)
    t("Cartesian::eq", [["I", "N", "B", "A"]] * 2, "(a: C<{0}>, b: C<{1}>) -> bool {{ a == b }}", same)
    # one coordinate keeps its frame
    for nm, e in [("neg", "-a"), ("neg_ref", "-&a"), ("scale", "a * 2.0"), ("scale_ref", "&a * 2.0"), ("divide", "a / 2.0"), ("divide_ref", "&a / 2.0"), ("normalize", "a.normalize()"), ("map", "a.map(|x| x)"),
                  ("powi", "a.powi(2)"), ("powi_ref", "a.powi_ref(2)"), ("powf", "a.powf(2.0)"), ("powf_ref", "a.powf_ref(2.0)"), ("matrix", "M::<3, 3>::identity() * a"), ("matrix_ref", "M::<3, 3>::identity() * &a"),
                  ("add", "a + a"), ("sub", "a - a"), ("cross", "a.cross(&a)"), ("sub_ref", "&a - &a"), ("add_ref", "&a + &a")]:
        t("Cartesian::" + nm + "->", two, "(a: C<{0}>) -> C<{1}> {{ " + e + " }}", same)
    # turning a coordinate: argument frame and result frame
    for ty, one in (("Q", "Q"), ("D", "D")):
        ops = [("mul", "q * a"), ("mul_refs", "&q * &a"), ("mul_ref1", "&q * a")] + ([("mul_ref2", "q * &a")])
        if ty == "Q":
            ops += [("transform", "a.transform(&q)"), ("rotate_cartesian", "q.rotate_cartesian(a)")]
            ops = [o for o in ops if o[0] != "mul_ref2"] + [("mul_ref2", "q * &a")]
        for nm, e in ops:
            t(ty + "*Cartesian argument " + nm, two, "(q: %s<{0}, Mine>, a: C<{1}>) -> C<Mine> {{ %s }}" % (ty, e), same)
            t(ty + "*Cartesian result " + nm, two, "(q: %s<Mine, {0}>, a: C<Mine>) -> C<{1}> {{ %s }}" % (ty, e), same)
        # composition
        ref = [("mul", "p * q")] + ([("mul_refs", "&p * &q")] if ty == "Q" else [])
        for nm, e in ref:
            t(ty + " chain middle " + nm, two, "(p: %s<{0}, Mine>, q: %s<Mine, {1}>) -> %s<Mine, Mine> {{ %s }}" % (ty, ty, ty, e), same)
            t(ty + " chain start " + nm, two, "(p: %s<Mine, Mine>, q: %s<{0}, Mine>) -> %s<{1}, Mine> {{ %s }}" % (ty, ty, ty, e), same)
            t(ty + " chain end " + nm, two, "(p: %s<Mine, {0}>, q: %s<Mine, Mine>) -> %s<Mine, {1}> {{ %s }}" % (ty, ty, ty, e), same)
            t(ty + " chain " + nm, [T] * 6, "(p: %s<{0}, {1}>, q: %s<{2}, {3}>) -> %s<{4}, {5}> {{ %s }}" % (ty, ty, ty, e), lambda p0, p1, q0, q1, r0, r1: q1 == p0 and r0 == q0 and r1 == p1)
        back = "inverse" if ty == "Q" else "transpose"
        t(ty + " undone", [S] * 4, "(q: %s<{0}, {1}>) -> %s<{2}, {3}> {{ q.%s() }}" % (ty, ty, back), lambda a, b, c, d: a == d and b == c)
    # attitudes of one kind
    for ty, ops in (("Q", ["p + q", "p - q"]), ("Eu", ["p + q", "p - q", "p + &q", "&p + q", "&p + &q", "p - &q", "&p - q", "&p - &q"])):
        for e in ops:
            t(ty + " " + e, [T] * 4, "(p: %s<{0}, {1}>, q: %s<{2}, {3}>) {{ let _ = %s; }}" % (ty, ty, e), lambda a, b, c, d: a == c and b == d)
            t(ty + " start " + e, two, "(p: %s<{0}, Mine>, q: %s<{1}, Mine>) {{ let _ = %s; }}" % (ty, ty, e), same)
            t(ty + " end " + e, two, "(p: %s<Mine, {0}>, q: %s<Mine, {1}>) {{ let _ = %s; }}" % (ty, ty, e), same)
    for nm in ("dot", "mul_hamilton_same"):
        t("Q " + nm, [T] * 4, "(p: Q<{0}, {1}>, q: Q<{2}, {3}>) {{ let _ = p.%s(&q); }}" % nm, lambda a, b, c, d: a == c and b == d)
    for ty, ops in (("Q", ["-q", "q * 2.0", "q / 2.0", "q.normalized()", "q.conjugate()"]), ("Eu", ["-q", "-&q", "q * 2.0", "&q * 2.0", "q / 2.0", "&q / 2.0"])):
        for e in ops:
            t(ty + " " + e + " ->", [S] * 4, "(q: %s<{0}, {1}>) -> %s<{2}, {3}> {{ %s }}" % (ty, ty, e), lambda a, b, c, d: a == c and b == d)
    # one kind of attitude to another keeps both frames
    conv = [("Q", "D", "q.to_dcm()"), ("Q", "D", "D::from(&q)"), ("D", "Q", "Q::try_from(&q).unwrap()"), ("Eu", "Q", "Q::from(&q)"), ("Q", "Eu", "Eu::from(&q)"), ("Eu", "D", "D::from(q)"), ("D", "Eu", "Eu::from(&q)")]
    for a, b, e in conv:
        t("%s -> %s by %s" % (a, b, e), [S] * 4, "(q: %s<{0}, {1}>) -> %s<{2}, {3}> {{ %s }}" % (a, b, e), lambda p, q, r, s: p == r and q == s)
        t("%s -> %s start by %s" % (a, b, e), two, "(q: %s<{0}, Mine>) -> %s<{1}, Mine> {{ %s }}" % (a, b, e), same)
        t("%s -> %s end by %s" % (a, b, e), two, "(q: %s<Mine, {0}>) -> %s<Mine, {1}> {{ %s }}" % (a, b, e), same)
    for ty in ("Q", "D", "Eu"):
        t(ty + " relabelled", [S] * 4, "(q: %s<{0}, {1}>) -> %s<{2}, {3}> {{ q.into() }}" % (ty, ty), lambda a, b, c, d: a == c and b == d)
        t(ty + " assigned start", two, "(q: %s<{0}, Mine>) -> %s<{1}, Mine> {{ q }}" % (ty, ty), same)
        t(ty + " assigned end", two, "(q: %s<Mine, {0}>) -> %s<Mine, {1}> {{ q }}" % (ty, ty), same)
    # body rates are given in the frame the attitude starts from
    t("integrate rates", [F, F, F], "(q: Q<{0}, Mine>, w: C<{1}>, a: C<{2}>) {{ let _ = q.integrate(w, a, 0.1); }}", lambda q, w, a: q == w == a)
    t("from_parts", two, "(v: C<{0}>) -> Q<{1}, Mine> {{ Quaternion::from_parts(1.0, v) }}", same)
    # transforms between named frames
    P = ["I", "E", "N", "B", "LIRF", "LTRF"]
    named = [("body_to_ned(0.1, 0.2, 0.3)", "B", "N"), ("itrf_to_ned(0.1, 0.2)", "E", "N"), ("icrf_to_itrf(0.1, Cartesian::zero())", "I", "E"), ("itrf_to_icrf(0.1, Cartesian::zero())", "E", "I")]
    named = [("aether_core::reference_frame::transforms::" + e, a, b) for e, a, b in named]
    named += [("Earth::new().%s(0.1)" % n, a, b) for n, a, b in (("icrf_to_itrf", "I", "E"), ("itrf_to_icrf", "E", "I"))]
    named += [("Moon::new().%s" % n, a, b) for n, a, b in (("lirf_to_ltrf(0.1)", "LIRF", "LTRF"), ("ltrf_to_lirf(0.1)", "LTRF", "LIRF"), ("icrf_to_lirf()", "I", "LIRF"), ("lirf_to_icrf()", "LIRF", "I"),
                                                            ("icrf_to_ltrf(0.1)", "I", "LTRF"), ("ltrf_to_icrf(0.1)", "LTRF", "I"))]
    named += [("aether_models::lunar::transforms::" + n, a, b) for n, a, b in (("lirf_to_ltrf(0.1)", "LIRF", "LTRF"), ("ltrf_to_lirf(0.1)", "LTRF", "LIRF"), ("icrf_to_lirf()", "I", "LIRF"), ("lirf_to_icrf()", "LIRF", "I"),
                                                                               ("icrf_to_ltrf(0.1)", "I", "LTRF"), ("ltrf_to_icrf(0.1)", "LTRF", "I"))]
    for e, a, b in named:
        t("%s result" % e, [P, P], "() -> D<{0}, {1}> {{ %s }}" % e, lambda x, y, a=a, b=b: (x, y) == (a, b))
    t("Earth::rates in Earth frame", [P], "(w: C<{0}>) {{ let _ = aether_core::reference_frame::transforms::icrf_to_itrf(0.1, w); }}", lambda a: a == "E")
    for e in ("solve_coriolis_force(a, 1.0)", "solve_centrifugal_force(a, 1.0)", "solve_gravitational_force(a, 1.0)", "solve_gravitational_torque(a, M::<3, 3>::identity())"):
        t("Earth::" + e, [P, P], "(a: C<{0}>) -> C<{1}> {{ Earth::new().%s }}" % e, lambda a, b: a == b == "E")
    for e in ("gravitational_acceleration(a)", "solve_gravitational_force(a, 1.0)", "solve_gravitational_torque(a, M::<3, 3>::identity())"):
        t("Moon::" + e, [F, F], "(a: C<{0}>) -> C<{1}> {{ Moon::new().%s }}" % e, same)
    t("geodetic position", [P], "() -> C<{0}> {{ aether_models::terrestrial::wgs84::transforms::geocentric_to_ecef(0.1, 0.2, 0.3) }}", lambda a: a == "E")
    t("gravity", [P], "() -> C<{0}> {{ aether_models::terrestrial::wgs84::gravity::gravity_rectangular(0.1, 0.2, 0.3) }}", lambda a: a == "E")
    # poses lead into the assembly
    t("Pose turns", [F, F, F], "(p: Pose<f64, {0}>, a: C<{1}>) -> C<{2}> {{ p.R_local_to_assembly * a }}", lambda p, a, r: p == a and r == "A")
    t("Pose offset", [F], "(p: Pose<f64, Mine>) -> C<{0}> {{ p.r_cm_in_assembly }}", lambda a: a == "A")
    t("Body offsets", [F], "(p: Body<f64>) -> C<{0}> {{ p.lever_arm }}", lambda a: a == "B")
    t("Assembly offsets", [F], "(p: Assembly<f64>) -> C<{0}> {{ p.lever_arm }}", lambda a: a == "A")
    t("Body centre", [F], "(p: Body<f64>) -> C<{0}> {{ p.mass_center }}", lambda a: a == "B")
    t("Assembly centre", [F], "(p: Assembly<f64>) -> C<{0}> {{ p.mass_center }}", lambda a: a == "A")
    t("a frame is declared", [["Mine", "I", "f64", "Vector<f64, 3>", "()"]], "() -> C<{0}> {{ Cartesian::new(1.0, 2.0, 3.0) }}", lambda a: a in ("Mine", "I"))


def times():
    S = ["UTC", "TAI", "GPS", "Unix"]
    same = lambda a, b: a == b
    for nm, e in [("sub", "let _ = a - b;"), ("sub_refs", "let _ = &a - &b;"), ("eq", "let _ = a == b;"), ("lt", "let _ = a < b;"), ("cmp", "let _ = a.cmp(&b);"), ("max", "let _ = a.max(b);"), ("assign", "let mut a = a; a = b;"),
                  ("into", "let _: Time<{0}> = b.into();"), ("add", "let _ = a + (a - b);")]:
        t("Time::" + nm, [S, S], "(a: Time<{0}>, b: Time<{1}>) {{ " + e + " }}", same)
    t("Time + Duration", [S, S], "(a: Time<{0}>, d: Duration) -> Time<{1}> {{ a + d }}", same)
    t("&Time + Duration", [S, S], "(a: Time<{0}>, d: Duration) -> Time<{1}> {{ &a + d }}", same)
    t("Time + Time", [S, S], "(a: Time<{0}>, b: Time<{1}>) {{ let _ = a + b; }}", lambda a, b: False)
    t("Time - Time is a duration", [["Duration", "Time<UTC>", "i64", "f64"]], "(a: Time<UTC>, b: Time<UTC>) -> {0} {{ a - b }}", lambda r: r == "Duration")
    declared = {("Unix", "UTC"), ("UTC", "Unix"), ("UTC", "TAI"), ("TAI", "UTC"), ("UTC", "GPS"), ("GPS", "UTC"), ("GPS", "TAI"), ("TAI", "GPS")}
    for m, to in (("to_utc", "UTC"), ("to_tai", "TAI"), ("to_gps", "GPS"), ("to_unix", "Unix")):
        t("Time::" + m, [S, S], "(a: Time<{0}>) -> Time<{1}> {{ a.%s() }}" % m, lambda a, b, to=to: b == to and (a, b) in declared)
    one = lambda k: (lambda a: a == k)
    for nm, e, k in [("UtcAlarm::new", "UtcAlarm::new(a)", "UTC"), ("MissionEpoch::new_tai", "MissionEpoch::new_tai(a)", "TAI"), ("MissionEpoch::new_utc", "MissionEpoch::new_utc(a)", "UTC"),
                     ("to_utc_datetime", "a.to_utc_datetime()", "UTC"), ("to_gps_week", "a.to_gps_week(0)", "GPS"), ("UtcSchedule::new", "UtcSchedule::new(a, r)", "UTC")]:
        t(nm, [S], "(a: Time<{0}>, r: Recurrence) {{ let _ = %s; }}" % e, one(k))
    t("UtcAlarm::check", [S], "(mut x: UtcAlarm, a: Time<{0}>) {{ let _ = x.check(a); }}", one("UTC"))
    t("UtcSchedule::check", [S], "(mut x: UtcSchedule, a: Time<{0}>) {{ let _ = x.check(a); }}", one("UTC"))
    t("UtcSchedule::next_fire", [S], "(x: UtcSchedule) -> Time<{0}> {{ x.next_fire() }}", one("UTC"))
    t("from_utc_datetime", [S], "(x: UtcDateTime) -> Time<{0}> {{ Time::from_utc_datetime(x) }}", one("UTC"))
    t("MissionEpoch::start", [S], "(x: MissionEpoch) -> Time<{0}> {{ x.start() }}", one("TAI"))
    t("Epoch::t_plus", [S, S], "(x: Epoch<{0}>) -> Time<{1}> {{ x.t_plus(1) }}", same)
    t("TimeKeeper::t_plus", [S, S], "(x: TimeKeeper<{0}>) -> Time<{1}> {{ x.t_plus(1) }}", same)
    t("TimeKeeper::now_tai", [S, S], "(x: TimeKeeper<{0}>) -> Time<{1}> {{ x.now_tai(1) }}", lambda a, b: b == "TAI")
    t("TimeKeeper::now_utc", [S, S], "(x: TimeKeeper<{0}>) -> Time<{1}> {{ x.now_utc(1) }}", lambda a, b: a == b == "UTC")
    t("TimeKeeper::now_gps", [S, S], "(x: TimeKeeper<{0}>) -> Time<{1}> {{ x.now_gps(1) }}", lambda a, b: a == b == "GPS")


PREFIX = ["yocto", "zepto", "atto", "femto", "pico", "nano", "micro", "milli", "centi", "deci", "deca", "hecto", "kilo", "mega", "giga", "tera", "peta", "exa", "zetta", "yotta"]


def units():
    base = ["Meter", "Kilogram", "Second", "Ampere", "Kelvin", "Mole", "Candela"]
    derived = ["Hertz", "Newton", "Pascal", "Joule", "Watt", "Radian", "Volt", "NewtonMeter"]
    comp = ["MeterPerSecond", "MeterPerSecondSquared", "RadianPerSecond", "RadianPerSecondSquared"]
    fams = [("Meter", "meter", PREFIX), ("Second", "second", PREFIX), ("Kilogram", "gram", [p for p in PREFIX if p != "kilo"])]
    pre = ["Kilometer", "Millimeter", "Millisecond", "Kilosecond", "Milligram", "Megagram"]
    every = base + derived + comp + pre
    same = lambda a, b: a == b
    for nm, e in [("add", "let _ = a + b;"), ("sub", "let _ = a - b;"), ("eq", "let _ = a == b;"), ("assign", "let mut a = a; a = b;"), ("into", "let _: Qu<{0}> = b.into();")]:
        t("Quantity::" + nm, [every, every], "(a: Qu<{0}>, b: Qu<{1}>) {{ " + e + " }}", same if nm != "eq" else same)
    for nm, e in [("neg", "-a"), ("scale", "a * 2.0"), ("divide", "a / 2.0"), ("add", "a + a"), ("sub", "a - a")]:
        t("Quantity::" + nm + "->", [every, every], "(a: Qu<{0}>) -> Qu<{1}> {{ " + e + " }}", same)
    t("number is no quantity", [every], "(a: Qu<{0}>) {{ let _ = a + 1.0; }}", lambda a: False)
    t("quantity is no number", [every], "(a: Qu<{0}>) -> f64 {{ a }}", lambda a: False)
    t("number in front", [every], "(a: Qu<{0}>) {{ let _ = 1.0 + a; }}", lambda a: False)
    t("value is private", [base[:3]], "(a: Qu<{0}>) -> f64 {{ a.value }}", lambda a: False, PRIVATE)
    for b, stem, prefixes in fams:
        names = [p.capitalize() + stem for p in prefixes]
        for p, u in zip(prefixes, names):
            low = p + stem
            to = "to_" + (low if b != "Kilogram" else low)
            others = [u, names[(names.index(u) + 7) % len(names)], b, "Ampere"]
            t("to " + u, [others, others], "(a: Qu<{0}>) -> Qu<{1}> {{ a.%s() }}" % to, lambda x, y, u=u, b=b: x == b and y == u)
            back = "to_" + {"Meter": "meter", "Second": "second", "Kilogram": "kilogram"}[b]
            t("from " + u, [others[:1] + ["Ampere"], others], "(a: Qu<{0}>) -> Qu<{1}> {{ a.%s() }}" % back, lambda x, y, u=u, b=b: x == u and y == b)
            t("a number of " + u, [others], "() -> Qu<{0}> {{ 1.0f64.%s() }}" % low, lambda y, u=u: y == u)
    for m, u in [("m", "Meter"), ("kg", "Kilogram"), ("s", "Second"), ("A", "Ampere"), ("K", "Kelvin"), ("mol", "Mole"), ("cd", "Candela"), ("Hz", "Hertz"), ("N", "Newton"), ("Pa", "Pascal"), ("J", "Joule"), ("W", "Watt"),
                 ("rad", "Radian"), ("m_per_s", "MeterPerSecond"), ("m_per_s2", "MeterPerSecondSquared"), ("rad_per_s", "RadianPerSecond"), ("rad_per_s2", "RadianPerSecondSquared")]:
        t("a number of " + u, [base + derived + comp], "() -> Qu<{0}> {{ 1.0f64.%s() }}" % m, lambda y, u=u: y == u)


def dimensions():
    K = [1, 2, 3]
    L = [2, 3]
    for e in ("a * b", "a * &b", "&a * b", "&a * &b"):
        t("Matrix " + e, [L] * 6, "(a: M<{0}, {1}>, b: M<{2}, {3}>) -> M<{4}, {5}> {{ " + e + " }}", lambda a, b, c, d, r, s: b == c and r == a and s == d)
        t("Matrix Vector " + e, [K] * 4, "(a: M<{0}, {1}>, b: V<{2}>) -> V<{3}> {{ " + e + " }}", lambda a, b, c, r: b == c and r == a)
    for e in ("a + b", "a - b"):
        t("Matrix " + e, [L] * 6, "(a: M<{0}, {1}>, b: M<{2}, {3}>) -> M<{4}, {5}> {{ " + e + " }}", lambda a, b, c, d, r, s: a == c == r and b == d == s)
        for v in (e, "&" + e, e.replace(" b", " &b"), "&" + e.replace(" b", " &b")):
            t("Vector " + v, [K] * 3, "(a: V<{0}>, b: V<{1}>) -> V<{2}> {{ " + v + " }}", lambda a, b, r: a == b == r)
    for e in ("a += b", "a -= b", "a += &b", "a -= &b"):
        t("Vector " + e, [K] * 2, "(mut a: V<{0}>, b: V<{1}>) {{ " + e + "; }}", lambda a, b: a == b)
    for e in ("a * b", "&a * &b", "a.dot(&b)", "a.angle(&b)"):
        t("Vector " + e, [K] * 2, "(a: V<{0}>, b: V<{1}>) {{ let _ = " + e + "; }}", lambda a, b: a == b)
    t("transpose", [L] * 4, "(a: M<{0}, {1}>) -> M<{2}, {3}> {{ a.transpose() }}", lambda a, b, r, s: a == s and b == r)
    t("outer", [L] * 4, "(a: V<{0}>, b: V<{1}>) -> M<{2}, {3}> {{ Matrix::outer(&a, &b) }}", lambda a, b, r, s: a == r and b == s)
    for e in ("let _ = a.determinant();", "let _ = a.trace();", "let _ = a.inverse_gauss_jordan();"):
        t("square " + e, [K] * 2, "(a: M<{0}, {1}>) {{ " + e + " }}", lambda a, b: a == b)
    t("inverse", [K] * 2, "(a: M<{0}, {1}>) {{ let _ = a.inverse(); }}", lambda a, b: a == b == 3)
    t("cross", [K] * 2, "(a: V<{0}>, b: V<{1}>) {{ let _ = a.cross(&b); }}", lambda a, b: a == b == 3)
    t("row", [K] * 3, "(a: V<{0}>) -> M<{1}, {2}> {{ a.row() }}", lambda a, b, c: b == 1 and c == a)
    t("col", [K] * 3, "(a: V<{0}>) -> M<{1}, {2}> {{ a.col() }}", lambda a, b, c: c == 1 and b == a)
    t("cast", [L] * 4, "(a: M<{0}, {1}>) -> Matrix<f32, {2}, {3}> {{ a.cast::<f32>() }}", lambda a, b, r, s: a == r and b == s)
    t("precision", [["f64", "f32"]] * 2, "(a: Matrix<{0}, 2, 2>, b: Matrix<{1}, 2, 2>) {{ let _ = a * b; let _ = a + b; }}", lambda a, b: a == b)


def crate(kind, fns):
    d = os.path.join(build.WORK, "tags-" + kind)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(build.manifest("tags_" + kind, DEPS, {}))
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(build.REPO, "Cargo.lock")):
        shutil.copyfile(os.path.join(build.REPO, "Cargo.lock"), lock)
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(HEAD + "".join(s + "\n" for s in fns))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(build.WORK, "tags-target"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    env.pop("RUSTUP_TOOLCHAIN", None)
    r = subprocess.run(["cargo", "+" + build.TOOLCHAIN, "check", "--offline", "--lib", "--message-format=json"], cwd=d, env=env, capture_output=True, text=True)
    errs = {}
    other = []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        msg = m["message"]
        code = (msg.get("code") or {}).get("code")
        mine = [s for s in msg["spans"] if s["is_primary"] and m["target"]["name"] == "tags_" + kind and s["file_name"].endswith("lib.rs")]
        if mine and code:
            errs.setdefault(mine[0]["line_start"], []).append((code, msg["message"]))
        elif not msg["message"].startswith(("aborting", "could not compile", "Some errors")):
            other.append(msg.get("rendered") or msg["message"])
    return r.returncode, errs, other, r.stderr


def check(prop, tier):
    W.clear()
    frames()
    times()
    units()
    dimensions()
    head = HEAD.count("\n")
    good = [w for w in W if w[2]]
    bad = [w for w in W if not w[2]]
    viol = []
    rc, errs, other, err = crate("good", [w[1] for w in good])
    if other:
        raise build.BuildError("\n".join(other)[:3000])
    if rc and not errs:
        raise build.BuildError(err[-3000:])
    for line, es in sorted(errs.items()):
        w = good[line - head - 1] if line > head else None
        viol.append({"obligation": w[0] if w else "head", "kind": "refused", "where": w[0] if w else "imports",
                     "text": "the library refuses a combination whose tags agree: %s\n%s\n%s" % (w[0] if w else "imports", w[1] if w else "", "\n".join("%s: %s" % e for e in es))})
    rc, errs, other, err = crate("bad", [w[1] for w in bad])
    if other:
        raise build.BuildError("\n".join(other)[:3000])
    for i, w in enumerate(bad):
        es = errs.get(head + 1 + i, [])
        if not es:
            viol.append({"obligation": w[0], "kind": "accepted", "where": w[0], "text": "the type checker accepts a combination whose tags do not agree: %s\n%s" % (w[0], w[1])})
        elif not any(c in w[3] for c, _ in es):
            viol.append({"obligation": w[0], "kind": "other_error", "where": w[0], "text": "refused for another reason than its tags: %s\n%s\n%s" % (w[0], w[1], es)})
    return {"obligations": len(W), "violations": viol, "coverage": {"templates_instantiated": len(W), "accepted_required": len(good), "refused_required": len(bad), "error_kinds": sorted(MISFIT | PRIVATE)},
            "samples": [{"obligation": w[0], "source": w[1], "required": "accepted" if w[2] else "refused"} for w in (W[0], W[1], W[-1])]}
