"""Checks built on generated programs."""
import concurrent.futures as cf
import os
import shutil

import core
import gen
import progs
from composites import TYPES

FNS = {
    "C02": [("bijection", 100, 30), ("complete", 0, 1)],
    "C03": [("rejection", 100, 30)],
    "C04": [("order", 100, 30)],
    "C05": [("bijection", 100, 30), ("rejection", 60, 20), ("order", 60, 20), ("values", 60, 20), ("complete", 0, 1)],
    "C07": [("values", 100, 25)],
}
RULES = {
    "C02": "Composed types (a fixed list with every tuple arity and boundary counts, random nestings, random types with exactly usize::MAX values): positions at both ends, around powers of two, component sizes and uniform ones converted both ways and compared with the position computed from the components; small types and both ends of large ones completely. Non-trivial: a position above 2 was converted, or the type has at most three values.",
    "C03": "Composed and derived types: numbers from the size up to usize::MAX, near the size, near usize::MAX, multiples of component sizes, powers of two, truncation aliases, uniform. Non-trivial: at least one such number was converted.",
    "C04": "Composed and derived types: pairs of values (unrelated, neighbours, differing in one component) compared by their real Ord (or by declaration order where std derives none) and by ordinal. Non-trivial: two different values were compared.",
    "C05": "Random declarations (structs and enums, all field shapes, raw and hostile names, generics, const generics, lifetimes, where clauses, associated types, explicit discriminants, cfg-stripped variants, declarations assembled by macro_rules, constants named like fields) compiled with derive(Ordinal) and checked position by position against the declared order. Non-trivial: a position above 2 was converted, or the type has at most three values; for the other checks as their properties say.",
    "C07": "Composed and derived types: random interleavings of next, next_back, nth and nth_back over all values compared with the value at that position, with exact lengths; clones listed to the end. Non-trivial: both ends were used, or the type has fewer than two values.",
}


def items_for(rep, r, n_types, n_decls):
    out = []
    if n_types:
        out += [gen.Item(t.s, t.n, t.ord) for t in map(gen.parse, dict.fromkeys(map(gen.narrow, TYPES))) if t.peak <= gen.MAX]
        seen = {i.ty for i in out}
        for k in range(n_types):
            t = gen.exact(r, gen.MAX - r.choice([0, 0, 0, 1, 2])) if k % 8 == 0 else gen.gen(r, min(gen.MAX, r.choice([64, 1000, 2**17, 2**34, gen.MAX, gen.MAX])), r.choice([1, 2, 3]))
            if t.s not in seen and t.peak <= gen.MAX and len(t.s) < 2500:
                seen.add(t.s)
                out.append(gen.Item(t.s, t.n, t.ord))
    for k in range(n_decls):
        d = gen.exact_decl(r, k) if k % 16 == 5 else gen.gen_decl(r, k)
        out.append(gen.decl_item(d, k))
    return out


def generated(rep, libs=None):
    """C02, C03, C04, C05, C07 over generated types and declarations."""
    p = rep.prop
    thorough = rep.tier == "thorough"
    n_types, n_decls = {"C02": (80, 0), "C03": (40, 40), "C04": (40, 40), "C05": (0, 160), "C07": (30, 30)}[p]
    libs = libs or progs.Libs()
    cases = {"C02": 500, "C03": 500, "C04": 500, "C05": 300, "C07": 300}[p]
    rounds = 12 if thorough else 1
    for k in range(rounds):
        r = progs.rng(rep, "gen%d" % k)
        items = items_for(rep, r, n_types, n_decls)
        P = progs.Programs(rep, libs, "generated%s" % (k or ""), FNS[p], cases * (6 if thorough else 1), RULES[p], p in ("C02", "C05"), gen.EDITIONS if p == "C05" else ("2021",))
        P.run(items)
        if k == 0:
            rep.samples += [{"declaration": i.source, "values": i.n} for i in items[-4:]]
        if rep.violations:
            break


def narrow(rep):
    """C29: one run of everything over composed and derived types."""
    thorough = rep.tier == "thorough"
    libs = progs.Libs()
    for k in range(8 if thorough else 1):
        r = progs.rng(rep, "narrow%d" % k)
        items = items_for(rep, r, 40, 50)
        if not thorough:
            items = r.sample(items, 110)
        progs.Programs(rep, libs, "generated%s" % (k or ""), FNS["C05"], 800 if thorough else 300, RULES["C05"], True, gen.EDITIONS).run(items)
        rep.samples += [{"type": i.source, "values": i.n} for i in items[:2]]
        if rep.violations:
            break


# ---------------------------------------------------------------- programs that must be rejected

HEAD = """#![allow(warnings)]
use ordinal_map::Ordinal; use ordinal_map::map::*; use ordinal_map::map::total::*; use ordinal_map::set::*; use ordinal_map::AtomicOrdinal;
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Lt<'a>(pub std::marker::PhantomData<&'a u8>);
impl<'a> ordinal_map::Ordinal for Lt<'a> {
    const ORDINAL_SIZE: usize = 1;
    fn ordinal(&self) -> usize { 0 }
    fn from_ordinal(o: usize) -> Option<Self> { if o == 0 { Some(Lt(std::marker::PhantomData)) } else { None } }
}
"""
# Uses of a key type with too many values: all must be rejected.
USES = {
    "size": "pub fn f() -> usize { <K as Ordinal>::ORDINAL_SIZE }",
    "const size": "pub const N: usize = <K as Ordinal>::ORDINAL_SIZE; pub fn f() -> usize { N }",
    "all_values": "pub fn f() -> bool { <K as Ordinal>::all_values().next().is_some() }",
    "all_values len": "pub fn f() -> usize { <K as Ordinal>::all_values().len() }",
    "map insert": "pub fn f(m: &mut OrdinalMap<K, u8>, k: K) -> bool { m.insert(k, 1).is_some() }",
    "map entry": "pub fn f(m: &mut OrdinalMap<K, u8>, k: K) { m.entry(k).or_insert(1); }",
    "map collect": "pub fn f(k: K) -> OrdinalMap<K, u8> { [(k, 1)].into_iter().collect() }",
    "total new": "pub fn f() -> OrdinalTotalMap<K, u8> { OrdinalTotalMap::new(|_| 1) }",
    "total try_new": "pub fn f() -> Result<OrdinalTotalMap<K, u8>, ()> { OrdinalTotalMap::try_new(|_| Err(())) }",
    "total default": "pub fn f() -> OrdinalTotalMap<K, u8> { Default::default() }",
    "total len": "pub fn f(m: &OrdinalTotalMap<K, u8>) -> usize { m.len() }",
    "set new": "pub fn f() -> OrdinalSet<K> { OrdinalSet::new() }",
    "set default": "pub fn f() -> OrdinalSet<K> { Default::default() }",
    "set insert": "pub fn f(m: &mut OrdinalSet<K>, k: K) -> bool { m.insert(k) }",
    "set collect": "pub fn f(k: K) -> OrdinalSet<K> { [k].into_iter().collect() }",
    "array set size": "pub fn f() -> usize { const { ordinal_array_set_s::<K>() } }",
    "array map new": "pub fn f() -> OrdinalArrayMap<K, u8, 2> { OrdinalArrayMap::new() }",
    "array map default": "pub fn f() -> OrdinalArrayMap<K, u8, 2> { Default::default() }",
    "array map collect": "pub fn f(k: K) -> OrdinalArrayMap<K, u8, 2> { [(k, 1)].into_iter().collect() }",
    "total array new": "pub fn f() -> OrdinalTotalArrayMap<K, u8, 2> { OrdinalTotalArrayMap::new(|_| 1) }",
    "total array from_array": "pub fn f() -> OrdinalTotalArrayMap<K, u8, 2> { OrdinalTotalArrayMap::from_array([1; 2]) }",
    "total array default": "pub fn f() -> OrdinalTotalArrayMap<K, u8, 2> { Default::default() }",
    "array set new": "pub fn f() -> OrdinalArraySet<K, 1> { OrdinalArraySet::new() }",
    "set64 new": "pub fn f() -> OrdinalSet64<K> { OrdinalSet64::new() }",
    "set64 all": "pub fn f() -> OrdinalSet64<K> { OrdinalSet64::all() }",
}
CONVERSIONS = {
    "ordinal": "pub fn f(v: &K) -> usize { v.ordinal() }",
    "from_ordinal": "pub fn f(i: usize) -> Option<K> { <K as Ordinal>::from_ordinal(i) }",
}
OVERSIZED = """(u32, u32)
(u8, u8, u8, u8, u8, u8, u8, u8)
(std::num::NonZeroU64, bool)
(bool, std::num::NonZeroU64, ())
(std::num::NonZeroI64, std::num::NonZeroI64)
[u8; 8]
[u8; 9]
[bool; 64]
[bool; 65]
[u16; 4]
[u32; 2]
[u32; 3]
[std::num::NonZeroU64; 2]
[std::cmp::Ordering; 41]
std::option::Option<std::num::NonZeroU64>
std::option::Option<std::option::Option<std::num::NonZeroI64>>
std::option::Option<[u8; 8]>
std::result::Result<std::num::NonZeroU64, ()>
std::result::Result<(), std::num::NonZeroI64>
std::result::Result<std::num::NonZeroU64, bool>
std::result::Result<std::num::NonZeroU64, std::num::NonZeroU64>
std::result::Result<u32, std::num::NonZeroUsize>
either::Either<std::num::NonZeroU64, ()>
either::Either<bool, std::num::NonZeroIsize>
either::Either<std::num::NonZeroU64, std::num::NonZeroI64>
std::boxed::Box<std::option::Option<std::num::NonZeroU64>>
std::boxed::Box<[u8; 8]>
[std::option::Option<std::num::NonZeroU64>; 1]
std::option::Option<(u32, u32)>
std::result::Result<bool, (u32, u32)>
[std::boxed::Box<u16>; 4]""".split("\n")
OVERSIZED = list(map(gen.narrow, OVERSIZED))
FITTING = ["(bool, std::cmp::Ordering)", "bool"]


def oversized(r, n_random):
    """(name, declarations, type text or None if the declaration alone must be rejected, kind, generator type)"""
    out = []
    ts = [gen.parse(t) for t in OVERSIZED]
    seen = set(OVERSIZED)
    while len(ts) < len(OVERSIZED) + n_random:
        if r.random() < 0.5:
            a, b = gen.exact(r, gen.MAX - r.choice([0, 0, 1, 2, 255]), 3), gen.exact(r, min(gen.MAX, r.choice([1, 2, 3, 256, 2**32, gen.MAX])), 3)
            if r.random() < 0.5:
                a, b = b, a
            t = r.choice([gen.result, gen.either])(a, b)
            if r.random() < 0.3:
                t = gen.option(a)
        else:
            # At most 2^100 values: the oracle counts in 128 bits.
            t = gen.gen(r, 2**(r.choice([66, 70, 90]) - 64 + gen.BITS), 2)
        if t.s not in seen and gen.MAX < t.n < 2**100 and t.peak < 2**100 and len(t.s) < 1500:
            seen.add(t.s)
            ts.append(t)
    for t in ts:
        out.append((t.s, "", t.s, "tuple" if t.s.startswith("(") else "other", t))
    if gen.BITS == 32:
        # Scalars that need 64 bits are no `Ordinal` here.
        for t in ("u32", "i32", "std::num::NonZeroU64", "std::num::NonZeroI64", "std::option::Option<u32>", "std::boxed::Box<i32>", "[std::num::NonZeroI64; 1]"):
            out.append((t, "", t, "tuple", None))
    for i in range(8 + n_random // 2):
        a = gen.exact(r, gen.MAX, 3)
        b = gen.exact(r, r.choice([1, 2, 3, 256, 65536]), 2)
        form = i % 8
        if form == 0:
            decl, ty = "#[derive(Ordinal)] pub struct D(pub %s, pub bool);" % a, "D"
        elif form == 1:
            decl, ty = "#[derive(Ordinal)] pub enum D { A(%s), B }" % a, "D"
        elif form == 2:
            decl, ty = "#[derive(Ordinal)] pub enum D { A { x: %s, y: () }, B(%s) }" % (b, a), "D"
        elif form == 3:
            decl, ty = "#[derive(Ordinal)] pub struct D<X: Ordinal>(pub X, pub bool);", "D<%s>" % a
        elif form == 4:
            decl, ty = "#[derive(Ordinal)] pub enum D<X: Ordinal> { A(X), B }", "D<%s>" % a
        elif form == 5:
            decl, ty = "#[derive(Ordinal)] pub enum D<X: Ordinal, Y> where Y: Ordinal { N, A { x: X }, B(Y) }", "D<%s, %s>" % (a, b)
        elif form == 6:
            decl, ty = "#[derive(Ordinal)] pub struct D<const N: usize> { pub x: [u16; N], pub y: bool }", "D<%d>" % (gen.BITS // 16)
        else:
            decl, ty = gen.narrow("#[derive(Ordinal)] pub struct D { pub a: u32, pub b: u32, pub c: ") + "%s }" % b, "D"
        out.append(("%s (%s)" % (decl, ty), decl + "\n", ty, "derived", None))
    return out


def fitting():
    return [(t, "", t, "tuple", None) for t in FITTING] + [
        ("generic", "#[derive(Ordinal)] pub struct D<X: Ordinal>(pub X, pub bool);\n", "D<std::cmp::Ordering>", "derived", None),
        ("enum", "#[derive(Ordinal)] pub enum D { A { x: std::cmp::Ordering }, B(bool) }\n", "D", "derived", None)]


class Compiles:
    """Programs that must be rejected or accepted by the compiler."""

    def __init__(self, rep, libs, name):
        self.rep, self.libs, self.dir, self.name = rep, libs, progs.workdir(rep, name), name
        self.jobs = []

    def add(self, what, source, expect, profile):
        self.jobs.append((what, source, expect, profile))

    def run(self):
        def go(ij):
            i, (what, source, expect, profile) = ij
            src = progs.write(os.path.join(self.dir, "c%d.rs" % i), source)
            rc, err = self.libs.rustc(profile, src, src + ".o", emit="obj", flags=["-Ccodegen-units=1"])
            for f in (src, src + ".o"):
                if os.path.exists(f):
                    os.unlink(f)
            if rc not in (0, 1):
                raise core.CheckError("rustc exited with %d: %s" % (rc, err[-1500:]))
            return rc == 0, err
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(go, enumerate(self.jobs)))
        out = []
        for (what, source, expect, profile), (ok, err) in zip(self.jobs, res):
            out.append((what, source, expect, profile, ok, err))
        n = len(self.jobs)
        rej = sum(1 for j in self.jobs if j[2] == "reject")
        self.rep.add(n, len({(j[1], j[3]) for j in self.jobs}))
        self.rep.extra.setdefault("parts", {})[self.name] = {"programs": n, "must_be_rejected": rej, "must_be_accepted": n - rej}
        shutil.rmtree(self.dir, ignore_errors=True)
        return out

    def report(self, results, limit=8):
        """Programs that compiled and must not, or the reverse."""
        for what, source, expect, profile, ok, err in results:
            if ok != (expect == "accept") and limit > 0:
                limit -= 1
                self.rep.violation("compile:%s:%s" % (expect, what),
                                   ("compiles but must be rejected (%s)" % profile) if ok else "must compile (%s): %s" % (profile, progs.short(err)),
                                   {"kind": "compile", "expect": expect, "profile": profile, "edition": "2021", "emit": "obj", "source": source,
                                    "trace": source[len(HEAD):].splitlines()[:12]})


def c06(rep):
    thorough = rep.tier == "thorough"
    libs = progs.Libs()
    r = progs.rng(rep, "oversized")
    types = oversized(r, 200 if thorough else 20 if not core.MODE else 4)
    rep.rules.append("Types with more than usize::MAX values (fixed list, random, barely too large, derived and generic): each use that must be rejected is compiled to object code in both build configurations (controls with fitting types must compile); conversions of values of the remaining types run in both and must panic or give the exact position. Distinct non-trivial: every distinct program counts once; run-time cases all count.")
    C = Compiles(rep, libs, "uses")
    # Controls: with a fitting type each template compiles.
    uses = list(USES.items()) + list(CONVERSIONS.items())
    for w, d, k, _, _ in fitting():
        for n, text in uses:
            if not n.startswith(("array map", "total array", "array set new")):
                for prof in core.PROFILES:
                    C.add(("control", n), HEAD + d + "pub type K = %s;\n" % k + text, "accept", prof)
    for name, decl, ty, kind, t in types:
        some = list(USES.items()) if kind == "derived" or name in OVERSIZED else r.sample(list(USES.items()), 9)
        for n, text in some:
            src = HEAD + decl + "pub type K = %s;\n" % ty + text
            C.add("%s: %s" % (name, n), src, "reject", core.PROFILES[r.random() < 0.6])
        if kind != "other":
            for n, text in CONVERSIONS.items():
                for prof in core.PROFILES:
                    C.add("%s: %s" % (name, n), HEAD + decl + "pub type K = %s;\n" % ty + text, "reject", prof)
    res = C.run()
    # A template that does not compile even with fitting types proves nothing.
    broken = {x[0][1] for x in res if x[0][0] == "control" and not x[4]}
    if len(broken) > 3:
        raise core.CheckError("control programs do not compile: %s" % [progs.short(x[5]) for x in res if x[0][0] == "control" and not x[4]][0])
    if broken:
        rep.extra["templates_set_aside"] = sorted(broken)
    res = [x for x in res if x[0][0] != "control" and x[0].rsplit(": ", 1)[1] not in broken]
    C.report(res)
    rep.samples += [{"rejected": x[0], "profile": x[3], "compiler": progs.short(x[5])[:160]} for x in res[-3000::173] if x[2] == "reject" and not x[4]][:10]
    # Run time.
    others = [gen.Item(t.s, t.n, t.ord) for _, _, _, kind, t in types if kind == "other"]
    for fn in ("exact_ordinal", "exact_from", "exact_atomic"):
        P = progs.Programs(rep, libs, fn, [(fn, 100, 20)], 2000 if thorough else 400,
                           "Values of types with too many values (both sides of usize::MAX, component boundaries, uniform): the conversion panics or is exact.", False)
        P.run(others, chunk=1)


# ---------------------------------------------------------------- fixed capacities

ARRAY_MAP = {
    "new": "pub fn f() -> OrdinalArrayMap<K, u32, S> { OrdinalArrayMap::new() }",
    "default": "pub fn f() -> OrdinalArrayMap<K, u32, S> { Default::default() }",
    "collect": "pub fn f(v: Vec<(K, u32)>) -> OrdinalArrayMap<K, u32, S> { v.into_iter().collect() }",
}
TOTAL_ARRAY_MAP = {
    "new": "pub fn f() -> OrdinalTotalArrayMap<K, u32, S> { OrdinalTotalArrayMap::new(|_| 7) }",
    "try_new": "pub fn f() -> Result<OrdinalTotalArrayMap<K, u32, S>, ()> { OrdinalTotalArrayMap::try_new(|_| Ok(7)) }",
    "default": "pub fn f() -> OrdinalTotalArrayMap<K, u32, S> { Default::default() }",
    "from_array": "pub fn f() -> OrdinalTotalArrayMap<K, u32, S> { OrdinalTotalArrayMap::from_array([7; S]) }",
}
ARRAY_SET = {
    "new": "pub fn f() -> OrdinalArraySet<K, S> { OrdinalArraySet::new() }",
    "default": "pub fn f() -> OrdinalArraySet<K, S> { Default::default() }",
    "collect": "pub fn f(v: Vec<K>) -> OrdinalArraySet<K, S> { v.into_iter().collect() }",
}
SET64 = {
    "new": "pub fn f() -> OrdinalSet64<K> { OrdinalSet64::new() }",
    "const new": "pub const C: OrdinalSet64<K> = OrdinalSet64::new(); pub fn f() -> OrdinalSet64<K> { C }",
    "default": "pub fn f() -> OrdinalSet64<K> { Default::default() }",
    "all": "pub fn f() -> OrdinalSet64<K> { OrdinalSet64::all() }",
    "collect": "pub fn f(v: Vec<K>) -> OrdinalSet64<K> { v.into_iter().collect() }",
}
WORKS = """
fn works() {
    type K = %(k)s;
    const N: usize = %(n)d;
    const W: usize = %(w)d;
    let keys = || (0..N).map(|i| <K as Ordinal>::from_ordinal(i).unwrap());
    assert_eq!(<K as Ordinal>::ORDINAL_SIZE, N);
    assert_eq!(ordinal_array_set_s::<K>(), W);
    for which in 0..3 {
        let mut m: OrdinalArrayMap<K, usize, N> = match which { 0 => OrdinalArrayMap::new(), 1 => Default::default(), _ => std::iter::empty().collect() };
        assert_eq!(m.len(), 0);
        for (i, k) in keys().enumerate() { assert_eq!(m.insert(k, i), None); }
        assert_eq!(m.len(), N);
        for (i, k) in keys().enumerate() { assert_eq!(m.get(&k), Some(&i)); }
        let m: OrdinalArrayMap<K, usize, N> = keys().enumerate().map(|(i, k)| (k, i)).collect();
        assert_eq!(m.values().copied().collect::<Vec<_>>(), (0..N).collect::<Vec<_>>());
    }
    let mut a = [0usize; N];
    for i in 0..N { a[i] = i; }
    for m in [OrdinalTotalArrayMap::<K, usize, N>::new(|k| k.ordinal()), OrdinalTotalArrayMap::try_new(|k: K| Ok::<_, ()>(k.ordinal())).ok().unwrap(),
              OrdinalTotalArrayMap::from_array(a)] {
        assert_eq!(m.len(), N);
        for (i, k) in keys().enumerate() { assert_eq!(*m.get(&k), i); }
    }
    let m: OrdinalTotalArrayMap<K, usize, N> = Default::default();
    assert!(m.values().all(|v| *v == 0) && m.values().len() == N);
    for which in 0..2 {
        let mut s: OrdinalArraySet<K, W> = if which == 0 { OrdinalArraySet::new() } else { Default::default() };
        for k in keys().step_by(2) { assert!(!s.contains(&k)); assert!(s.insert(k)); }
        let t: OrdinalArraySet<K, W> = keys().step_by(2).collect();
        for (i, k) in keys().enumerate() { assert_eq!(s.contains(&k), i %% 2 == 0); assert_eq!(t.contains(&k), i %% 2 == 0); }
    }
    %(s64)s
}
fn main() { works(); }
"""
WORKS64 = """
    for which in 0..2 {
        let mut s: OrdinalSet64<K> = if which == 0 { OrdinalSet64::new() } else { Default::default() };
        for k in keys().step_by(2) { assert!(s.insert(k)); }
        let t: OrdinalSet64<K> = keys().step_by(2).collect();
        for (i, k) in keys().enumerate() { assert_eq!(s.contains(&k), i % 2 == 0); }
        assert_eq!(OrdinalSet64::<K>::all().iter().len(), N);
    }
"""


def sized(r, n):
    """A random type with exactly n values, or a declared one."""
    k = r.random()
    if k < 0.35:
        # A declared enum of n unit variants.
        return "#[derive(Ordinal)] pub enum D { %s }\n" % ", ".join("V%d" % i for i in range(n)), "D"
    if k < 0.5 and n >= 2:
        m = r.randrange(n)
        return "#[derive(Ordinal)] pub enum D { A([(); %d]), B(%s), C(%s) }\n" % (m, gen.exact(r, m, 2), gen.exact(r, n - m - 1, 2)), "D"
    return "", gen.exact(r, n, 3).s


def c26(rep):
    thorough = rep.tier == "thorough"
    libs = progs.Libs()
    r = progs.rng(rep, "capacity")
    rep.rules.append("Every constructor of every fixed-capacity container, instantiated with random key types and a wrong size parameter (one off, zero, a word count where a value count is needed and the reverse, multiples, random), compiled to object code: must be rejected. The same with the right size: must compile, and a program that uses every constructor must run. Every distinct program counts once.")
    ns = [0, 1, 2, 3, 7, 63, 64, 65, 127, 128, 129, 256] + [r.randrange(2, 400) for _ in range(60 if thorough else 8 if not core.MODE else 1)]
    C = Compiles(rep, libs, "constructors")

    def put(kind, cname, text, decl, ty, n, s, expect):
        src = HEAD + decl + "pub type K = %s;\npub const S: usize = %s;\n" % (ty, s) + text
        profs = core.PROFILES if expect == "reject" and r.random() < 0.5 or expect == "accept" and r.random() < 0.2 else (r.choice(core.PROFILES),)
        for p in profs:
            C.add("%s::%s with S = %s for %d values (%s)" % (kind, cname, s, n, ty if len(ty) < 60 else "..."), src, expect, p)

    for n in ns:
        for rep_ in range(3 if thorough else 1):
            decl, ty = sized(r, n)
            w = (n + 63) // 64
            wrong_n = {n + 1, n - 1, 0, w, 2 * n, n + 64, r.randrange(0, 500), 64} - {n, -1}
            wrong_w = {w + 1, w - 1, 0, n, 64, 2 * w, r.randrange(0, 20)} - {w, -1}
            for kind, cs, right, wrong in (("OrdinalArrayMap", ARRAY_MAP, n, wrong_n), ("OrdinalTotalArrayMap", TOTAL_ARRAY_MAP, n, wrong_n),
                                           ("OrdinalArraySet", ARRAY_SET, w, wrong_w)):
                for cname, text in cs.items():
                    near = [x for x in (right - 1, right + 1) if x >= 0]
                    for s in set(near + r.sample(sorted(wrong), min(2, len(wrong)))):
                        put(kind, cname, text, decl, ty, n, s, "reject")
                    put(kind, cname, text, decl, ty, n, right, "accept")
    for n in [0, 1, 2, 5, 63, 64] + [65, 66, 127, 128, 256, 300] + [r.randrange(65, 5000) for _ in range(20 if thorough else 4)]:
        decl, ty = sized(r, n)
        for cname, text in SET64.items():
            put("OrdinalSet64", cname, text, decl, ty, n, 0, "accept" if n <= 64 else "reject")
    for ty in map(gen.narrow, ("u16", "char", "u32", "std::num::NonZeroU64")):
        for cname, text in SET64.items():
            put("OrdinalSet64", cname, text, "", ty, gen.parse(ty).n, 0, "reject")
    res = C.run()
    C.report(res)
    rep.samples += [{"program": x[0], "expected": x[2], "profile": x[3], "compiler": progs.short(x[5])[:140] if not x[4] else "accepted"} for x in res[::max(1, len(res) // 12)]]

    def works(n):
        decl, ty = sized(r2[n], n)
        w = (n + 63) // 64
        src = HEAD + decl + WORKS % {"k": ty, "n": n, "w": w, "s64": WORKS64 if n <= 64 else ""}
        out = []
        for prof in core.PROFILES:
            f = progs.write(os.path.join(d, "w%d-%s.rs" % (n, prof)), src)
            rc, err = libs.rustc(prof, f, f[:-3])
            if rc != 0:
                out.append(("accept", prof, src, err))
                continue
            rc, so, se = core.sh([f[:-3]], timeout=120, mem=core.MEM)
            if rc != 0:
                out.append(("run", prof, src, se))
        return out
    d = progs.workdir(rep, "works")
    import random
    r2 = {n: random.Random("%s/%d" % (rep.seed, n)) for n in ns}
    with cf.ThreadPoolExecutor(8) as ex:
        for bad in ex.map(works, sorted(set(ns))):
            for kind, prof, src, err in bad[:1]:
                rep.violation("works", "a program using the right sizes %s: %s" % ("does not compile" if kind == "accept" else "fails", err[:900]),
                              {"kind": "compile" if kind == "accept" else "program", "expect": "accept", "profile": prof, "edition": "2021",
                               "source": src, "args": []})
    rep.add(2 * len(set(ns)), 2 * len(set(ns)))
    rep.extra["parts"]["right sizes run"] = {"programs": 2 * len(set(ns))}
    shutil.rmtree(d, ignore_errors=True)
