"""Generated programs that would use memory after it is gone, through two conflicting references, or from
two threads without synchronisation. The compiler has to reject each; a control without the misuse has to
be accepted, or the program is not used."""
import concurrent.futures as cf
import json
import os
import shutil

import core
import progs
from core import CheckError, sh

HEAD = """#![allow(unused, dead_code)]
use ordinal_map::map::*;
use ordinal_map::map::total::*;
use ordinal_map::set::*;
use ordinal_map::{Ordinal, AtomicOrdinal};
use std::rc::Rc;
use std::cell::Cell;
fn touch<T: ?Sized>(_: &T) {}
fn send<T: Send>() {}
fn sync<T: Sync>() {}
#[derive(Ordinal, Clone, PartialEq, Debug)]
pub enum E3 { A, B(bool) }
/// A key that must stay on its thread.
pub struct Kr(Rc<u8>);
impl Ordinal for Kr {
    const ORDINAL_SIZE: usize = 2;
    fn ordinal(&self) -> usize { *self.0 as usize }
    fn from_ordinal(o: usize) -> Option<Self> { if o < 2 { Some(Kr(Rc::new(o as u8))) } else { None } }
}
"""

# Key type, a key, the number of keys.
KEYS = [("bool", "true", 2), ("E3", "E3::B(true)", 3), ("u8", "7u8", 256), ("Option<bool>", "Some(false)", 3), ("(bool, E3)", "(true, E3::A)", 6)]
VALS = [("u8", "1u8"), ("String", "String::new()"), ("Box<u8>", "Box::new(1u8)"), ("Vec<String>", "vec![String::new()]")]

SPARSE_REF = ["m.get(&{k})", "m.iter()", "m.iter().next()", "m.iter().next_back()", "m.iter().clone()", "m.keys()", "m.values()", "m.values().next()",
              "(&m).into_iter()", "m.keys().clone()", "m.values().clone()", "m.iter().rev()"]
SPARSE_MUT = ["m.get_mut(&{k})", "m.iter_mut()", "m.iter_mut().next()", "m.iter_mut().next_back()", "m.values_mut()", "m.values_mut().next()",
              "m.drain()", "m.entry({k})", "m.entry({k}).or_insert({v})", "m.iter_mut().collect::<Vec<_>>()"]
TOTAL_REF = ["m.get(&{k})", "&m[&{k}]", "m.iter()", "m.iter().next()", "m.iter().next_back()", "m.iter().clone()", "m.values()", "m.values().next()", "(&m).into_iter()"]
TOTAL_MUT = ["m.get_mut(&{k})", "&mut m[&{k}]", "m.iter_mut()", "m.iter_mut().next()", "m.iter_mut().next_back()", "m.values_mut()", "m.values_mut().next()"]
ARRAY_REF = ["m.as_ref()", "m.values_array()", "m.as_ref().into_iter()", "m.as_ref().into_values()", "m.as_ref().map(|_, v| v)", "m.as_ref().zip(m.as_ref())"]
ARRAY_MUT = ["m.as_mut()", "m.values_array_mut()", "m.as_mut().into_iter()", "m.as_mut().into_values()", "m.as_mut().map(|_, v| v)"]
SET_REF = ["m.iter()", "m.iter().clone()", "m.iter().rev()"]

CONTAINERS = [
    ("OrdinalMap<{K}, {V}>", "[({k}, {v})].into_iter().collect()", SPARSE_REF, SPARSE_MUT),
    ("OrdinalArrayMap<{K}, {V}, {n}>", "[({k}, {v})].into_iter().collect()", SPARSE_REF, SPARSE_MUT),
    ("OrdinalTotalMap<{K}, {V}>", "Default::default()", TOTAL_REF, TOTAL_MUT),
    ("OrdinalTotalArrayMap<{K}, {V}, {n}>", "OrdinalTotalArrayMap::new(|_: {K}| {v})", TOTAL_REF + ARRAY_REF, TOTAL_MUT + ARRAY_MUT),
    ("OrdinalSet<{K}>", "[{k}].into_iter().collect()", SET_REF, []),
]
# What must not happen between making `x` and using it.
AFTER_REF = [("moved away", "let other = m;"), ("destroyed", "drop(m);"), ("replaced", "m = {new};"), ("borrowed mutably", "touch(&mut m);")]
AFTER_MUT = AFTER_REF + [("read", "touch(&m);")]
CHANGE = {"OrdinalMap": "m.clear();", "OrdinalArrayMap": "m.remove(&{k});", "OrdinalTotalMap": "m.insert({k}, {v});", "OrdinalTotalArrayMap": "m.insert({k}, {v});",
          "OrdinalSet": "m.insert({k});"}

BORROW_CODES = {"E0499", "E0502", "E0505", "E0506", "E0597", "E0382", "E0503", "E0716", "E0713", "E0515"}


def borrow_cases(r):
    """(what, wrong function body, control body)"""
    out = []
    for ty, new, refs, muts in CONTAINERS:
        for exclusive, producers in ((False, refs), (True, muts)):
            for p in producers:
                K, k, n = r.choice(KEYS)
                V, v = r.choice(VALS)
                sub = lambda s: s.replace("{new}", new).replace("{K}", K).replace("{V}", V).replace("{k}", k).replace("{v}", v).replace("{n}", str(n))
                make = sub("let mut m: %s = {new}; " % ty)
                x = sub("let mut x = %s; " % p)
                name = ty.split("<")[0]
                acts = list(AFTER_MUT if exclusive else AFTER_REF) + [("changed", CHANGE[name])]
                for what, act in acts:
                    out.append(("%s: %s, then %s" % (sub(ty), sub(p), what),
                                make + x + sub(act) + " touch(&x);", make + x + "touch(&x); drop(x); " + sub(act)))
                out.append(("%s: %s outliving it" % (sub(ty), sub(p)),
                            sub("let mut x; { let mut m: %s = {new}; x = %s; } touch(&x);" % (ty, p)),
                            sub("let mut m: %s = {new}; let mut x; { x = %s; } touch(&x);" % (ty, p))))
                if exclusive and p != "m.entry({k})":
                    out.append(("%s: %s twice" % (sub(ty), sub(p)), make + x + sub("let mut y = %s; touch(&x); touch(&y);" % p),
                                make + x + sub("touch(&x); drop(x); let mut y = %s; touch(&y);" % p)))
    return out


ITERS_REF = ["map::Iter<'static, {K}, {V}>", "map::Values<'static, {K}, {V}>", "map::Keys<'static, {K}, {V}>", "map::total::Iter<'static, {K}, {V}>"]
ITERS_MUT = ["map::IterMut<'static, {K}, {V}>", "map::Drain<'static, {K}, {V}>", "map::total::IterMut<'static, {K}, {V}>"]
ENTRIES = ["map::Entry<'static, {K}, {V}>", "map::OccupiedEntry<'static, {K}, {V}>", "map::VacantEntry<'static, {K}, {V}>"]
OWNERS = ["map::OrdinalMap<{K}, {V}>", "map::OrdinalArrayMap<{K}, {V}, {n}>", "map::total::OrdinalTotalMap<{K}, {V}>", "map::total::OrdinalTotalArrayMap<{K}, {V}, {n}>",
          "map::IntoIter<{K}, {V}>", "map::IntoIterArray<{K}, {V}, {n}>", "map::total::IntoIter<{K}, {V}>", "map::total::IntoIterArray<{K}, {V}, {n}>"]


def thread_cases(r):
    """The wrong claim must be refused; the control is the same claim about harmless values."""
    out = []

    def case(ty, K, V, n, claim, control_v="u8", control_k=None):
        sub = lambda s, k, v: "ordinal_map::" + s.replace("{K}", k).replace("{V}", v).replace("{n}", str(n))
        out.append(("%s: %s" % (sub(ty, K, V), claim), "%s::<%s>();" % (claim, sub(ty, K, V)), "%s::<%s>();" % (claim, sub(ty, control_k or K, control_v))))
    for ty in OWNERS + ITERS_REF + ITERS_MUT + ENTRIES:
        K, _, n = r.choice(KEYS)
        keys_only = "Keys" in ty
        for claim in ("send", "sync"):
            # The values never leave a listing of keys.
            if not keys_only:
                case(ty, K, r.choice(["Rc<u8>", "Rc<String>", "Vec<Rc<u8>>", "*mut u8"]), n, claim)
        if not keys_only:
            case(ty, K, r.choice(["Cell<u8>", "Vec<Cell<u8>>", "std::cell::RefCell<u8>"]), n, "sync")
        if ty in ITERS_REF and not keys_only:
            case(ty, K, "Cell<u8>", n, "send")
    for ty in ENTRIES:
        case(ty, "Kr", "u8", 2, "send", control_k="bool")
    return out


def variance_cases(r):
    """What can be written through must not be usable as a container of shorter-lived values."""
    out = []
    for ty in ["map::IterMut<'x, {K}, {V}>", "map::total::IterMut<'x, {K}, {V}>", "map::Entry<'x, {K}, {V}>",
               "map::OccupiedEntry<'x, {K}, {V}>", "map::VacantEntry<'x, {K}, {V}>"]:
        K = r.choice(KEYS)[0]
        t = lambda v: "ordinal_map::" + ty.replace("{K}", K).replace("{V}", v)
        for a, b in (("&'static str", "&'x str"), ("Vec<&'static u8>", "Vec<&'x u8>")):
            out.append(("%s used as %s" % (t(a), t(b)), "fn f<'x>(i: %s) -> %s { i }" % (t(a), t(b)), "fn f<'x>(i: %s) -> %s { i }" % (t(a), t(a))))
    return out


def text(bodies):
    """One function per line, so that a line identifies it."""
    return HEAD + "".join("fn case%d() { %s }\n" % (i, b) for i, b in enumerate(bodies))


FIRST = HEAD.count("\n") + 1


def errors(libs, path, n):
    """For each function, the error codes reported in it."""
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "-Awarnings", "--error-format=json"] + progs.FLAGS["checked"] + libs.args["checked"] + ["-o", path + ".rmeta", path]
    rc, so, se = sh(cmd, timeout=300)
    found = [[] for _ in range(n)]
    for l in se.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error" or not m.get("spans"):
            continue
        line = next((s["line_start"] for s in m["spans"] if s["is_primary"]), m["spans"][0]["line_start"])
        if 0 <= line - FIRST < n:
            found[line - FIRST].append((m["code"]["code"] if m.get("code") else "", m["message"]))
        else:
            raise CheckError("misuse programs: %s at line %d" % (m["message"][:300], line))
    return rc, found


def run(rep, libs):
    r = progs.rng(rep, "misuse")
    d = progs.workdir(rep, "misuse")
    groups = [("borrows", []), ("threads", []), ("variance", [])]
    for _ in range(4 if rep.tier == "thorough" else 1):
        for g, f in zip(groups, (borrow_cases, thread_cases, variance_cases)):
            g[1].extend(f(r))
    total = rejected = unusable = 0
    samples = []

    def compile_group(g):
        name, cases = g
        res = []
        for which in (1, 2):
            p = progs.write(os.path.join(d, "%s%d.rs" % (name, which)), text([c[which] for c in cases]))
            res.append(errors(libs, p, len(cases)))
        return res
    with cf.ThreadPoolExecutor(3) as pool:
        results = list(pool.map(compile_group, groups))
    for (name, cases), ((rc, wrong), (crc, control)) in zip(groups, results):
        for i, (what, body, control_body) in enumerate(cases):
            total += 1
            if control[i]:
                unusable += 1
                core.log("misuse control not accepted, skipped: %s: %s" % (what, control[i][0][1][:200]))
                continue
            if wrong[i]:
                rejected += 1
                if name == "borrows" and not any(c in BORROW_CODES or c == "" for c, _ in wrong[i]):
                    unusable += 1
                if len(samples) < 200:
                    samples.append({"program": body, "rejected_with": wrong[i][0][0] or wrong[i][0][1][:60]})
                continue
            # Alone, to be sure that nothing else in the file hid an error.
            src = text([body])
            p = progs.write(os.path.join(d, "alone.rs"), src)
            rc1, e1 = errors(libs, p, 1)
            if rc1 != 0:
                if not e1[0]:
                    raise CheckError("misuse program fails without a located error: " + what)
                rejected += 1
                continue
            rep.violation("misuse:" + what[:160], "safe code that must be rejected is accepted: " + what,
                          {"kind": "compile", "expect": "reject", "profile": "checked", "edition": "2021", "emit": "metadata", "source": src, "trace": [body]})
    if unusable * 4 > total:
        raise CheckError("%d of %d misuse programs are not usable" % (unusable, total))
    rep.add(total, rejected - 0, "Programs that would use a borrowed part of a container after it was moved, destroyed, replaced or changed, hold two exclusive borrows, "
            "carry thread-bound values to another thread or shorten a lifetime behind a mutable view; every one has a control without the misuse that compiles. Non-trivial: rejected by the compiler.",
            samples[::max(1, len(samples) // 6)][:6], name="misuse", detail={"programs": total, "rejected": rejected, "controls_not_accepted": unusable})
    shutil.rmtree(d, ignore_errors=True)
