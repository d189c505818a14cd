"""What each property's check runs."""
import json
import os
import time

import core
import gchecks
import generic
import misuse
import progs
import watched
from core import build, pbt

PBT = {
    "C01": ["types"], "C03": ["types"], "C04": ["types"], "C07": ["types", "total"],
    "C08": ["sparse"], "C09": ["sparse"], "C10": ["sparse"], "C11": ["sparse"],
    "C12": ["total"], "C13": ["total"], "C14": ["total"], "C15": ["total"],
    "C16": ["sets"], "C17": ["sets"], "C18": ["sets"],
    "C19": ["drops"], "C20": ["atomic"], "C21": ["atomic"], "C23": ["resources"], "C24": ["resources"], "C31": ["resources"], "C32": ["drops"], "C33": ["resources"],
    "C22": ["sparse", "total", "sets"],
    "C25": ["sparse", "total", "sets", "atomic"],
}
GENERATED = ("C02", "C03", "C04", "C05", "C07")
BINS = ["sparse", "total", "sets", "types", "drops", "resources", "atomic", "ub"]


def sweep(rep, dirs, types=("small", "u32", "i32", "NonZeroU32", "NonZeroI32")):
    """Every value of every scalar type of up to 32 bits."""
    for profile, pdir in dirs.items():
        out = os.path.join(core.WORK, "sweep-%s.json" % profile)
        os.makedirs(core.WORK, exist_ok=True)
        rc, so, se = core.sh([os.path.join(pdir, "types"), "sweep", out] + list(types), timeout=700, mem=core.MEM)
        if rc != 0:
            raise core.CheckError("sweep exited with %d: %s" % (rc, se[-1500:]))
        d = json.load(open(out))
        os.unlink(out)
        rep.extra.setdefault("parts", {})["sweep (%s)" % profile] = {"positions": d["positions"], "types": d["types"]}
        rep.extra["exhaustive_positions"] = rep.extra.get("exhaustive_positions", 0) + d["positions"]
        for fl in d["failures"]:
            rep.violation("types:" + fl["subject"], fl["message"],
                          {"kind": "pbt", "binary": "types", "profile": profile, "subject": fl["subject"], "case": fl["case"], "prop": "C01"})


def c21_miri(rep, dirs):
    """Programs of threads in the interpreter: weak memory, data races, many schedules."""
    deep = rep.tier == "thorough"
    flags = ["-Zmiri-seed=%d -Zmiri-preemption-rate=%s%s" % (rep.seed * 8 + i, [0.01, 0.05, 0.2, 0.5][i % 4], " " + watched.RELEASE if i > 3 else "") for i in range(8)]
    batches = [(90, 6, 3), (60, 12, 2)] if not deep else [(1500, 6, 3), (1500, 12, 3)]
    watched.run(rep, "C21", "miri", os.path.join(dirs["checked"], "ub"), batches, flags, {"fail", "ub", "abort"}, 2400 if deep else 130,
                "(Miri) the same kind of programs, up to 12 operations, in an interpreter that emulates weak memory, detects data races on the plain memory handed over, and picks another schedule each time. Non-trivial: at least two threads take part.",
                repeat=12)


def c27(rep):
    deep = rep.tier == "thorough"
    misuse.run(rep, progs.Libs(("checked",)))
    dirs = core.build_for(rep, ["ub"], ("checked",))
    if dirs is None:
        return
    exe = os.path.join(dirs["checked"], "ub")
    bad = {"fail", "ub"}
    what = "Histories over all maps, sets, iterators, transformations and conversions with heap-owning values, keys whose conversions lie or panic, callbacks that fail or panic at a random call, iterators kept, cloned and forgotten, size hints that lie"
    # One aliasing model per half of the processes; code must be accepted by both. Each with and without debug assertions.
    flags = ["-Zmiri-seed=%d%s%s" % (rep.seed * 8 + i, " -Zmiri-tree-borrows" if i % 2 else " -Zmiri-strict-provenance",
                                     " " + watched.RELEASE if i // 2 % 2 else "") for i in range(8)]
    batches = [(20, 6, 1), (16, 14, 1)] if not deep else [(300, 6, 1), (300, 12, 1), (200, 24, 1)]
    watched.run(rep, "C27", "asan", exe, [(2500, 14, 1), (600, 40, 1)] if not deep else [(40000, 14, 1), (20000, 40, 1)], ["", watched.RELEASE], bad, 1200 if deep else 100,
                what + "; executed natively under AddressSanitizer. Non-trivial: more than two operations, or the rule of the reused history.", tag="")
    watched.run(rep, "C27", "miri", exe, batches, flags, bad, 2700 if deep else 200,
                what + "; executed in Miri (half under Stacked Borrows, half under Tree Borrows).")


NARROW = [("types", "C01 C03 C04 C07"), ("sparse", "C08 C09 C10 C11 C22 C25"), ("total", "C07 C12 C13 C14 C15 C22 C25"), ("sets", "C16 C17 C18 C22 C25"), ("drops", "C19"),
          ("atomic", "C20 C25"), ("resources", "C23 C24")]


# Seconds after which a quick check of another build starts no further part.
ENOUGH = 420


def elsewhere(rep, where, rule):
    """The other properties' checks, in other builds: everything in this process is compiled for them."""
    deep = rep.tier == "thorough"
    dirs = core.build_for(rep, [b for b, _ in NARROW])
    if dirs is None:
        return
    rep.rules.append("The run-time checks of %s, %s, in both builds; %s. Cases and non-triviality as in those checks."
                     % (", ".join(sorted({q for _, qs in NARROW for q in qs.split()})), where, rule))

    def part(q, f):
        if not deep and time.time() - rep.t0 > ENOUGH:
            rep.extra.setdefault("not_run_for_lack_of_time", []).append(q)
            return
        s = core.Report(q, rep.tier, rep.seed)
        f(s)
        core.log("%s %s %.0f s" % (rep.prop, q, time.time() - s.t0))
        rep.add(s.evaluations, s.distinct, None, s.samples[::max(1, len(s.samples) // 3)][:3])
        for name, d in s.extra.get("parts", {}).items():
            rep.extra.setdefault("parts", {})["%s: %s" % (q, name)] = d
        for sig, msg, rp in s.violations:
            rep.violation("%s:%s" % (q, sig), "%s, %s: %s" % (where, q, msg), rp)
    part("C01", lambda s: sweep(s, dirs, ["small"] + (["NonZeroU32", "NonZeroI32"] if deep else [])))
    part("C05", gchecks.narrow)
    part("C06", gchecks.c06)
    part("C26", gchecks.c26)
    part("C28", generic.run)
    for b, qs in NARROW:
        for q in qs.split():
            part(q, lambda s: pbt(s, b, dirs, scale=0.3))


def c29(rep):
    elsewhere(rep, "where usize has 32 bits", "generated types of up to 2^32-1 values and generated declarations (bijection, rejection of other numbers, order, listing); types of more than 2^32-1 values, which must be rejected; every constructor of fixed-capacity containers with right and wrong sizes; every operation called with random key and value types")


def c30(rep):
    elsewhere(rep, "without optional features", "generated types and declarations (bijection, rejection of other numbers, order, listing); types of more than usize::MAX values, which must be rejected; every constructor of fixed-capacity containers with right and wrong sizes; every operation called with random key and value types")


def run(rep):
    try:
        parts(rep)
    except core.BuildError as e:
        # The harness uses only the public interface: it has to compile whenever the crate does.
        if core.build_for(rep, e.bins, (e.profile,)) is not None:
            raise


def parts(rep):
    p = rep.prop
    known = False
    if p in PBT:
        known = True
        bins = PBT[p]
        dirs = core.build_for(rep, bins)
        if dirs is None:
            return
        for b in bins:
            pbt(rep, b, dirs, env_extra={"OMV_THREADS": "2"} if p == "C21" else None)
        if p == "C01":
            sweep(rep, dirs)
        if p == "C21":
            dirs = core.build_for(rep, ["ub"], ("checked",))
            if dirs is not None:
                c21_miri(rep, dirs)
    if p in GENERATED:
        known = True
        gchecks.generated(rep)
    if p == "C06":
        known = True
        gchecks.c06(rep)
    if p == "C27":
        known = True
        c27(rep)
    if p == "C29":
        known = True
        c29(rep)
    if p == "C30":
        known = True
        c30(rep)
    if p == "C28":
        known = True
        generic.run(rep)
    if p == "C26":
        known = True
        gchecks.c26(rep)
    if not known:
        raise core.CheckError("no check for " + p)


def setup():
    try:
        build(BINS + ["lib"])
    except core.BuildError as e:
        # The checks build what they need themselves.
        core.log(str(e))


def replay(r):
    if r["kind"] in ("compile", "program"):
        return progs.replay(r)
    if r["kind"] == "pbt":
        dirs = build([r["binary"]], (r["profile"],))
        exe = os.path.join(dirs[r["profile"]], r["binary"])
        rc, out, err = core.sh([exe, "replay", r["prop"], r["subject"]] + r["case"].split(), timeout=120, mem=core.MEM)
        print(out, end="")
        if rc == 0:
            return 0
        print("VIOLATION property=%s (reproduced, exit %d)" % (r["property"], rc))
        return 1
    if r["kind"] == "build":
        try:
            build(r["bins"], r["profiles"])
        except core.BuildError as e:
            print(str(e)[-3000:])
            print("VIOLATION property=%s (reproduced)" % r["property"])
            return 1
        return 0
    if r["kind"] == "watched":
        return watched.replay(r)
    raise core.CheckError("unknown replay kind")
