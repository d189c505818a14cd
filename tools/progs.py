"""Compiles and runs generated Rust programs against the crate as built from /repo."""
import concurrent.futures as cf
import json
import os
import random
import shutil

import core
import gen
from core import CheckError, sh

FLAGS = {
    "checked": ["-Copt-level=1", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Clto=off"],
    "release": ["-Copt-level=1", "-Cdebug-assertions=off", "-Coverflow-checks=off", "-Clto=off"],
}


def target(profile):
    """Flags of the target, and of the optimisation level, of a build."""
    if not profile.endswith("32"):
        return FLAGS[profile.removesuffix("bare")]
    import w32
    return FLAGS[profile.removesuffix("32")] + ["--target", w32.TRIPLE] + w32.flags()


class Libs:
    """Paths of the built crates, per profile."""

    def __init__(self, profiles=core.PROFILES):
        self.args = {}
        core.ready(profiles)
        with cf.ThreadPoolExecutor(2) as ex:
            for prof, a in zip(profiles, ex.map(self.locate, profiles)):
                self.args[prof] = a

    def locate(self, profile):
        core.build_one(profile, ["lib"])
        cmd, env, dirs = core.cargo(profile)
        rc, out, err = sh(cmd + ["--lib", "--message-format=json"], timeout=800, env=env)
        if rc != 0:
            raise CheckError("library build failed: " + err[-2000:])
        found = {}
        for l in out.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("reason") == "compiler-artifact":
                    for f in m["filenames"]:
                        if f.endswith(".rlib"):
                            found[m["target"]["name"].replace("-", "_")] = f
        a = []
        for d in dirs:
            a += ["-L", "dependency=" + os.path.join(d, "deps")]
        for n in ("omv", "ordinal_map") + (() if profile.endswith("bare") else ("either",)):
            a += ["--extern", "%s=%s" % (n, found[n])]
        return a

    def rustc(self, profile, src, out, edition="2021", emit=None, timeout=300, flags=()):
        cmd = ["rustc", "--edition", edition, "--cap-lints", "allow", "-Awarnings", "-Ccodegen-units=4"] + target(profile) + list(flags) + self.args[profile]
        if emit:
            cmd += ["--crate-type", "lib", "--emit=" + emit]
        cmd += ["-o", out, src]
        rc, so, se = sh(cmd, timeout=timeout)
        return rc, se


def short(err):
    """The first error of a compiler's output."""
    i = err.find("error")
    return err[i:i + 900] if i >= 0 else err[-900:]


def workdir(rep, name):
    d = os.path.join(core.WORK, "%s-%s" % (rep.prop, name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def spelled(text):
    """Types that need an optional feature are replaced by ones with the same values where it is off."""
    return text.replace("either::Either<", "std::result::Result<") if core.MODE == "bare" else text


def write(path, text):
    with open(path, "w") as f:
        f.write(spelled(text))
    return path


class Programs:
    def __init__(self, rep, libs, name, fns, cases, rule, compile_fail_is_violation, editions=("2021",)):
        self.rep, self.libs, self.fns, self.cases, self.rule = rep, libs, fns, cases, rule
        self.dir = workdir(rep, name)
        self.name = name
        self.cfv = compile_fail_is_violation
        self.editions = editions
        self.rejected = []
        self.generator_errors = []

    def text(self, items):
        return gen.program(items, self.rep.prop, self.fns, self.cases, self.rule)

    def alone(self, item, tag, profile=core.PROFILES[0]):
        """Compiler error for the program of one item, or None."""
        src = write(os.path.join(self.dir, "one-%s.rs" % tag), self.text([item]))
        out = os.path.join(self.dir, "one-%s" % tag)
        rc, err = self.libs.rustc(profile, src, out + ".o", item.edition, emit="obj")
        for f in (src, out + ".o"):
            if os.path.exists(f):
                os.unlink(f)
        # `main` of a lib crate is not generated; the program itself decides.
        return None if rc == 0 else err

    def one_program(self, items, tag, profile):
        src = write(os.path.join(self.dir, "%s.rs" % tag), self.text(items))
        exe = os.path.join(self.dir, "%s-%s" % (tag, profile))
        rc, err = self.libs.rustc(profile, src, exe, items[0].edition)
        return exe, rc, err

    def control(self):
        it = gen.Item("std::option::Option<bool>", 3, True)
        _, rc, err = self.one_program([it], "control", core.PROFILES[0])
        if rc != 0:
            raise CheckError("the control program does not compile: " + short(err))

    def run(self, items, chunk=None, profiles=core.PROFILES, shrink_budget=40):
        n = len(items)
        chunk = chunk or max(1, (n + 7) // 8)
        chunks = [items[i:i + chunk] for i in range(0, n, chunk)]
        for i, c in enumerate(chunks):
            for it in c:
                it.edition = self.editions[i % len(self.editions)]
        jobs = [(c, "p%d" % i, p) for i, c in enumerate(chunks) for p in profiles]
        with cf.ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda j: self.one_program(*j), jobs))
            bad = sorted({i for i, (j, b) in enumerate(zip(jobs, built)) if b[1] != 0})
            runnable = [(j, b[0]) for j, b in zip(jobs, built) if b[1] == 0]
            if bad:
                self.control()
                again = {}
                for i in bad:
                    for it in jobs[i][0]:
                        again.setdefault((id(it), jobs[i][2]), it)
                keys = list(again)

                def single(k):
                    it = again[k]
                    tag = "s%d-%s" % (k[0], k[1])
                    exe, rc, err = self.one_program([it], tag, k[1])
                    return exe, rc, err
                if chunk == 1:
                    res = [(None, 1, next(b[2] for j, b in zip(jobs, built) if j[0][0] is again[k] and j[2] == k[1])) for k in keys]
                else:
                    res = list(ex.map(single, keys))
                failed = {}
                for k, (exe, rc, err) in zip(keys, res):
                    if rc == 0:
                        runnable.append((([again[k]], "", k[1]), exe))
                    else:
                        failed.setdefault(k[0], (again[k], k[1], err))
                for it, prof, err in failed.values():
                    _, rc, terr = self.one_program([it.twin()], "twin", prof)
                    if it.decl and rc != 0:
                        self.generator_errors.append((it.source, short(terr)))
                        core.log("generator error, skipped:\n%s\n%s" % (it.source, short(terr)))
                    else:
                        self.rejected.append((it, prof, err))
                if len(self.generator_errors) * 4 > n:
                    raise CheckError("the generator produces programs that do not compile: " + self.generator_errors[0][1])
            outs = list(ex.map(lambda r: self.execute(r[0], r[1]), runnable))
        total = {"evaluations": 0, "distinct_nontrivial": 0}
        for d in outs:
            self.rep.add(d["evaluations"], d["distinct_nontrivial"], d["rule"], d["samples"][:2])
            total["evaluations"] += d["evaluations"]
            total["distinct_nontrivial"] += d["distinct_nontrivial"]
        self.rep.extra.setdefault("parts", {})[self.name] = dict(total, programs=len(jobs), types=n, rejected_by_compiler=len(self.rejected))
        if self.cfv:
            for it, prof, err in self.rejected[:6]:
                it, err = self.minimal(it, prof, err, shrink_budget)
                self.rep.violation("compile:" + it.source[:200], "does not compile although it has %d values: %s" % (it.n, short(err)),
                                   {"kind": "compile", "expect": "accept", "profile": prof, "edition": it.edition, "source": self.text([it]),
                                    "trace": it.source.splitlines()})
        shutil.rmtree(self.dir, ignore_errors=True)

    def minimal(self, it, prof, err, budget):
        if it.shrink is None:
            return it, err
        d = it.shrink
        progress = True
        while progress and budget > 0:
            progress = False
            cand = gen.shrink_decl(d)[: max(0, budget)]
            budget -= len(cand)
            with cf.ThreadPoolExecutor(8) as ex:
                def attempt(ie):
                    i, e = ie
                    x = gen.decl_item(e, 0)
                    _, rc, er = self.one_program([x], "shr%d" % i, prof)
                    # Keep the same kind of error.
                    if rc != 0 and x.decl and self.one_program([x.twin()], "shr%dt" % i, prof)[1] != 0:
                        rc = 0
                    return rc != 0 and er.split("error", 1)[-1][:8] == err.split("error", 1)[-1][:8], x, er, e
                for ok, x, er, e in ex.map(attempt, enumerate(cand)):
                    if ok:
                        it, err, d, progress = x, er, e, True
                        break
        return it, err

    def execute(self, job, exe):
        items, tag, profile = job
        rep = self.rep
        out = exe + ".json"
        seed = rep.seed * 2 + profile.startswith("release")
        cmd = [exe, "run", rep.prop, str(seed), rep.tier, out]
        env = dict(core.ENV, OMV_THREADS="2")
        rc, so, se = sh(cmd, timeout=800, env=env, mem=core.MEM)
        if rc in core.CRASH:
            it = items[0]
            for it in items:
                e2, r2, _ = self.one_program([it], "crash%d" % id(it), profile)
                if r2 == 0 and sh([e2, "run", rep.prop, str(seed), rep.tier, out], timeout=600, env=env, mem=core.MEM)[0] in core.CRASH:
                    break
            rep.violation("crash:" + it.source[:200], "the process is killed by signal %d" % -rc,
                          {"kind": "program", "profile": profile, "edition": it.edition, "source": self.text([it]),
                           "args": ["run", rep.prop, str(seed), rep.tier, "/dev/null"]})
            return {"evaluations": 0, "distinct_nontrivial": 0, "rule": self.rule, "samples": []}
        if rc != 0:
            raise CheckError("generated program failed: rc %d %s" % (rc, se[-2000:]))
        d = json.load(open(out))
        for s in d["samples"]:
            s["profile"] = profile
        seen = set()
        for fl in d["failures"]:
            it = next((i for i in items if fl["subject"].startswith(spelled(i.ty) + "/")), items[0])
            if id(it) in seen:
                continue
            seen.add(id(it))
            rep.violation("type:" + it.source[:200] + ":" + fl["subject"].rsplit("/", 1)[1], fl["message"],
                          {"kind": "program", "profile": profile, "edition": it.edition, "source": self.text([it]),
                           "args": ["replay", rep.prop, fl["subject"]] + fl["case"].split(), "trace": it.source.splitlines()[:12] + fl["trace"]})
        return d


def replay(r):
    libs = Libs((r["profile"],))
    d = os.path.join(core.WORK, "replay")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = write(os.path.join(d, "p.rs"), r["source"])
    if r["kind"] == "compile":
        emit = r.get("emit")
        rc, err = libs.rustc(r["profile"], src, os.path.join(d, "p"), r["edition"], emit=emit)
        print(short(err) if rc else "compiles")
        bad = (rc != 0) == (r["expect"] == "accept")
    else:
        rc, err = libs.rustc(r["profile"], src, os.path.join(d, "p"), r["edition"])
        if rc != 0:
            print(short(err))
            bad = True
        else:
            rc, out, err = sh([os.path.join(d, "p")] + r["args"], timeout=300, mem=core.MEM)
            print(out, end="")
            bad = rc != 0
    shutil.rmtree(d, ignore_errors=True)
    if bad:
        print("VIOLATION property=%s (reproduced)" % r["property"])
    return 1 if bad else 0


def rng(rep, what):
    return random.Random("%s/%s/%s" % (rep.prop, what, rep.seed))
