"""Generated cases executed where undefined behaviour is visible: Miri and AddressSanitizer.

The harness binary `ub` emits cases natively and executes them from a file in either executor,
announcing each case before it starts, so that whatever ends the process is attributed to a case."""
import concurrent.futures as cf
import os
import random
import re
import select
import signal
import subprocess
import time

import core
from core import CheckError, HARNESS, TARGET, WORK, sh

MIRI_TARGET = os.path.join(TARGET, "miri")
ASAN_TARGET = os.path.join(TARGET, "asan")
ASAN_TRIPLE = "x86_64-unknown-linux-gnu"
BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
STUCK = 90  # seconds without a finished case
JOBS = 8


RELEASE = "+release"  # in a flag set: built without debug assertions and overflow checks


class Executor:
    """`kind` is "miri" or "asan". A flag set selects the build with RELEASE; the rest are Miri's flags."""

    def __init__(self, kind, flagsets=("",)):
        self.kind = kind
        self.releases = sorted(set(RELEASE in f for f in flagsets))

    def profile(self, release):
        """(directory with fingerprints, build command or None, command to run a file of cases)"""
        manifest = ["--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--no-default-features", "--features", "either", "--bin", "ub"]
        if self.kind == "miri":
            return (os.path.join(MIRI_TARGET, "miri", ASAN_TRIPLE, "release" if release else "debug"), None,
                    ["cargo", "+nightly", "miri", "run"] + manifest + (["--release"] if release else []) + ["--target-dir", MIRI_TARGET, "file"])
        name = "release" if release else "checked"
        d = os.path.join(ASAN_TARGET, ASAN_TRIPLE, name)
        return (d, ["cargo", "+nightly", "build"] + manifest + ["--target-dir", ASAN_TARGET, "--target", ASAN_TRIPLE, "--profile", name],
                [os.path.join(d, "ub"), "file"])

    def env(self, flags):
        if self.kind == "miri":
            return dict(core.ENV, MIRIFLAGS=BASE + " " + flags.replace(RELEASE, ""))
        return dict(core.ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:symbolize=1",
                    RUSTFLAGS="-Awarnings -Zsanitizer=address")

    def build(self):
        for r in self.releases:
            self.build_one(r)
        return self

    def build_one(self, release):
        pdir, cmd, run = self.profile(release)
        key = core.source_hash()
        stamp, _ = core.freshen(pdir, key)
        if cmd is None:
            os.makedirs(WORK, exist_ok=True)
            empty = os.path.join(WORK, "none.cases")
            open(empty, "w").close()
            rc, out, err = sh(run + [empty], timeout=600, env=self.env(""))
            if rc != 0 or "DONE" not in out:
                raise CheckError("building for Miri failed:\n" + err[-3000:])
        else:
            rc, out, err = sh(cmd, timeout=600, env=self.env(""))
            if rc != 0:
                raise CheckError("building for AddressSanitizer failed:\n" + err[-3000:])
        os.makedirs(pdir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(key)

    def once(self, lines, flags, name, deadline, stuck=STUCK):
        """Execute the cases until something happens: (done, nontrivial indices, how it ended, text)."""
        path = os.path.join(WORK, name + ".cases")
        with open(path, "w") as f:
            f.write("".join(l + "\n" for l in lines))
        errpath = path + ".err"
        cur, nt, ended, text = -1, [], None, ""
        with open(errpath, "w") as ef:
            p = subprocess.Popen(self.profile(RELEASE in flags)[2] + [path], stdout=subprocess.PIPE, stderr=ef, stdin=subprocess.DEVNULL, env=self.env(flags), start_new_session=True)
        try:
            buf, last = b"", time.time()
            fd = p.stdout.fileno()
            while True:
                r, _, _ = select.select([fd], [], [], 1)
                now = time.time()
                if r:
                    d = os.read(fd, 1 << 16)
                    if not d:
                        break
                    last = now
                    *full, buf = (buf + d).split(b"\n")
                    for l in full:
                        l = l.decode(errors="replace")
                        if l.startswith("@"):
                            cur = int(l[1:])
                        elif l.startswith("+"):
                            nt.append(int(l[1:]))
                        elif l.startswith("FAIL "):
                            ended, text = "fail", l[5:]
                        elif l == "DONE":
                            ended = "done"
                elif now - last > stuck:
                    ended = "stuck"
                    break
                if now > deadline:
                    ended = ended or "deadline"
                    break
        finally:
            try:
                if p.poll() is None and ended in ("stuck", "deadline"):
                    os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            p.stdout.close()
        err = open(errpath, errors="replace").read()
        os.unlink(errpath)
        os.unlink(path)
        if ended is None:
            ended, text = self.judge(err, p.returncode)
        return cur, nt, ended, text

    def judge(self, err, rc):
        if self.kind == "miri":
            m = re.search(r"error: Undefined Behavior: (.*)", err)
            if m:
                at = re.findall(r"--> (\S+)", err[m.start():])
                return "ub", "undefined behaviour: %s (%s)" % (m.group(1)[:300], ", ".join(at[:1]))
            m = re.search(r"error: (abnormal termination.*|.*deadlock.*|the evaluated program.*)", err)
            if m:
                return "abort", m.group(1)
            raise CheckError("Miri gave no verdict (exit %s): %s" % (rc, err[-3000:]))
        m = re.search(r"ERROR: AddressSanitizer: ?(\S+).*", err)
        if m and not re.match(r"(out-of-memory|allocation-size|stack-overflow|requested)", m.group(1)):
            at = [x for x in re.findall(r"#\d+ \S+ in (\S+)", err) if "ordinal_map" in x]
            return "ub", "AddressSanitizer: %s (%s)" % (m.group(1), ", ".join(at[:1]))
        if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            return "ub", "the process is killed by signal %d" % -rc
        return "abort", "exit %d" % rc


def emit(exe, prop, seed, n, max_ops):
    rc, out, err = sh([exe, "emit", prop, str(seed), str(n), str(max_ops)], timeout=120)
    if rc != 0:
        raise CheckError("emit failed: " + err[-500:])
    return out.splitlines()


def chunk(ex, prop, lines, flags, name, deadline, bad_kinds):
    """Executes lines, going on after cases that end the process in a way that is not of interest."""
    pos, nt, skipped, viol = 0, set(), 0, None
    while pos < len(lines):
        cur, n, how, text = ex.once(lines[pos:], flags, name, deadline)
        nt.update(pos + i for i in n)
        if how == "done":
            pos = len(lines)
        elif how == "deadline":
            pos += max(cur, 0)
            break
        elif how in bad_kinds:
            viol = (lines[pos + cur], text)
            pos += cur + 1
            break
        else:
            skipped += 1
            pos += cur + 1
            if cur < 0 or skipped > 40:
                raise CheckError("%s: the executor keeps ending (%s: %s)" % (name, how, text))
    return pos, [lines[i] for i in nt], skipped, viol


def shrink(ex, prop, line, flagsets, bad_kinds, repeat, name, budget):
    """Drops operations while some flag set still fails. Returns (line, flags, text) or None."""
    end = time.time() + budget

    def fails(l):
        def one(fl):
            _, _, how, text = ex.once([l] * repeat, fl, "%s-%s" % (name, abs(hash(fl)) % 10**8), time.time() + 120)
            return (fl, text) if how in bad_kinds else None
        with cf.ThreadPoolExecutor(JOBS) as pool:
            for r in pool.map(one, flagsets):
                if r:
                    return r
        return None

    best = fails(line)
    if not best:
        return None
    subj, case = line.split("|", 1)
    parts = case.split()
    size = max(1, (len(parts) - 1) // 2)
    while size >= 1 and time.time() < end:
        i, changed = 1, False
        while i < len(parts) and time.time() < end:
            q = parts[:i] + parts[i + size:]
            r = fails(subj + "|" + " ".join(q))
            if r:
                parts, best, changed = q, r, True
            else:
                i += size
        if not changed:
            size //= 2
    return subj + "|" + " ".join(parts), best[0], best[1]


def run(rep, prop, kind, emitter, batches, flagsets, bad_kinds, budget, rule, repeat=1, tag=""):
    """`batches` is a list of (cases per subject, max ops, repetitions). One flag set per job."""
    ex = Executor(kind, flagsets).build()
    os.makedirs(WORK, exist_ok=True)
    lines = []
    for b, (n, mx, reps) in enumerate(batches):
        lines += emit(emitter, prop, rep.seed * 1000 + b * 7 + (0 if kind == "miri" else 500), n, mx) * reps
    random.Random(rep.seed).shuffle(lines)
    deadline = time.time() + budget
    jobs = [(lines[j::JOBS], flagsets[j % len(flagsets)], "%s-%s%s-%d" % (prop, kind, tag, j)) for j in range(JOBS)]
    with cf.ThreadPoolExecutor(JOBS) as pool:
        res = list(pool.map(lambda j: chunk(ex, prop, j[0], j[1], j[2], deadline, bad_kinds), jobs))
    done = sum(r[0] for r in res)
    nontriv = set(x for r in res for x in r[1])
    skipped = sum(r[2] for r in res)
    per = {}
    for (ls, _, _), r in zip(jobs, res):
        for l in ls[:r[0]]:
            s = l.split("|")[0]
            per[s] = per.get(s, 0) + 1
    picks = sorted(nontriv)
    rep.add(done, len(nontriv), rule, [{"executor": kind, "case": l} for l in picks[::max(1, len(picks) // 8)][:8]],
            name=kind + tag, detail={"executed": done, "planned": len(lines), "distinct_nontrivial": len(nontriv), "ended_without_verdict": skipped,
                                     "subjects": len(per), "fewest_per_subject": min(per.values(), default=0)})
    viols = [(j, r[3]) for j, r in zip(jobs, res) if r[3]]
    seen = set()
    for (ls, fl, name), (line, text) in viols:
        subj = line.split("|")[0]
        if subj in seen or len(seen) >= 3:
            continue
        seen.add(subj)
        small = shrink(ex, prop, line, [fl] + [f for f in flagsets if f != fl][:7], bad_kinds, repeat, name + "-s", 100)
        l, f, t = small or (line, fl, text)
        rep.violation("%s:%s" % (kind, subj), t, {"kind": "watched", "executor": kind, "case": l, "flags": f, "repeat": repeat, "bad": sorted(bad_kinds),
                                                 "reproduced": bool(small), "prop": prop})


def replay(r):
    tries = [r["flags"]] + (["-Zmiri-seed=%d " % i + (RELEASE if RELEASE in r["flags"] else "") for i in range(8)] if r["executor"] == "miri" else [])
    ex = Executor(r["executor"], tries).build()
    for fl in tries:
        cur, nt, how, text = ex.once([r["case"]] * max(r["repeat"], 1), fl, "replay-%s" % r["prop"], time.time() + 300)
        if how in r["bad"]:
            print("  case: " + r["case"])
            print("  " + text)
            print("VIOLATION property=%s (reproduced)" % r["property"])
            return 1
    print("OK (not reproduced)")
    return 0
