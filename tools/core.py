"""Shared parts of the check driver: building, running, merging evidence, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
WORK = os.path.join(VERIF, "work")
# What everything in this process is built for: the machine ("", all features), a target whose `usize` has 32 bits
# ("32"), or the machine without optional features ("bare").
MODE = os.environ.get("OMV_MODE", "")
BITS = 32 if MODE == "32" else 64
PROFILES = ("checked" + MODE, "release" + MODE)
BARE = os.path.join(TARGET, "bare")
ENV = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "PROPTEST_CASES"):
    ENV.pop(k, None)


class CheckError(Exception):
    """The check could not give an answer."""


class BuildError(CheckError):
    """The harness does not compile against the crate."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600, cwd=None, env=None, input=None, mem=None):
    """Run in a process group of its own; kill the group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True,
                         preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("timeout after %ss: %s" % (timeout, " ".join(cmd)[:300]))
    return p.returncode, out, err


def source_hash():
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def freshen(profile_dir, key):
    """Drop cargo's fingerprints of everything built from /repo or the harness when the sources
    differ in content from those of the last build there (cargo itself compares only mtimes)."""
    stamp = os.path.join(profile_dir, ".omv-source-hash")
    try:
        same = open(stamp).read() == key
    except OSError:
        same = False
    if not same:
        fp = os.path.join(profile_dir, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(ordinal-map|omv)", d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        try:
            os.unlink(stamp)
        except OSError:
            pass
    return stamp, same


def cargo(profile):
    """Command and environment that build the harness, and the directories where the results are."""
    name = profile.removesuffix("32").removesuffix("bare")
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--profile", name]
    if profile == name:
        return cmd, ENV, [os.path.join(TARGET, name)]
    if profile.endswith("bare"):
        return cmd + ["--no-default-features", "--features", "pbt"], dict(ENV, CARGO_TARGET_DIR=BARE), [os.path.join(BARE, name)]
    import w32
    return cmd + ["--target", w32.TRIPLE], w32.env(), [os.path.join(w32.DIR, w32.TRIPLE, name), os.path.join(w32.DIR, name)]


def build_one(profile, bins, features=None):
    key = source_hash()
    cmd, env, pdirs = cargo(profile)
    stamps = [freshen(d, key)[0] for d in pdirs]
    cmd.append("--quiet")
    for b in bins:
        cmd += (["--lib"] if b == "lib" else ["--bin", b])
    rc, out, err = sh(cmd, timeout=800, env=env)
    if rc != 0:
        e = BuildError("build of %s (%s) failed:\n%s" % (bins, profile, err[-4000:]))
        e.bins, e.profile = bins, profile
        raise e
    for d, stamp in zip(pdirs, stamps):
        os.makedirs(d, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(key)
    return pdirs[0]


def ready(profiles):
    """What has to exist before anything is built."""
    if any(p.endswith("32") for p in profiles):
        import w32
        w32.sysroot()


def build(bins, profiles=PROFILES):
    ready(profiles)
    with cf.ThreadPoolExecutor(len(profiles)) as ex:
        return dict(zip(profiles, ex.map(lambda p: build_one(p, bins), profiles)))


def build_for(rep, bins, profiles=PROFILES):
    """Build, or report that valid uses of the public interface are rejected by the compiler. None in that case."""
    try:
        return build(bins, profiles)
    except BuildError as e:
        text = str(e)
        # Only an error in the program counts, not a compiler that was killed, and only if it is no accident.
        if not re.search(r"^error(\[E\d+\])?: ", text, re.M) or re.search(r"signal: \d+|No space left|internal compiler error|linking with", text):
            raise
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "-p", "ordinal-map"]
        if sh(cmd, timeout=800)[0] != 0:
            raise
        try:
            return build(bins, profiles)
        except BuildError as again:
            text = str(again)
    i = text.find("\nerror")
    first = text[i + 1:i + 1500]
    rep.violation("build:" + "+".join(bins), "valid uses of the public interface do not compile: " + first,
                  {"kind": "build", "bins": list(bins), "profiles": list(profiles), "trace": first.splitlines()[:20]})
    return None


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.rules = []
        self.samples = []
        self.extra = {}
        self.violations = []  # (signature, message, replay dict)
        self.known = []
        self.assumptions = []

    def add(self, evaluations, distinct, rule=None, samples=(), name=None, detail=None):
        self.evaluations += evaluations
        self.distinct += distinct
        if rule and rule not in self.rules:
            self.rules.append(rule)
        self.samples += list(samples)
        if name is not None:
            self.extra.setdefault("parts", {})[name] = detail if detail is not None else {"evaluations": evaluations, "distinct_nontrivial": distinct}

    def violation(self, signature, message, replay):
        self.violations.append((signature, message, replay))


def known_findings():
    """`finding: property=<id> signature=<sig> <text>` lines suppress exactly that signature."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def finish(rep):
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = {(p, s): t for p, s, t in known_findings()}
    real = []
    for sig, msg, replay in rep.violations:
        if (rep.prop, sig) in known:
            rep.known.append(known[(rep.prop, sig)])
        else:
            real.append((sig, msg, replay))
    for t in sorted(set(rep.known)):
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, t))
    lines = []
    for i, (sig, msg, replay) in enumerate(real[:20]):
        h = hashlib.sha256(json.dumps(replay, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.json" % (rep.prop, h))
        with open(path, "w") as f:
            json.dump(dict(replay, property=rep.prop, signature=sig, message=msg), f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (rep.prop, path))
        log("%s: %s" % (sig, msg[:2000]))
        for l in replay.get("trace", [])[:30]:
            log("    " + l)
    # Keep the evidence small.
    samples, size = [], 0
    step = max(1, len(rep.samples) // 24)
    for s in rep.samples[::step]:
        n = len(json.dumps(s))
        if size + n < 30000:
            samples.append(s)
            size += n
    cov = {"evaluations": rep.evaluations, "distinct_nontrivial": rep.distinct, "rule": " | ".join(rep.rules), "samples": samples}
    cov.update(rep.extra)
    ev = {"property": rep.prop, "tier": rep.tier, "seed": rep.seed, "level": "exploration", "coverage": cov,
          "assumptions": rep.assumptions, "wall_s": round(time.time() - rep.t0, 2), "violations": len(real)}
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        cov["samples"] = samples[:4]
        cov.pop("parts", None)
        text = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w") as f:
        f.write(text)
    for l in lines:
        print(l, flush=True)
    if lines:
        return 1
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (rep.prop, rep.evaluations, rep.distinct, time.time() - rep.t0))
    return 0


# Address space of one harness process; runaway allocation becomes an abort of that process.
MEM = 8 << 30
CRASH = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP)


def pbt(rep, binary, dirs, timeout=700, scale=None, env_extra=None):
    """Run one property of one harness binary in every built profile."""
    os.makedirs(WORK, exist_ok=True)
    if rep.tier == "thorough":
        timeout = 7200
    for profile, pdir in dirs.items():
        exe = os.path.join(pdir, binary)
        out = os.path.join(WORK, "%s-%s-%s.json" % (rep.prop, binary, profile))
        env = dict(ENV, **(env_extra or {}))
        if scale is not None:
            env["OMV_SCALE"] = str(scale)
        # The two profiles explore different cases.
        seed = rep.seed * 2 + profile.startswith("release")
        cmd = [exe, "run", rep.prop, str(seed), rep.tier, out]
        rc, so, se = sh(cmd, timeout=timeout, env=env, mem=MEM)
        if rc in CRASH:
            crash_hunt(rep, exe, binary, profile, cmd, env, rc, timeout)
            continue
        if rc != 0:
            raise CheckError("%s exited with %d: %s" % (" ".join(cmd), rc, se[-3000:]))
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        rep.add(d["evaluations"], d["distinct_nontrivial"], d["rule"], [dict(s, profile=profile) for s in d["samples"]],
                name="%s (%s)" % (binary, profile),
                detail={"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "classes": d["tags"], "subjects": len(d["subjects"])})
        seen = set()
        for fl in d["failures"]:
            if fl["subject"] in seen:
                continue
            seen.add(fl["subject"])
            rep.violation("%s:%s" % (binary, fl["subject"]), fl["message"],
                          {"kind": "pbt", "binary": binary, "profile": profile, "subject": fl["subject"], "case": fl["case"],
                           "trace": fl["trace"], "prop": rep.prop})


def crash_hunt(rep, exe, binary, profile, cmd, env, rc, timeout):
    """The process died of a signal: find the case that does it and shrink it by dropping operations."""
    d = os.path.join(WORK, "careful-%s-%s-%s" % (rep.prop, binary, profile))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc2, _, _ = sh(cmd, timeout=timeout, env=dict(env, OMV_CAREFUL=d), mem=MEM)
    found = []
    if rc2 in CRASH:
        for f in sorted(os.listdir(d)):
            subj, _, case = open(os.path.join(d, f), errors="replace").read().strip().partition("\n")
            if not case:
                continue  # another thread was just writing this one

            def dies(c):
                r, _, _ = sh([exe, "replay", rep.prop, subj] + c.split(), timeout=60, env=env, mem=MEM)
                return r in CRASH

            if not dies(case):
                continue
            parts = case.split()
            changed = True
            while changed:
                changed = False
                for i in range(len(parts) - 1, 0, -1):
                    q = parts[:i] + parts[i + 1:]
                    if dies(" ".join(q)):
                        parts, changed = q, True
            found.append((subj, " ".join(parts)))
    shutil.rmtree(d, ignore_errors=True)
    if not found:
        raise CheckError("%s died of signal %d and it could not be reproduced" % (" ".join(cmd), -rc))
    for subj, case in found:
        rep.violation("%s:%s:crash" % (binary, subj), "the process is killed by signal %d" % -rc,
                      {"kind": "pbt", "binary": binary, "profile": profile, "subject": subj, "case": case, "prop": rep.prop, "crash": True})
