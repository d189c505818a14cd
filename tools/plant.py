#!/usr/bin/env python3
"""plant.py <spec.py> [id...]: write /verif/seeded/<id>/ from a spec of textual edits and a demonstration,
after confirming in a scratch copy of /repo that the change compiles, passes the existing tests, and is
exposed by the demonstration (which must pass on the unchanged tree).

plant.py confirm [id...]: confirm existing /verif/seeded entries again.
plant.py quiet [id...]: apply behaviour-preserving edits (tools/refactorings.py) to /repo and run the checks they concern.
plant.py caught [id...]: run each one's check (in /repo, applied and undone) and report."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
SCR = "/tmp/omv-scratch"
REPO = SCR + "/repo"

RUN = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves; otherwise: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ordinal-map = { path = "$repo/ordinal-map", features = ["either"] }
either = "1"
T
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
cd "$work"
'''
MODES = {
    "bare": "timeout 250 cargo run --offline --quiet\n",
    "debug": "timeout 250 cargo run --offline --quiet\n",
    "release": "timeout 250 cargo run --offline --quiet --release\n",
    "both": "timeout 140 cargo run --offline --quiet && timeout 140 cargo run --offline --quiet --release\n",
    "w32": 'export MIRIFLAGS=-Zmiri-disable-isolation\ntimeout 285 cargo +nightly miri run --offline --quiet --target i686-unknown-linux-gnu\n',
    "miri": 'export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..FLAGS"\ntimeout 280 cargo +nightly miri run --offline --quiet\n',
}


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    return p.returncode, p.stdout


def scratch():
    os.makedirs(SCR, exist_ok=True)
    if not os.path.isdir(REPO):
        sh("git clone -q /repo %s" % REPO)
    sh("git fetch -q && git checkout -q -f --detach origin/HEAD && git reset -q --hard origin/HEAD && git clean -fdq -e target", cwd=REPO)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_tests"):
        if k in b:
            return set(b[k])
    raise SystemExit("baseline keys: %s" % list(b))


def tests():
    rc, out = sh("CARGO_TARGET_DIR=%s/target cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8" % SCR, cwd=REPO)
    ok = len(re.findall(r"^test .* \.\.\. ok$", out, re.M))
    bad = re.findall(r"^test (.*) \.\.\. FAILED$", out, re.M)
    if "error: could not compile" in out or "error[" in out:
        return False, out[-1500:]
    return rc == 0 and not bad, "%d ok, failed: %s" % (ok, bad)


def demo(d):
    t = time.time()
    rc, out = sh("bash %s/demo.sh" % d, cwd=REPO)
    return rc, out, time.time() - t


def confirm(i):
    d = os.path.join(SEEDED, i)
    # As in the end: the folder lies elsewhere, without the patch.
    el = SCR + "/demo-" + i
    shutil.rmtree(el, ignore_errors=True)
    shutil.copytree(d, el)
    os.unlink(el + "/patch.diff")
    scratch()
    rc, out, t = demo(el)
    if rc != 0:
        return "demo fails on the unchanged tree: " + out[-1500:]
    rc, out = sh("git apply %s/patch.diff" % d, cwd=REPO)
    if rc != 0:
        return "patch does not apply: " + out
    good, text = tests()
    if not good:
        return "tests: " + text
    rc, out, t = demo(el)
    shutil.rmtree(el, ignore_errors=True)
    if rc == 0:
        return "demo does not expose it"
    tail = [l for l in out.strip().splitlines() if "panicked" in l or "error" in l or "Undefined" in l][:2]
    print("%s confirmed (%.0fs) %s | %s" % (i, t, text, " / ".join(tail)[:160]), flush=True)
    return None


def write(s):
    d = os.path.join(SEEDED, s["id"])
    scratch()
    for f, old, new in s["edits"]:
        p = os.path.join(REPO, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            return "%s: %d matches of %r" % (f, n, old[:60])
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh("git diff", cwd=REPO)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if "main" in s:
        open(d + "/main.rs", "w").write(s["main"].strip("\n") + "\n")
        mode = s.get("mode", "debug")
        run = RUN.replace(', features = ["either"]', "").replace('either = "1"\n', "") if mode == "bare" else RUN.replace('edition = "2021"', 'edition = "%s"' % s.get("edition", "2021"))
        open(d + "/demo.sh", "w").write(run + MODES[mode].replace("FLAGS", str(s.get("seeds", 16))))
    for f, text in s.get("files", {}).items():
        open(os.path.join(d, f), "w").write(text.strip("\n") + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return None


def caught(ids):
    for i in ids:
        d = os.path.join(SEEDED, i)
        p = json.load(open(d + "/meta.json"))["property"]
        rc, out = sh("git -C /repo apply %s/patch.diff" % d)
        try:
            if rc:
                print(i, "does not apply", out)
                continue
            t = time.time()
            rc, out = sh("./check.py %s" % p, cwd=V, timeout=1500)
            v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % p)]
            print("%-28s %s %s (exit %d, %.0fs) %s" % (i, p, "CAUGHT" if rc == 1 and v else "MISSED", rc, time.time() - t,
                                                       "" if v else out[-300:].replace("\n", " | ")), flush=True)
        finally:
            sh("git -C /repo checkout -- .")


def quiet(ids):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import refactorings
    for i, (checks, edits) in refactorings.R.items():
        if ids and i not in ids:
            continue
        scratch()
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(i, "%s: %d matches of %r" % (f, t.count(old), old[:60]))
            open(p, "w").write(t.replace(old, new))
        sh("git diff > %s/quiet.diff" % SCR, cwd=REPO)
        good, text = tests()
        print("%s: tests %s" % (i, text if good else "FAIL " + text), flush=True)
        if not good:
            continue
        rc, out = sh("git -C /repo apply %s/quiet.diff" % SCR)
        try:
            if rc:
                print(i, "does not apply", out)
                continue
            for c in [c for c in checks.split() if c not in os.environ.get("SKIP", "").split()]:
                t = time.time()
                rc, out = sh("./check.py %s" % c, cwd=V, timeout=1500)
                print("  %-20s %s %s (%.0fs) %s" % (i, c, "quiet" if rc == 0 and "VIOLATION" not in out else "ALARM rc %d" % rc, time.time() - t,
                                                "" if rc == 0 else out[-600:].replace("\n", " | ")), flush=True)
        finally:
            sh("git -C /repo checkout -- .")


def main():
    a = sys.argv[1:]
    if a[0] == "quiet":
        return quiet(a[1:])
    if a[0] in ("confirm", "caught"):
        ids = a[1:] or sorted(os.listdir(SEEDED))
        if a[0] == "caught":
            return caught(ids)
        for i in ids:
            r = confirm(i)
            if r:
                print(i, "REJECTED", r)
        return
    spec = importlib.util.spec_from_file_location("spec", a[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        if a[1:] and s["id"] not in a[1:]:
            continue
        r = write(s) or confirm(s["id"])
        if r:
            print(s["id"], "REJECTED", r, flush=True)
            rej = SCR + "/rejected-" + s["id"]
            shutil.rmtree(rej, ignore_errors=True)
            if os.path.isdir(os.path.join(SEEDED, s["id"])):
                shutil.move(os.path.join(SEEDED, s["id"]), rej)


main()
