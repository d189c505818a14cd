"""Builds for a target whose `usize` has 32 bits (i686 Linux), run natively.

The toolchain has no standard library for it, only its source; the sandbox has the 32-bit C library but no start
files for it. So the standard library is built here, and programs are linked with a start file of our own."""
import os
import shutil
import subprocess

import core
from core import CheckError, sh

TRIPLE = "i686-unknown-linux-gnu"
DIR = os.path.join(core.TARGET, "w32")
LIB32 = "/usr/lib32"
START = """
.text
.globl _start
.type _start,@function
_start:
  xorl %ebp,%ebp
  popl %esi
  movl %esp,%ecx
  andl $0xfffffff0,%esp
  pushl %eax
  pushl %esp
  pushl %edx
  pushl $0
  pushl $0
  pushl %ecx
  pushl %esi
  pushl $main
  call __libc_start_main
  hlt
.section .note.GNU-stack,"",@progbits
"""
SHIM = """[package]
name = "shim"
version = "0.0.0"
edition = "2021"
[lib]
path = "lib.rs"
[workspace]
[profile.release]
opt-level = 2
debug = 0
codegen-units = 16
"""


def flags():
    f = ["--sysroot", os.path.join(DIR, "sysroot"), "-Clinker=gcc", "-Crelocation-model=static", "-Clink-arg=-nostartfiles",
         "-Clink-arg=" + os.path.join(DIR, "start.o"), "-Clink-arg=" + os.path.join(LIB32, "ld-linux.so.2"), "-L" + os.path.join(DIR, "lib")]
    return f


def env():
    return dict(core.ENV, CARGO_TARGET_DIR=DIR, RUSTFLAGS="-Awarnings " + " ".join(flags()))


def sysroot():
    """Builds the standard library unless that is done already."""
    rc, version, err = sh(["rustc", "-vV"])
    stamp = os.path.join(DIR, "sysroot", "stamp")
    try:
        if open(stamp).read() == version:
            return
    except OSError:
        pass
    shutil.rmtree(os.path.join(DIR, "sysroot"), ignore_errors=True)
    shim, lib, out = os.path.join(DIR, "shim"), os.path.join(DIR, "lib"), os.path.join(DIR, "sysroot", "lib", "rustlib", TRIPLE, "lib")
    for d in (shim, lib, out):
        os.makedirs(d, exist_ok=True)
    for name, text in (("Cargo.toml", SHIM), ("lib.rs", "")):
        with open(os.path.join(shim, name), "w") as f:
            f.write(text)
    src = os.path.join(sh(["rustc", "--print", "sysroot"])[1].strip(), "lib", "rustlib", "src", "rust", "library")
    e = dict(core.ENV, CARGO_TARGET_DIR=os.path.join(shim, "target"), RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Awarnings")
    rc, so, se = sh(["cargo", "build", "--offline", "--release", "-Zbuild-std=std,panic_unwind", "--target", TRIPLE, "--message-format=json",
                     "--config", 'source.crates-io.replace-with="vendored"', "--config", 'source.vendored.directory="%s/vendor"' % src],
                    timeout=700, cwd=shim, env=e)
    if rc != 0:
        raise CheckError("the 32-bit standard library does not build: " + se[-1500:])
    for d, _, files in os.walk(os.path.join(shim, "target", TRIPLE)):
        for f in files:
            if f.endswith((".rlib", ".rmeta")) and "shim" not in f:
                shutil.copy(os.path.join(d, f), out)
    shutil.rmtree(os.path.join(shim, "target"))
    for l in ("c.so.6", "m.so.6", "gcc_s.so.1", "dl.so.2", "pthread.so.0", "rt.so.1", "util.so.1"):
        p = os.path.join(lib, "lib%s.so" % l.split(".")[0])
        if not os.path.lexists(p):
            os.symlink(os.path.join(LIB32, "lib" + l), p)
    with open(os.path.join(DIR, "start.s"), "w") as f:
        f.write(START)
    rc, so, se = sh(["gcc", "-m32", "-c", os.path.join(DIR, "start.s"), "-o", os.path.join(DIR, "start.o")])
    if rc != 0:
        raise CheckError("the start file does not assemble: " + se[-500:])
    # A program that uses nothing of the crate has to run, or nothing here means anything.
    hello = os.path.join(shim, "hello")
    with open(hello + ".rs", "w") as f:
        f.write("fn main() { assert!(std::panic::catch_unwind(|| panic!()).is_err()); print!(\"{}\", std::thread::spawn(|| usize::BITS).join().unwrap()) }\n")
    rc, so, se = sh(["rustc", "--target", TRIPLE] + flags() + ["-o", hello, hello + ".rs"])
    rc, so, se = sh([hello]) if rc == 0 else (rc, so, se)
    if rc != 0 or so != "32":
        raise CheckError("32-bit programs do not run here: " + se[-800:])
    with open(stamp, "w") as f:
        f.write(version)
