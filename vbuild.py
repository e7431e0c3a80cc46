#!/usr/bin/env python3
"""Builds Jungle from /repo's working tree, the ForestDB stand-in and a harness.

    vbuild.py VARIANT TARGET [TARGET...]       prints nothing on success

VARIANT is one of VARIANTS below. TARGET is a harness in /verif/harness (NAME.cc), or
"test:NAME" for one of the project's own tests. Out of tree: $VERIF_BUILD (default
/verif/.build). Incremental through ninja (depfiles), so every call follows the working
tree of $VERIF_REPO (default /repo)."""
import fcntl
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", HERE + "/.build")
VARIANTS = {
    # asserts of the project stay on in the sanitizer builds: they are monitors too
    "asan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize-recover=all -fno-sanitize=alignment,nonnull-attribute"),
    "tsan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"),
    "plain": ("clang++", "-O1 -g1 -DNDEBUG"),
}
# a callback at every basic block of the project (harness/noise.cc): schedule noise, block coverage
COV = "-fsanitize-coverage=trace-pc-guard"
GUARD = "-DJUNGLE_VERIF_HOOKS=1"
WRAPS = ["open", "close", "read", "write", "pread", "pwrite", "fsync", "fdatasync", "ftruncate",
         "rename", "remove", "unlink", "nanosleep"]


def srcs_of(target):
    """A harness of one component names the sources it needs in its first line: // SRCS: a.cc b.cc"""
    first = open(f"{HERE}/harness/{target}.cc").readline()
    names = first.split("SRCS:")[1].split() if "SRCS:" in first else []
    return names if all(os.path.exists(f"{REPO}/src/{n}") for n in names) else []


def gen(variant, targets, full=False):
    cxx, flags = VARIANTS[variant]
    b = f"{BUILD}/{variant}"
    os.makedirs(b, exist_ok=True)
    common = (f"-std=c++17 -pthread -w {flags} {GUARD} -DLOGGER_H={REPO}/src/logger.h -DTESTSUITE_NO_COLOR=1 "
              f"-I{HERE}/fdbshim -I{REPO}/src -I{REPO}/include -I{REPO}/tools -I{REPO}/tests -I{HERE}/harness")
    out = [f"cxx = {cxx}", f"cflags = {common}",
           "rule cc", "  command = $cxx $cflags $extra -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d",
           "  deps = gcc", "  description = CC $in",
           "rule ar", "  command = rm -f $out && ar rcs $out $in",
           "rule ld", "  command = $cxx $cflags $in $lflags -ldl -lz -o $out"]
    objs = []
    for f in sorted(os.listdir(f"{REPO}/src")):
        if f.endswith(".cc"):
            o = f"{b}/src/{f}.o"
            objs.append(o)
            out.append(f"build {o}: cc {REPO}/src/{f}")
        if f.endswith(".cc"):
            out.append(f"  extra = {COV}")
    out.append(f"build {b}/fdb.o: cc {HERE}/fdbshim/forestdb.cc")
    out.append(f"build {b}/libjungle.a: ar {' '.join(objs)}")
    wrap = " ".join(f"-Wl,--wrap={w}" for w in WRAPS)
    done = []
    for t in targets:
        if t.startswith("test:"):
            n = t[5:]
            src = [f"{d}/{n}.cc" for d in (f"{REPO}/tests/jungle", f"{REPO}/tests/unit", f"{REPO}/tests/stress")
                   if os.path.exists(f"{d}/{n}.cc")][0]
            out.append(f"build {b}/t_{n}.o: cc {src}")
            out.append(f"build {b}/t_{n}: ld {b}/t_{n}.o {b}/noise.o {b}/libjungle.a {b}/fdb.o")
            done.append(f"{b}/t_{n}")
        else:
            subset = [] if full else srcs_of(t)
            libs = " ".join(f"{b}/src/{x}.o" for x in subset) if subset else f"{b}/libjungle.a {b}/fdb.o"
            out.append(f"build {b}/{t}.o: cc {HERE}/harness/{t}.cc")
            out.append(f"  extra = {COV}")
            out.append(f"build {b}/{t}: ld {b}/{t}.o {b}/fsx.o {b}/noise.o {libs}")
            out.append(f"  lflags = {wrap}")
            done.append(f"{b}/{t}")
    if True:
        out.append(f"build {b}/fsx.o: cc {HERE}/harness/fsx.cc")
        out.append(f"build {b}/noise.o: cc {HERE}/harness/noise.cc")
    nf = f"{b}/{'_'.join(x.replace(':', '-') for x in targets)[:100]}.ninja"
    text = "\n".join(out) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    return nf, done


def build(variant, targets):
    os.makedirs(f"{BUILD}/{variant}", exist_ok=True)
    with open(f"{BUILD}/{variant}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for full in (False, True):   # the subset may miss a helper that moved: then link everything
            nf, done = gen(variant, targets, full)
            r = subprocess.run(["ninja", "-f", nf, "-C", f"{BUILD}/{variant}"] + done, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return done
            if "undefined reference" not in r.stdout and "undefined symbol" not in r.stdout:
                break
    sys.stderr.write(r.stdout[-6000:])
    raise RuntimeError(f"build of {targets} ({variant}) failed")


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:])
