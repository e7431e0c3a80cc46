#!/usr/bin/env python3
"""Decides one property of Jungle by running its workloads under monitors and sanitizers.

    check.py PROPERTY            tier from $VERIF_TIER (quick|thorough), seed from $VERIF_SEED
    check.py --replay FILE       runs again what a VIOLATION line pointed to
    check.py --setup             builds everything once

Exit 0: held on everything explored (known findings are printed). Exit 1: violated, with a
VIOLATION line. Exit 2: no answer (build failed, a workload observed too little)."""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild  # noqa: E402
from props import CHECKS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVID = HERE + "/evidence"
NPROC = 8
GRACE = 30              # seconds the other workloads get once one saw a violation
PID, KNOWN, FOUND, WHAT = "", set(), [], {}


def env_for(variant, leaks=True):
    e = dict(os.environ)
    common = "abort_on_error=0:halt_on_error=1:exitcode=66:symbolize=1"
    e["ASAN_OPTIONS"] = common + f":detect_leaks={int(leaks)}:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:handle_abort=0:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    e["LSAN_OPTIONS"] = "exitcode=66"
    e["SIMPLELOGGER_HANDLE_SEGV"] = "OFF"
    e["MALLOC_PERTURB_"] = "165"
    return e


class Job:
    def __init__(self, variant, harness, args, idx):
        self.variant, self.harness, self.args, self.idx = variant, harness, args, idx
        self.seed = SEED * 1000 + idx
        self.viols, self.counts, self.samples, self.states = [], {}, [], set()
        self.error = None
        self.wall = 0.0

    def cmd(self, exe, scratch):
        return [exe, f"seed={self.seed}", f"scratch={scratch}"] + self.args.split()

    def describe(self):
        return f"{self.harness} ({self.variant}) seed={self.seed} {self.args}".strip()


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?|\(\S+?)(?::\d+)*(?:\s|$|\))")


def frames(text):
    """Functions of the project on the first stack of a report, outermost sanitizer frames left out."""
    out = []
    for line in text.splitlines():
        m = re.match(r"\s+#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+)", line)
        if m and (vbuild.REPO + "/" in m.group(2)):
            f = re.sub(r"\(.*", "", m.group(1))
            out.append(f)
    return out


def classify(job, rc, out, err):
    """A violation key and message for a run that ended badly, or None."""
    text = out + "\n" + err
    m = re.search(r"Assertion `(.*?)' failed", err)
    if m:
        f = re.search(r": ([^:]*?)\(?.*?\)?: Assertion", err)
        where = re.search(r"(\w+\.(?:cc|h)):\d+: ", err)
        return f"assert:{where.group(1) if where else '?'}:{m.group(1)[:60]}", "assertion failed: " + m.group(0)
    m = re.search(r"ERROR: (Address|Leak)Sanitizer: ([\w-]+)", text)
    if m:
        kind = "leak" if m.group(1) == "Leak" or m.group(2) == "detected" else m.group(2)
        fr = frames(text[m.start():])
        return f"san:{kind}:{fr[0] if fr else '?'}", f"{m.group(0)} in {' < '.join(fr[:4])}"
    m = re.search(r"(\S+): runtime error: (.*)", text)
    if m:
        fr = frames(text[m.start():])
        return f"san:ub:{fr[0] if fr else os.path.basename(m.group(1)).split(':')[0]}", f"undefined behaviour: {m.group(2)} at {m.group(1)}"
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", text)
    if m:
        body = text[m.start():]
        parts = re.split(r"\n\s*Previous |\n\n", body)
        tops = []
        for p in parts[:2]:
            fr = frames(p)
            tops.append(fr[0] if fr else "?")
        return f"san:{m.group(1).strip().replace(' ', '-')}:{'+'.join(sorted(tops))}", f"{m.group(0).strip()} {' < '.join(frames(body)[:4])}"
    if "hard rss limit exhausted" in text or "out-of-memory" in text or "bad_alloc" in text:
        return f"memory:{job.harness}", "memory use exploded"
    m = re.search(r"terminate called after throwing.*|libc\+\+abi: .*", text)
    if m:
        return f"terminate:{job.harness}", m.group(0)[:200]
    if rc < 0:
        return f"crash:{job.harness}:{signal.Signals(-rc).name}", f"killed by {signal.Signals(-rc).name}"
    return f"exit:{job.harness}", f"ended with status {rc} before its workload was through: {err[-300:]}"


def run_once(job, limit, leaks=True):
    exe = f"{vbuild.BUILD}/{job.variant}/{job.harness}"
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        job.viols, job.counts, job.samples, job.states, job.error = [], {}, [], set(), None
        t0 = time.time()
        fo, fe = open(scratch + "/.out", "wb+"), open(scratch + "/.err", "wb+")
        p = subprocess.Popen(job.cmd(exe, scratch + "/w"), stdout=fo, stderr=fe, env=env_for(job.variant, leaks),
                             cwd=scratch, start_new_session=True)
        timed_out = cut = False
        while True:
            try:
                p.wait(1)
                break
            except subprocess.TimeoutExpired:
                pass
            if not FOUND and any((PID, k) not in KNOWN for k in re.findall(r"^VIOL (\S+)", open(scratch + "/.out").read(), re.M)):
                FOUND.append(time.time())
            if time.time() - t0 > limit:
                timed_out = True
                break
            if FOUND and time.time() - FOUND[0] > GRACE:
                cut = True      # violated already: the rest would not change the answer
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        job.wall = time.time() - t0
        fo.seek(0), fe.seek(0)
        out, err = fo.read().decode("utf8", "replace"), fe.read()[-400000:].decode("utf8", "replace")
        fo.close(), fe.close()
        for line in out.splitlines():
            if line.startswith("VIOL "):
                k, _, m = line[5:].partition("\t")
                job.viols.append((k, m))
            elif line.startswith("COUNT "):
                _, k, v = line.split()
                job.counts[k] = int(v)
            elif line.startswith("SAMPLE "):
                job.samples.append(line[7:])
        done = "DONE" in out.splitlines()
        if cut:
            return "done"
        if not leaks or "LeakSanitizer has encountered a fatal error" not in out + err:
            if timed_out:
                return "timeout"
            if p.returncode not in (0, 1) or not done:
                k, m = classify(job, p.returncode, out, err)
                job.viols.append((k, m + f" [{job.describe()}]"))
                job.tail = (out[-2000:] + "\n" + err[-6000:])
        elif done and not timed_out:
            return run_once(job, limit, False)
        try:
            with open(scratch + "/w/states.bin", "rb") as f:
                b = f.read()
            job.states = {b[i:i + 8] for i in range(0, len(b), 8)}
        except OSError:
            pass
        return "timeout" if timed_out else "done"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_job(job, limit):
    r = run_once(job, limit)
    if r == "timeout" and not job.viols and not FOUND:
        r = run_once(job, limit)        # a loaded machine is no violation: once more
        if r == "timeout" and not job.viols:
            job.viols.append((f"hang:{job.harness}", f"did not finish within {limit:.0f} s, twice [{job.describe()}]"))
    if not FOUND and any((PID, k) not in KNOWN for k, _ in job.viols):
        FOUND.append(time.time())
    return job


def known():
    out = set()
    try:
        for line in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) ", line)
            if m:
                out.add((m.group(1), m.group(2)))
                WHAT[m.group(1), m.group(2)] = line[m.end():].strip()
    except OSError:
        pass
    return out


def build_all(pairs):
    byv = {}
    for v, h in pairs:
        byv.setdefault(v, []).append(h)
    for v, hs in byv.items():
        for h in dict.fromkeys(hs):
            vbuild.build(v, [h])


def main(pid):
    global PID
    PID = pid
    KNOWN.update(known())
    spec = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID + "/replay", exist_ok=True)
    build_all([(v, h) for v, h, *_ in spec["jobs"]])
    tb = time.time() - t0
    jobs = []
    for v, h, n, quick, deep in spec["jobs"]:
        args, cnt = (quick, n) if TIER != "thorough" else (deep, n * spec.get("deep", 4))
        for i in range(cnt):
            jobs.append(Job(v, h, args, len(jobs) + 1))
    limit = spec.get("limit", 240 if TIER != "thorough" else 2400)
    if TIER != "thorough":
        limit = min(limit, max(60, (840 - tb) / 2 - 60))
    with concurrent.futures.ThreadPoolExecutor(spec.get("parallel", NPROC)) as ex:
        list(ex.map(lambda j: run_job(j, limit), jobs))

    counts, states, samples = {}, set(), []
    for j in jobs:
        for k, v in j.counts.items():
            if k.startswith("blocks_") or k.startswith("max_"):
                counts[k] = max(counts.get(k, 0), v)
            else:
                counts[k] = counts.get(k, 0) + v
        states |= {(j.harness, s) for s in j.states}
        for s in j.samples:
            if len(samples) < 6:
                samples.append(f"{j.harness} seed {j.seed}: {s}")
    viols = {}
    for j in jobs:
        for k, m in j.viols:
            viols.setdefault(k, (m, j))
    fresh = {k: v for k, v in viols.items() if (pid, k) not in KNOWN}
    for k, (m, j) in viols.items():
        if k not in fresh:
            print(f"KNOWN-FINDING: property={pid} {WHAT.get((pid, k), m)}")
    short = [f"{k} {counts.get(k, 0)} < {v}" for k, v in spec.get("need", {}).items() if counts.get(k, 0) < v]

    ev = {
        "property": pid, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": spec["level"],
        "coverage": {
            "evaluations": sum(counts.get(k, 0) for k in spec["eval"]),
            "distinct_nontrivial": len(states),
            "rule": spec["rule"],
            "samples": samples or ["none"],
            "observed": {k: v for k, v in sorted(counts.items()) if k not in spec["eval"]},
            "workloads": [f"{j.describe()}: {j.wall:.1f} s" for j in jobs],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1), "violations": len(fresh),
        "known_findings": sorted(k for k in viols if k not in fresh),
    }
    with open(f"{EVID}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if fresh:
        first = None
        for k, (m, j) in list(fresh.items())[:8]:
            print(f"{pid}: {k}: {m}")
            path = f"evidence/replay/{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', k)[:80]}.json"
            with open(f"{HERE}/{path}", "w") as f:
                json.dump({"property": pid, "key": k, "message": m, "variant": j.variant, "harness": j.harness,
                           "seed": j.seed, "args": j.args, "limit": limit, "tail": getattr(j, "tail", ""),
                           "run_again": f"python3 check.py --replay {path}"}, f, indent=1)
            first = first or path
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    if short:
        print(f"{pid}: no answer, observed too little: " + ", ".join(short))
        return 2
    print(f"{pid}: held on {ev['coverage']['evaluations']} cases, {len(states)} distinct, {ev['wall_s']} s")
    return 0


def replay(path):
    d = json.load(open(path))
    build_all([(d["variant"], d["harness"])])
    j = Job(d["variant"], d["harness"], d["args"], 0)
    j.seed = d["seed"]
    run_job(j, d.get("limit", 600))
    for k, m in j.viols:
        print(f"{d['property']}: {k}: {m}")
    print(getattr(j, "tail", ""))
    return 1 if j.viols else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            build_all([(v, h) for s in CHECKS.values() for v, h, *_ in s["jobs"]])
            sys.exit(0)
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(main(sys.argv[1]))
    except RuntimeError as e:
        print(f"error: {e}")
        sys.exit(2)
