"""Building and driving the simulator (shared by check.py, replay.py and selftest.py)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TECS_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
CORES = max(1, min(8, os.cpu_count() or 1))

BASE = ["-DTECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD=3"]
# name: (C++ standard, reduced permission table, definitions, description)
FLAVORS = {
    "cxx20": ("c++20", False, BASE + ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4", "-DTECS_SPINLOCK_RETRY_YIELD=2"],
              "C++20 (atomic wait), checked, small batches and spin counts"),
    "cxx17u": ("c++17", True, BASE + ["-DTECS_UNCHECKED_MODE", "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=3", "-DTECS_SPINLOCK_RETRY_YIELD=1"],
               "C++17 (spin and yield), unchecked mode"),
    "cxx17": ("c++17", True, BASE + ["-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=2", "-DTECS_SPINLOCK_RETRY_YIELD=3"],
              "C++17 (spin and yield), checked"),
    "cxx20u": ("c++20", True, BASE + ["-DTECS_UNCHECKED_MODE", "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=1", "-DTECS_SPINLOCK_RETRY_YIELD=1"],
               "C++20, unchecked mode, batch of one"),
    "trace20": ("c++20", True, BASE + ["-DTECS_ENABLE_PERFORMANCE_TRACING", "-DTECS_PERFORMANCE_TRACING_MAX_EVENTS=300",
                                       "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4", "-DTECS_SPINLOCK_RETRY_YIELD=2"],
                "C++20, checked, performance tracing compiled in, room for 300 events"),
    "trace17": ("c++17", True, BASE + ["-DTECS_ENABLE_PERFORMANCE_TRACING", "-DTECS_PERFORMANCE_TRACING_MAX_EVENTS=40",
                                       "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=4", "-DTECS_SPINLOCK_RETRY_YIELD=2"],
                "C++17, checked, performance tracing compiled in, room for 40 events (overflows)"),
    "wide17": ("c++17", True, BASE + ["-DSIM_WIDE=58", "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=2", "-DTECS_SPINLOCK_RETRY_YIELD=1"],
               "C++17, checked, 63 component types (the most that fit the one-word permission masks)"),
    "wide20": ("c++20", True, BASE + ["-DSIM_WIDE=59", "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=3", "-DTECS_SPINLOCK_RETRY_YIELD=1"],
               "C++20, checked, 64 component types (one more than fit the one-word permission masks)"),
    "header17": ("c++17", True, BASE + ["-DTECS_HEADER_ONLY", "-DTECS_ENTITY_ALLOCATION_BATCH_SIZE=2", "-DTECS_SPINLOCK_RETRY_YIELD=2"],
                 "C++17, checked, header-only (no detection of nested transactions, no transaction ids)"),
    "default": ("c++20", False, BASE, "C++20, the library's default configuration (but 3 simultaneous transactions per thread)"),
}


class CheckError(Exception):
    pass


def scratch():
    root = os.path.join(VERIF, ".build")
    os.makedirs(root, exist_ok=True)
    # left-overs of killed runs
    for d in os.listdir(root):
        p = os.path.join(root, d)
        try:
            pid = int(d.split("-")[1])
            if not os.path.exists("/proc/%d" % pid):
                shutil.rmtree(p, ignore_errors=True)
        except (IndexError, ValueError):
            pass
    return tempfile.mkdtemp(prefix="run-%d-" % os.getpid(), dir=root)


OPTIONAL = ("header17",)  # a flavor whose failure to compile is reported as a note, not as a broken check


def build(flavors, outdir, opt_locks="-O0", notes=None):
    """Builds the simulator of every given flavor around /repo's current tree; returns {flavor: path}."""
    if notes is not None and len(flavors) > 1 and any(f in OPTIONAL for f in flavors):
        res = build([f for f in flavors if f not in OPTIONAL], outdir, opt_locks)
        for f in flavors:
            if f in OPTIONAL:
                try:
                    res.update(build([f], outdir, opt_locks))
                except CheckError as e:
                    notes.append("flavor %s was left out, it does not build: %s" % (f, str(e)[-400:]))
        return res
    jobs, link = [], []
    rt = os.path.join(outdir, "rt.o")
    for fl in flavors:
        std, few, defs, _ = FLAVORS[fl]
        d = os.path.join(outdir, fl)
        os.makedirs(d, exist_ok=True)
        flags = ["clang++", "-std=" + std, "-w", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-include",
                 os.path.join(SIM, "pre.h"), "-I" + REPO + "/inc", "-I" + REPO + "/inc/nonstd", '-DSIM_FLAVOR="%s"' % fl] + defs
        if few:
            flags.append("-DSIM_FEW")
        objs = [rt]
        for p in range(4 if few else 8):
            o = os.path.join(d, "locks%d.o" % p)
            jobs.append((10 if not few else 40 if "wide" in fl else 8, flags + [opt_locks, "-DPART=%d" % p, "-c", os.path.join(SIM, "locks.cc"), "-o", o]))
            objs.append(o)
        hopt = "-O0" if few else "-O1"
        for f, cost in (("exec", 7), ("model", 9), ("prog", 5), ("trace", 5), ("main", 8)):
            o = os.path.join(d, f + ".o")
            jobs.append((cost, flags + [hopt, "-c", os.path.join(SIM, f + ".cc"), "-o", o]))
            objs.append(o)
        o = os.path.join(d, "tecs.o")
        if "-DTECS_HEADER_ONLY" not in defs:
            jobs.append((1, flags + ["-O1", "-c", REPO + "/src/Tecs.cc", "-o", o]))
            objs.append(o)
        link.append((fl, ["clang++", "-no-pie", "-o", os.path.join(d, "sim")] + objs + ["-lpthread"]))
    jobs.append((2, ["clang++", "-std=c++20", "-O2", "-g1", "-c", os.path.join(SIM, "rt.cc"), "-o", rt]))
    jobs.sort(key=lambda j: -j[0])
    run_jobs([j[1] for j in jobs])
    run_jobs([l[1] for l in link])
    return {fl: os.path.join(outdir, fl, "sim") for fl, _ in link}


def run_jobs(cmds):
    running, queue, failed = [], list(cmds), None
    while queue or running:
        while queue and len(running) < CORES and not failed:
            c = queue.pop(0)
            running.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
        if failed and not running:
            break
        p, c = running.pop(0)
        try:
            out, _ = p.communicate(timeout=0.05)
        except subprocess.TimeoutExpired:
            running.append((p, c))
            continue
        if p.returncode and not failed:
            failed = "build failed: %s\n%s" % (" ".join(c), out.decode(errors="replace")[-3000:])
    if failed:
        raise CheckError(failed)


def sim(args, timeout):
    """Runs the simulator; returns (exit code, [json lines], stderr)."""
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return -99, parse(out), err.decode(errors="replace")
    return p.returncode, parse(out), err.decode(errors="replace")


def parse(out):
    r = []
    for line in out.decode(errors="replace").splitlines():
        if line.startswith("{"):
            try:
                r.append(json.loads(line))
            except ValueError:
                pass
    return r
