#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Builds the simulator around /repo's current tree, runs seeded simulations of the property's profile, gates, minimises and
reports violations, and writes evidence/<property>.json.  Exit 0: held on everything explored.  1: VIOLATION line.  2: error.
"""
import array
import fnmatch
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
from simlib import CORES, FLAVORS, VERIF, CheckError

READS = ["EXISTS", "HAS", "GET", "GETM", "PREV", "LIST", "VIEW", "GHAS", "GGET", "GGETM", "GPREV", "SET", "GSET", "UNSET", "DESTROY", "GUNSET", "NEW"]
WHYS = ["NONREPEAT", "ATOMIC", "DIRTY", "STALE", "FUTURE", "WRONG", "TORN", "OWN", "OWNLOST", "PREVLEAK", "DUPLICATE", "NULLS"]
OBS = [r + ":" + w for r in READS for w in WHYS]          # something was read that no legal execution shows
MEM = ["HEAP", "CRASH", "TERMINATE", "EXCEPTION"]         # memory error, signal, std::terminate, stray exception
EXC = [o + ":EXC" for o in ["EXISTS", "HAS", "GET", "GETM", "PREV", "SET", "UNSET", "DESTROY", "NEW", "GHAS", "GGET", "GGETM", "GPREV", "GSET",
                            "GUNSET", "DYN", "START"]]     # an operation failed although it had to succeed
LIV = ["DEADLOCK", "LIVELOCK", "TIMEOUT"]                 # no progress although every transaction ends
LISTS = ["LIST:*", "VIEW:*"]
EVT = ["EVENT:*"]

# What counts as a violation of the property when it shows up in a run of the property's own profile.
TARGETS = {
    "C01": OBS + MEM + EXC + ["COMMIT:INTERVAL"],
    "C02": OBS + MEM + EXC + ["COMMIT:INTERVAL"] + EVT,
    "C03": OBS + MEM + EXC + ["EXCL:*", "COMMIT:INTERVAL", "NEW:*", "DESTROY:*"],
    "C04": OBS + MEM + EXC + LISTS,
    "C05": OBS + MEM + EXC + LIV + ["COMMIT:*", "EXCL:*", "EXCEPTION"],
    "C06": ["RACE"] + MEM,
    "C07": LIV + MEM,
    "C08": LIV + MEM,
    "C09": LIV + MEM,
    "C10": OBS + MEM + EXC + ["NEW:*", "DESTROY:*", "WORLD:*", "HEAPLIMIT"],
    "C11": OBS + MEM + EXC + LISTS,
    "C12": OBS + MEM + EXC + LISTS + ["DESTROY:*"],
    "C13": EVT + MEM + ["RETAIN:*"],
    "C14": EVT + MEM,
    "C15": OBS + MEM + EXC + LIV + LISTS + EVT + ["NEST:*", "DESTROY:*", "COMMIT:*", "EXCL:*", "NEW:*", "START:*"],
    "C16": OBS + MEM + EXC + LIV + LISTS + EVT + ["COMMIT:*", "EXCL:*", "NEW:*", "DESTROY:*", "NEST:*", "START:*", "RETAIN:*", "WORLD:LEAK"],
    "C17": OBS + MEM + EXC + LIV + ["NEST:*", "START:*", "EXCL:*", "COMMIT:*"],
    "C18": OBS + MEM + EXC + LISTS + ["DYN:*", "COMMIT:*", "EXCL:*", "TXID:*"],
    "C19": OBS + MEM + EXC + EVT + ["EXCL:*", "COMMIT:INTERVAL", "RETAIN:*"],
    "C20": OBS + MEM + EXC + LIV + EVT + ["TRACE:*", "EXCL:*", "COMMIT:*"],
    "C21": MEM + ["RETAIN:*", "WORLD:LEAK", "HEAPLIMIT", "*:TORN", "*:WRONG", "GETM:*", "GGETM:*"],
    "C22": ["TXID:*"] + MEM,
    "C23": OBS + MEM + EXC + LIV + EVT + ["NEW:*", "WORLD:*", "NEST:*", "EXCL:*", "COMMIT:*", "RETAIN:*", "DESTROY:*", "TXID:*"],
}
HARNESS = ["HARNESS", "MODEL:*"]

# (flavor, profile, seeds) of the quick check; the thorough check multiplies and adds the other flavors.
MAIN = "cxx20"
QUICK = {p: [(MAIN, p, 96000), ("cxx17u", p, 24000)] for p in TARGETS}
QUICK["C06"] = [(MAIN, "C06", 60000), ("cxx17u", "C06", 12000), ("trace20", "C06", 8000)]
QUICK["C10"] = [(MAIN, "C10", 36000), ("cxx17u", "C10", 16000)]
QUICK["C15"] = [(MAIN, "C15", 64000), ("cxx17", "C15", 24000)]
QUICK["C18"] = [(MAIN, "C18", 64000), ("cxx17u", "C18", 24000), ("wide17", "C18", 6000), ("wide20", "C18", 6000)]
QUICK["C20"] = [("trace20", "C20", 36000), ("trace17", "C20", 40000)]
QUICK["C22"] = [(MAIN, "C22", 40000), ("cxx17u", "C22", 16000)]
QUICK["C23"] = [(MAIN, "C23", 32000), ("cxx17u", "C23", 16000), ("header17", "C23", 8000)]
THOROUGH_FLAVORS = ["cxx20", "cxx17u", "cxx17", "cxx20u", "trace20", "trace17", "header17", "default"]
WIDE = ["C04", "C11", "C16", "C18", "C19", "C21"]  # the thorough checks of these also run with very many component types
STRIDE_BASE = 1000000007


def targeted(prop, cls):
    return any(fnmatch.fnmatchcase(cls, t) for t in TARGETS[prop])


def harness(cls):
    return any(fnmatch.fnmatchcase(cls, t) for t in HARNESS)


def load_known():
    """known_findings.txt: 'finding: property=<id> class=<pattern> match=<regular expression on the minimised message> -- text'"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.+?) -- (.*)", line)
            if m:
                out.append(m.groups())
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.races = "1" if prop == "C06" else "0"
        self.first = 1 + (seed % 1000000) * STRIDE_BASE
        self.plan = [list(x) for x in QUICK[prop]]
        self.seconds = 100.0  # cap per flavor
        if tier == "thorough":
            self.seconds = float(os.environ.get("TECS_SIM_SECONDS", "100"))
            have = [p[0] for p in self.plan]
            self.plan += [[f, prop, 0] for f in THOROUGH_FLAVORS if f not in have and not (prop == "C15" and f.endswith("u"))
                          and not (prop in ("C17", "C22") and f == "header17")]  # no transaction limit and no ids there
            self.plan.append(["cxx20", "mix", 0])
            if prop in WIDE:
                self.plan += [[f, prop, 0] for f in ("wide17", "wide20") if f not in have]
            for p in self.plan:
                p[2] = 10 ** 9
            if prop == "C15":
                self.plan = [p for p in self.plan if not p[0].endswith("u")]
        self.stats, self.viol, self.orders, self.samples = [], [], {}, []
        self.notes = []

    # -- exploration ----------------------------------------------------------------------------------------------
    def explore(self, flavor, profile, count):
        workers = CORES
        per = max(1, count // workers)
        procs = []
        for w in range(workers):
            tag = "%s-%s-%d" % (flavor, profile, w)
            orders, prog = os.path.join(self.dir, tag + ".orders"), os.path.join(self.dir, tag + ".progress")
            args = [self.bin[flavor], "run", "--profile", profile, "--start", str(self.first + w), "--stride", str(workers), "--count",
                    str(per), "--races", self.races, "--orders", orders, "--progress", prog, "--max-violations", "12", "--time",
                    str(self.seconds)]
            out = open(os.path.join(self.dir, tag + ".out"), "wb")
            procs.append((subprocess.Popen(args, stdout=out, stderr=subprocess.STDOUT), args, orders, prog, out))
        limit = time.time() + self.seconds + 180
        found = []
        for p, args, orders, prog, out in procs:
            try:
                rc = p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = p.wait()
            out.close()
            lines = simlib.parse(open(out.name, "rb").read())
            for l in lines:
                if l.get("t") == "v":
                    found.append((l["class"], l["seed"], l["hash"], l["msg"]))
                elif l.get("t") == "s":
                    self.stats.append(l)
            if rc not in (0, 1):
                # the process died: the seed it was running, alone in a fresh process
                try:
                    seed = int(open(prog).read().split()[0])
                except (OSError, ValueError, IndexError):
                    raise CheckError("a simulator process ended with %d before its first seed" % rc)
                found.append(("DIED", seed, "", "the simulator process ended with %d" % rc))
            if os.path.exists(orders):
                a = array.array("Q")
                with open(orders, "rb") as f:
                    a.frombytes(f.read())
                self.orders.setdefault((flavor, profile), set()).update(a)
                os.unlink(orders)
        return found

    def determinism(self, flavor, profile):
        """The same seeds in processes of different composition must give the same event hashes and verdicts."""
        n = 120 if self.tier == "quick" else 1000
        start = self.first + 500000

        def hashes(args):
            rc, lines, err = simlib.sim(args, 300)
            return {l["seed"]: l["hash"] for l in lines if l.get("t") == "h"}, rc

        base = [self.bin[flavor], "run", "--profile", profile, "--races", self.races, "--hashes", "1", "--max-violations", "1000000"]
        jobs = [base + ["--start", str(start), "--count", str(n)]]
        for k in range(4):
            jobs.append(base + ["--start", str(start + k), "--stride", "4", "--count", str(n // 4)])
        procs = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for j in jobs]
        res = []
        for p in procs:
            try:
                out, _ = p.communicate(timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            res.append({l["seed"]: l["hash"] for l in simlib.parse(out) if l.get("t") == "h"})
        cmp = 0
        for r in res[1:]:
            for s, h in r.items():
                if s in res[0]:
                    cmp += 1
                    if res[0][s] != h:
                        raise CheckError("not deterministic: flavor %s profile %s seed %d: %s and %s" % (flavor, profile, s, res[0][s], h))
        self.det = getattr(self, "det", 0) + cmp
        return cmp

    # -- violations -----------------------------------------------------------------------------------------------
    def confirm(self, flavor, profile, cls, seed, hash_, msg):
        """Same seed again twice, minimise, replay in a fresh process.  Returns (class, message, replay path) or None."""
        raw = os.path.join(self.dir, "raw-%s-%s-%d.replay" % (flavor, profile, seed))
        one = [self.bin[flavor], "one", "--profile", profile, "--seed", str(seed), "--races", self.races, "--out", raw]
        got = []
        for _ in range(2):
            rc, lines, err = simlib.sim(one, 200)
            r = [l for l in lines if l.get("t") == "r"]
            got.append((rc, r[0]["class"], r[0]["hash"], r[0]["msg"]) if r else (rc, "DIED", "", err[-300:]))
        if got[0][:3] != got[1][:3]:
            raise CheckError("seed %d of %s/%s does not reproduce: %r then %r" % (seed, flavor, profile, got[0], got[1]))
        if got[0][1] == "DIED":
            # the process itself dies, reproducibly (for example the stack of the code under test overflows)
            if got[0][0] == 0:
                raise CheckError("seed %d of %s/%s: worker died but the seed alone runs" % (seed, flavor, profile))
            path = self.replay_path(flavor, profile, seed)
            with open(path, "w") as f:
                f.write("tecs-sim-died 1\nflavor %s\nprofile %s\nseed %d\nraces %s\nclass DIED\nexit %d\n" % (flavor, profile, seed, self.races, got[0][0]))
            return "CRASH", "the process died with %d" % got[0][0], path
        if cls == "DIED":
            if not got[0][1]:
                raise CheckError("seed %d of %s/%s: the worker died but the seed alone runs" % (seed, flavor, profile))
        elif got[0][1] != cls or (hash_ and got[0][2] != hash_):
            raise CheckError("seed %d of %s/%s does not reproduce: %s/%s then %r" % (seed, flavor, profile, cls, hash_, got[0]))
        cls, msg = got[0][1], got[0][3]
        path = self.replay_path(flavor, profile, seed)
        limit = 25 if self.tier == "quick" else 90
        rc, lines, err = simlib.sim([self.bin[flavor], "min", "--in", raw, "--out", path, "--time", str(limit)], limit + 240)
        m = [l for l in lines if l.get("t") == "m"]
        if rc or not m or not m[0].get("ok"):
            shutil.copyfile(raw, path)
            self.notes.append("minimisation of seed %d failed; the replay file is the full run" % seed)
        rc, lines, err = simlib.sim([self.bin[flavor], "replay", path], 200)
        if rc != 1:
            raise CheckError("replay of %s in a fresh process does not reproduce (exit %d)" % (path, rc))
        r = [l for l in lines if l.get("t") == "r"][0]
        if m and m[0].get("ok"):
            self.notes.append("seed %d (%s): minimised from %d operations and %d decisions to %d and %d" % (seed, cls, m[0]["ops0"], m[0]["dec0"],
                                                                                                       m[0]["ops"], m[0]["dec"]))
        return cls, r["msg"], path

    def replay_path(self, flavor, profile, seed):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-%s-%s-%d.replay" % (self.prop, flavor, profile, seed))

    # -- everything -----------------------------------------------------------------------------------------------
    def run(self):
        self.dir = simlib.scratch()
        try:
            return self.run2()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run2(self):
        flavors = []
        for f, _, _ in self.plan:
            if f not in flavors:
                flavors.append(f)
        self.bin = simlib.build(flavors, self.dir, notes=self.notes)
        flavors = [f for f in flavors if f in self.bin]
        self.plan = [p for p in self.plan if p[0] in self.bin]
        self.build_s = time.time() - self.t0
        print("%s (%s): built %s in %.0f s" % (self.prop, self.tier, ", ".join(flavors), self.build_s), flush=True)
        known, reported, off, off_total = load_known(), [], {}, 0
        bad_harness = None
        for flavor, profile, count in self.plan:
            self.determinism(flavor, profile)
            t = time.time()
            found = self.explore(flavor, profile, count)
            n = sum(s["runs"] for s in self.stats if s["flavor"] == flavor and s["profile"] == profile)
            print("%s: %s/%s: %d runs in %.0f s, %d violating" % (self.prop, flavor, profile, n, time.time() - t, len(found)), flush=True)
            byclass = {}
            for f in sorted(found, key=lambda x: x[1]):
                byclass.setdefault(f[0], []).append(f)
            for cls, fs in sorted(byclass.items(), key=lambda kv: kv[1][0][1]):
                if cls != "DIED" and harness(cls):
                    bad_harness = fs[0]
                    continue
                if cls != "DIED" and not targeted(self.prop, cls):
                    off_total += len(fs)
                    off.setdefault(cls, (flavor, fs[0][1], fs[0][3]))
                    continue
                tried = 0
                for _, seed, h, msg in fs:
                    c, m, path = self.confirm(flavor, profile, cls, seed, h, msg)
                    k = [x for x in known if x[0] == self.prop and fnmatch.fnmatchcase(c, x[1]) and re.search(x[2], m)]
                    if k:
                        reported.append(("known", c, m, path, k[0][3]))
                    elif targeted(self.prop, c):
                        reported.append(("new", c, m, path, ""))
                        break
                    tried += 1
                    if tried >= 3:
                        break
                if len([r for r in reported if r[0] == "new"]) >= 2:
                    break
            if any(r[0] == "new" for r in reported):
                break
        new = [r for r in reported if r[0] == "new"]
        if not new and not bad_harness:
            self.make_samples()
        self.evidence(len(new), off, off_total)
        for c, (fl, seed, msg) in sorted(off.items()):
            print("note: %s seen in %s seed %d, which is no violation of %s: %s" % (c, fl, seed, self.prop, msg[:200]))
        for n in self.notes:
            print("note: " + n)
        for text in sorted({r[4] for r in reported if r[0] == "known"}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if new:
            for _, c, m, path, _ in new:
                print("%s: %s" % (c, m[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if bad_harness:
            raise CheckError("harness error in seed %d: %s %s" % (bad_harness[1], bad_harness[0], bad_harness[3]))
        if not any(s["runs"] for s in self.stats):
            raise CheckError("nothing was explored")
        return 0

    def make_samples(self):
        for k, (flavor, profile, _) in enumerate(self.plan[:2]):
            path = os.path.join(self.dir, "sample.replay")
            rc, lines, err = simlib.sim([self.bin[flavor], "one", "--profile", profile, "--seed", str(self.first + 3 + k), "--races", self.races,
                                         "--out", path], 120)
            r = [l for l in lines if l.get("t") == "r"]
            if not r or not os.path.exists(path):
                continue
            text = open(path).read().splitlines()
            prog = [l for l in text if re.match(r"program|setup|thread|  op", l)]
            dec = [l for l in text if re.match(r"\d+ [a-z]+ \d+$", l)]
            self.samples.append({"flavor": flavor, "profile": profile, "seed": self.first + 3 + k, "steps": r[0]["steps"], "event_hash": r[0]["hash"],
                                 "verdict": r[0]["class"] or "held", "program": prog[:60], "decisions_taken": len(dec), "first_decisions": dec[:25]})

    def evidence(self, nviol, off, off_total):
        tot = {}
        for s in self.stats:
            for k, v in s.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
        opc, txc, probe = {}, {}, {}
        for s in self.stats:
            for src, dst in ((s["op_counts"], opc), (s["txn_counts"], txc), (s["probe"], probe)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
        per = {}
        for s in self.stats:
            d = per.setdefault(s["flavor"] + "/" + s["profile"], {"runs": 0, "cpu_s": 0.0, "steps": 0})
            d["runs"] += s["runs"]
            d["cpu_s"] = round(d["cpu_s"] + s["wall"], 1)
            d["steps"] += s["steps"]
        for (f, p), o in self.orders.items():
            if f + "/" + p in per:
                per[f + "/" + p]["distinct_interleavings"] = len(o)
        wall = time.time() - self.t0
        runs = int(tot.get("runs", 0))
        explore_s = max(0.001, wall - self.build_s)
        distinct = sum(len(o) for o in self.orders.values())
        g = lambda k: int(tot.get(k, 0))
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": distinct,
            "rule": "One evaluation is one simulated run: a client program (transactions of 1 to 5 threads) generated from the seed and "
                    "executed against the real code under a schedule and faults drawn from the same seed. Two runs count as distinct if the "
                    "hash over their sequences of scheduling-relevant events (thread, kind of synchronisation operation, program point, in order) differ; every run "
                    "has at least one transaction that commits.",
            "samples": self.samples,
            "flavors": per,
            "flavor_descriptions": {f: FLAVORS[f][3] for f in {p[0] for p in self.plan}},
            "simulated_runs_per_hour": int(runs / explore_s * 3600),
            "seeds": {"first": self.first, "count": runs},
            "simulated_time_s": round(g("sim_ns") / 1e9, 3),
            "simulated_steps": g("steps"),
            "atomic_operations": g("atomics"),
            "context_switches": g("switches"),
            "forced_preemptions": g("preempts"),
            "futex_waits": g("futex_waits"),
            "runs_that_reached_the_fair_phase": g("fair_runs"),
            "longest_fair_phase_steps": max([s["fair_max"] for s in self.stats] or [0]),
            "faults_injected": {"weak compare-exchange failed spuriously": g("fault_weak_cas"), "spurious wake-up": g("fault_spurious_wake"),
                                "thread stalled": g("fault_stall"), "clock jump": g("fault_clock_jump"), "allocation failed": g("fault_alloc"),
                                "component copy threw": g("fault_copy_throw"), "thread frozen inside its transaction": g("fault_freeze")},
            "transactions": g("txns"),
            "client_operations": opc,
            "transactions_by_permissions": txc,
            "rare_conditions_reached": probe,
            "off_target_violations": {"total": off_total, "classes": sorted(off)},
            "determinism_pairs_compared": getattr(self, "det", 0),
            "build_s": round(self.build_s, 1),
            "real_code": ["/repo/inc and /repo/src/Tecs.cc, complete and unmodified", "libstdc++ headers instantiated in the instrumented units "
                          "(containers, shared_ptr, std::atomic wait protocol)"],
            "stubbed": ["operating system threads (fibers)", "futex, sched_yield and thread identity", "memory allocator (shadowed heap)",
                        "clocks (simulated)", "hardware memory model (sequentially consistent; missing orderings are decided by happens-before race detection)"],
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
            "assumptions": ["values are observed through the public interface only", "executions are sequentially consistent interleavings; "
                            "weaker behaviours are covered as far as they are data races (C06)",
                            "sampled, not enumerated: a bug needing a schedule that no explored seed produces stays unseen"],
            "wall_s": round(wall, 1), "violations": nviol,
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def main():
    prop = sys.argv[1] if len(sys.argv) > 1 else ""
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if prop not in TARGETS or tier not in ("quick", "thorough"):
        print("usage: check.py <property> [--tier quick|thorough]")
        return 2
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    print("%s: VERIF_SEED=%d" % (prop, seed))
    try:
        return Check(prop, tier, seed).run()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2


sys.exit(main())
