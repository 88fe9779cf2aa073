import json
T = "deterministic simulation: seeded schedules and injected faults, checked against a reference model"
notes = {
 "C01": "every read of every transaction is checked against the set of committed snapshots the transaction can legally be looking at; an empty set is a violation",
 "C02": "the candidate set is shared by all components of a world, so a mixture of two states leaves no candidate; visibility intervals of every commit are checked for real-time order after the run",
 "C03": "the model tracks holders of every write permission from the return of the start to the call of the release; increments (read-modify-write) must start from the last committed value",
 "C04": "own changes are applied to a private model state; every read through the lock, derived locks and previous-state functions is compared with it or with the frozen predecessor",
 "C05": "each commit is visible only from the release of the last handle on and must be visible to every transaction started after that release returned; use counts are checked during release",
 "C06": "happens-before race detection over every memory access of the real code using the memory orders it requests, in all simulated schedules",
 "C07": "no deadlock in any schedule; after the chaos phase a fair scheduler must finish every program within a bounded number of steps (lost wake-ups show up as sleeping threads)",
 "C08": "threads are frozen for good inside write transactions (or read transactions) and the others, which must not need them, have to finish",
 "C09": "readers hand over so that at every moment at least one reads; the releasing writer must finish within the step bound",
 "C10": "all handles ever returned are remembered and compared; slot reuse is predicted exactly by the model",
 "C11": "lists walked forwards, backwards, by index, through sub-views and iterator arithmetic against model state and queries",
 "C12": "lists kept while their elements are added, removed and destroyed through references into them",
 "C13": "the exact multiset and order of due events per observer is derived from the commit history",
 "C14": "same, with the cut-off fixed at the start of each polling transaction; emptiness is sticky; available events must be delivered",
 "C15": "invalid handles, absent components and globals, out-of-range indexes and nested starts are mixed into all programs; the model predicts which operations are rejected and that nothing changes",
 "C16": "the n-th allocation or component copy of an operation or of a transaction start fails; afterwards the world must agree with a model in which the operation did not happen",
 "C17": "nested starts on the same instance, starts beyond the limit and failing starts between overlapping transactions on several instances, ended in any order",
 "C18": "all sources, declared permissions and requests of the permission table; granted locks are then used",
 "C19": "globals are part of the model state and of the event history, exercised in every permission set",
 "C20": "the trace's event streams are compared with the simulator's own log of the run; simulated clock with jumps; buffers that overflow and that do not",
 "C21": "shadowed heap: every access checked for bounds and use after free; after commits the live payload blocks may only hold values the model still knows; leak check after the instance is destroyed",
 "C22": "ids of all transactions of the process compared pairwise and with the real-time order of starts",
 "C23": "two or three instances with independent models; interleaved and overlapping transactions and foreign handles",
}
checks = []
for p in sorted(notes):
    checks.append({
        "property": p,
        "quick_cmd": "python3 bin/check.py %s" % p,
        "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T,
        "level": "exploration",
        "level_note": "Sampled executions of the real, unmodified code: " + notes[p] + ". Trusts the simulator (fibers, futex and allocator "
                      "stand-ins), the reference model, and compiler instrumentation; sequentially consistent interleavings.",
    })
man = {
    "version": 1,
    "setup_cmd": "sh bin/setup.sh",
    "hooks": {"guard": "none", "enable": "The simulator needs no hooks in /repo: compiler instrumentation (-fsanitize=thread with an own runtime), "
              "interposed system calls and allocator, and the library's own configuration macros are the seams.", "source_commits": []},
    "checks": checks,
    "not_applicable": [
        {"property": "C24", "reason": "Converting a handle to an integer and back, comparing and hashing it is a pure function of its bits: no schedule, "
         "clock, fault or interleaving enters, so there is nothing to simulate."},
        {"property": "C25", "reason": "Decided entirely at compile time by static assertions; no execution exists that a simulator could schedule or disturb."},
    ],
    "notes": "bin/replay.py FILE [-v] replays a reported violation. See DESIGN.md.",
}
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    pass
