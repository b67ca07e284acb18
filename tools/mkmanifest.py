#!/usr/bin/env python3
# writes MANIFEST.json
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation, seeded schedule and fault search: "
TR = "It samples schedules, faults and workloads by seed and does not enumerate them. Trusted: the simulator in sim/rt.cpp (scheduler, pthread, futex, allocator and clock stand-ins, happens-before race detector), clang++'s -fsanitize=thread instrumentation, and that code inside libstdc++.so and libc may run atomically between two instrumented points."
C = {
 "C01": ("task log checked for exactly-once and FIFO", "pool tasks of all kinds, from outside and from tasks, 1..8 submitters and workers; preemption at any memory access, spurious wake-ups, waiter choice."),
 "C02": ("destruction at any instant, deadlock detection", "a hang is a deadlock or exhaustion of the step budget under a fair scheduler, so termination is decided exactly in each run."),
 "C03": ("linearizability check of recorded histories", "histories stamped with the simulator's sequence numbers are checked against a sequential queue model; short histories, many of them."),
 "C04": ("happens-before race and lifetime detection under seeded schedules", "races are found on executions where the accesses do not happen to collide, since they are judged by happens-before and not by timing; freed memory is tracked by the allocator stand-in."),
 "C05": ("refinement: peval against eval", "random expressions from single nodes to 67 000 nodes, thread counts and CPU counts; the reference is sequential eval of the same text on the same thread (in the runs with thousands of nodes no data races are looked for)."),
 "C06": ("failing functions injected at any node", "the exception that arrives is identified by a number; hangs and terminations are verdicts of the simulator."),
 "C07": ("thread-creation failures and CPU counts injected", "the k-th creation fails for drawn k and run length; CPU count 0, 1, or other before and during the run."),
 "C08": ("race detection plus fresh-twin reference", "through the C++ and the C interface copies are handed to threads and modified in all interleavings drawn; every result is compared with the same operation on freshly made operands."),
 "C09": ("race detection plus fresh-twin reference", "concurrent read-only operations on one number with any cache state."),
 "C10": ("refinement against freshly made operands", "histories of operations, hand-offs and failed allocations; arithmetic itself is not judged, only independence of the past."),
 "C11": ("allocation failure at a drawn or swept k", "the k-th allocation inside an operation fails; old value or new value, no leak, no termination."),
 "C12": ("allocation failures on any thread of an evaluation", "single, repeated and lasting failures; every outcome but value or bad_alloc is a violation."),
 "C13": ("per-thread status history against a model", "a model of each thread's status and callback counts is compared at every step."),
 "C14": ("registration history against a model, concurrent first use", "a model of the registry is compared after every phase; each simulated run is a fresh process image, so every run has a real first use."),
 "C15": ("concurrent evaluations against lone evaluations", "each run is a fresh process image, so first uses race for real in every run."),
 "C16": ("heap and thread census at return, on every outcome", "allocator stand-in counts what is left behind; tokens count constructions and destructions."),
 "C17": ("call logs of parallel and sequential evaluation against a reference evaluator", "user functions log their calls; the calls of eval and of peval must be, call site by call site, those that an independent evaluator of the expression says are needed."),
 "C18": ("evaluations on fresh, resident and main threads against a model of the symbol table and of each thread's literal hook", "constants and functions with 0, 1 or any number of arguments are registered and replaced on one thread at a time, between rounds of evaluations on others; every evaluation must have the value the model gives."),
}
NA = {
 "C20": "a pure function of its operands: no schedule, clock, I/O or fault takes part, so a simulated run adds nothing to input generation (the parts that do depend on history, faults or threads are C08 to C11)",
 "C21": "a pure function of value, radix and text; nothing for a scheduler or fault injector to decide",
 "C22": "a pure function of the byte string; nothing for a scheduler or fault injector to decide",
 "C23": "a pure function of the expression text; the parallel evaluation of it is C05 and C17",
 "C24": "a pure function of the expression text (and known to fail for inputs alone, for instance trailing blanks); no schedule or fault takes part",
 "C25": "a pure function of the value; nothing for a scheduler or fault injector to decide",
 "C26": "a pure function of the operands; allocation failure inside fraction arithmetic is in C11",
 "C27": "a pure function of the arguments, function by function; the parts of the C interface that involve threads are in C13 and C14",
}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
   "technique": T + t, "level": "exploration", "level_note": n[0].upper() + n[1:] + " " + TR} for p, (t, n) in sorted(C.items())],
 "notes": "No hooks in /repo: the checks compile its sources unmodified with -fsanitize=thread and link them with the simulator's own runtime, which stands in for the thread, lock, futex, clock and allocation functions.",
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
