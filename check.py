#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

  check.py C05 [--tier quick|thorough]   search; exit 0 / exit 1 + VIOLATION line / exit 2 no answer
  check.py replay FILE                   rebuild from /repo and replay a violation exactly
  check.py setup                         build both flavours
  check.py determinism [RUNS]            every scenario's runs twice, in different processes, hashes compared
"""
import array, fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
OUT = os.environ.get("SIM_SCRATCH", HERE)       # build, replays and evidence; set only by tools/mutants.py
BUILD = os.path.join(OUT, "build")
FLAVOURS = ["debug", "release"]
FAULTS = ["preemptions at memory accesses and synchronisation operations", "spurious condition-variable wake-ups", "spurious futex wake-ups",
          "wake-ups with a choice of waiter", "failed allocations", "failed thread creations", "CPU count reported unknown, one or unusual",
          "early timeouts (clock jumps)", "runs finished in fair mode"]
STRAT = ["none (run to block)", "random at synchronisation operations", "random preemption at memory accesses", "PCT priorities", "preemption at accesses to shared memory"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def source_files():
    out = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "c", "src"), SIM):
        for d, _, fs in os.walk(base):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def build():
    """both flavours, from the working tree; returns {flavour: binary}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tag = source_hash()
        res, procs = {}, []
        for d in glob.glob(os.path.join(BUILD, "*-*")):
            if os.path.isdir(d) and not d.endswith("-" + tag) and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        for fl in FLAVOURS:
            out = os.path.join(BUILD, "%s-%s" % (fl, tag))
            res[fl] = os.path.join(out, "sim")
            if not os.path.exists(os.path.join(out, "ok")):
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                procs.append((fl, out, subprocess.Popen(["make", "-s", "-C", SIM, "-j6", "FLAVOUR=" + fl, "OUT=" + out, "REPO=" + REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for fl, out, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                log("build (%s) failed:\n%s" % (fl, o.decode(errors="replace")[-6000:]))
                sys.exit(2)
            open(os.path.join(out, "ok"), "w").close()
        return res


def env_for(nprocs0):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "SIM_NPROCS0": str(nprocs0)}
    return e


def replay_meta(path):
    m = {}
    with open(path) as f:
        for l in f:
            if l.startswith("trace "):
                break
            k, _, v = l.rstrip("\n").partition(" ")
            m[k] = v
    return m


def run_replay(bins, path):
    m = replay_meta(path)
    p = subprocess.run([bins[m["flavour"]], "replay", "file=" + path], env=env_for(m["nprocs0"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")


def symbolise(binary, addrs):
    if not addrs:
        return []
    tool = shutil.which("addr2line") or shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if not tool:
        return addrs
    try:
        if tool.endswith("addr2line"):
            p = subprocess.run([tool, "-Cfe", binary] + addrs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            ls = p.stdout.decode(errors="replace").splitlines()
            return ["%s (%s)" % (ls[i][:160], ls[i + 1]) for i in range(0, len(ls) - 1, 2)]
    except Exception as e:  # symbols are a convenience
        log("symbolise:", e)
    return addrs


def known_findings(prop):
    known = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: property=%s " % prop):
                    sig, _, text = l[len("known: property=%s " % prop):].partition(" ;; ")
                    known.append((sig, text))
    except FileNotFoundError:
        pass
    return known


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    bins = build()
    tbuild = time.time() - t0
    cpus = len(os.sched_getaffinity(0))
    nw = max(2, min(16, cpus))
    budget = float(os.environ.get("SIM_TIME", "70" if tier == "quick" else "660"))
    minb = 30 if tier == "quick" else 60
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(prop)
    sigs = os.path.join(work, "known")
    with open(sigs, "w") as f:
        f.write("".join(s + "\n" for s, _ in known))
    procs = []
    np0 = [4, 0, 8, 1, 2, 4, 0, 3]
    for i in range(nw):
        fl = FLAVOURS[i % 2]
        cmd = [bins[fl], "search", "prop=" + prop, "flavour=" + fl, "seed=%d" % seed, "time=%g" % budget, "worker=%d" % i, "workers=%d" % nw,
               "out=%s/%d.json" % (work, i), "replay=%s/%d.replay" % (work, i), "min=%d" % minb, "known=" + sigs]
        procs.append(subprocess.Popen(cmd, env=env_for(np0[(i // 2 + i % 2 * 4) % 8]), stderr=open("%s/%d.err" % (work, i), "w"), stdout=subprocess.DEVNULL))
    first = None
    deadline = time.time() + budget + minb + 120
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if first is None and any(p.poll() == 1 for p in procs):
            first = time.time()
            for p in procs:
                if p.poll() is None:
                    p.send_signal(signal.SIGTERM)
        if time.time() > deadline or (first and time.time() > first + 20):
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
    for p in procs:
        p.wait()
    stats, vio, inter, wset, bad = [], [], set(), set(), []
    for i, p in enumerate(procs):
        try:
            with open("%s/%d.json" % (work, i)) as f:
                d = json.load(f)
        except Exception:
            if p.returncode not in (0, 1, -9, -15):
                bad.append("worker %d ended with %s: %s" % (i, p.returncode, open("%s/%d.err" % (work, i)).read()[-500:]))
            continue
        stats.append(d)
        try:
            with open("%s/%d.json.bin" % (work, i), "rb") as f:
                for s in (inter, wset):
                    n = array.array("Q")
                    n.fromfile(f, 1)
                    a = array.array("Q")
                    a.fromfile(f, n[0])
                    s.update(a)
        except (EOFError, FileNotFoundError):
            pass
        if d["violation"]:
            vio.append((d["violation"]["trace_min"] + d["violation"]["choices_min"], i, d["violation"]))
    vio.sort(key=lambda x: x[:2])
    # a violation counts only if two fresh processes replay it exactly
    confirmed, unconfirmed = None, []
    for _, i, v in vio:
        path = "%s/%d.replay" % (work, i)
        rs = [run_replay(bins, path) for _ in range(2)]
        if all(r[0] == 1 for r in rs):
            dst = os.path.join(rdir, "%s-seed%d.replay" % (prop, v["seed"]))
            m = replay_meta(path)
            st = m.get("stack", "0").split()[1:]
            ot = m.get("other", "0").split()[1:]
            with open(path) as f:
                body = f.read()
            with open(dst, "w") as f:
                f.write(body)
            frames = symbolise(bins[m["flavour"]], st)
            oframes = symbolise(bins[m["flavour"]], ot)
            with open(dst + ".txt", "w") as f:
                f.write("property %s violated in scenario %s (%s build): %s\n%s\nworkload: %s\n" % (prop, v["scenario"], m["flavour"], v["kind"], v["detail"], v["workload"]))
                f.write("seed %d; found with %d schedule/fault decisions and %d workload choices, minimised to %d and %d\n" % (v["seed"], v["trace_found"], v["choices_found"], v["trace_min"], v["choices_min"]))
                f.write("stack:\n" + "".join("  %s\n" % x for x in frames) + ("earlier access:\n" + "".join("  %s\n" % x for x in oframes) if oframes else ""))
                f.write("replay with: %s replay %s\n" % (os.path.abspath(__file__), dst))
            confirmed = (v, dst)
            break
        unconfirmed.append("worker %d: %s (%s) did not replay exactly" % (i, v["kind"], v["detail"]))
    tot = lambda k: sum(d[k] for d in stats)
    vec = lambda k: [sum(x) for x in zip(*[d[k] for d in stats])] if stats else []
    wall = time.time() - t0
    runs = tot("runs") if stats else 0
    scen = {}
    for d in stats:
        for k, n in d["scenarios"].items():
            scen[k] = scen.get(k, 0) + n
    fv, sv = vec("faults"), vec("strategies")
    notes = sorted({d["note"] for d in stats if d["note"]})[:5]
    search_wall = max([d["wall"] for d in stats] or [0.001])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(inter),
            "rule": "each evaluation is one simulated execution of the real library code, fully determined by one 64-bit seed (workload, schedule, faults); it is non-trivial when more than one thread ran with context switches between them, a fault was injected, or the workload needed more than two choices; two are the same when both the workload choices and the sequence of synchronisation events, context switches and faults agree (hashes compared)",
            "samples": [x for d in stats for x in d["samples"]][:8],
            "distinct_workloads": len(wset),
            "runs_by_scenario": scen,
            "runs_by_schedule_strategy": {STRAT[i]: n for i, n in enumerate(sv) if i < len(STRAT)},
            "seeds_per_hour": int(runs / max(search_wall, 0.001) * 3600),
            "simulated_steps": tot("steps") if stats else 0,
            "synchronisation_operations": tot("syncops") if stats else 0,
            "context_switches": tot("switches") if stats else 0,
            "simulated_time_s": round(tot("simtime_s"), 6) if stats else 0,
            "simulated_threads": tot("threads") if stats else 0,
            "max_threads_in_a_run": max([d["maxthreads"] for d in stats] or [0]),
            "faults_injected": {FAULTS[i]: n for i, n in enumerate(fv)},
            "runs_with_faults": tot("faulted") if stats else 0, "runs_without_faults": tot("faultfree") if stats else 0,
            "situations_reached": {str(i): n for i, n in enumerate(vec("probes")) if n},
            "repeat_checks": tot("selfchecked") if stats else 0, "repeat_mismatches": tot("nondet") if stats else 0,
            "runs_without_verdict": tot("inconclusive") if stats else 0, "runs_lost": tot("lost") if stats else 0,
            "builds": {fl: os.path.basename(os.path.dirname(b)) for fl, b in bins.items()},
            "cpu_counts_at_start": sorted({np0[(i // 2 + i % 2 * 4) % 8] for i in range(nw)}),
            "real_components": "all of /repo/src and /repo/c/src (compiled unmodified with -fsanitize=thread callbacks), libstdc++ headers, std::thread / std::future / containers",
            "stub_components": "simulator instead of: thread scheduler, pthread mutexes, condition variables, once/guards, futexes, clocks, CPU count, malloc/operator new",
            "notes": notes,
        },
        "assumptions": ["sequentially consistent execution of the interleaved steps; weak-memory effects are covered through the happens-before race detector", "code inside libstdc++.so and libc is not instrumented (its memory accesses are not preemption points)"],
        "wall_s": round(wall, 2), "violations": 1 if confirmed else 0,
    }
    if confirmed:
        ev["coverage"]["violation"] = confirmed[0]
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(OUT, "evidence", prop + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    log("%s: %d runs (%d distinct non-trivial), %.1f s build, %.1f s total; %s" % (prop, runs, len(inter), tbuild, wall, scen))
    for n in notes:
        log("note:", n)
    for s, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text or s))
    if confirmed:
        with open(confirmed[1] + ".txt") as f:
            log(f.read())
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[1]), flush=True)
        return 1
    if unconfirmed or bad or not stats or runs == 0:
        for b in unconfirmed + bad:
            log(b)
        log("no answer")
        return 2
    if runs and tot("lost") * 10 > runs:
        log("too many runs lost: no answer")
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    if a[0] == "setup":
        build()
        return 0
    if a[0] == "replay":
        bins = build()
        rc, o = run_replay(bins, a[1])
        print(o, end="")
        m = replay_meta(a[1])
        for l in symbolise(bins[m["flavour"]], m.get("stack", "0").split()[1:]):
            print("   ", l)
        if rc == 1:
            print("reproduced exactly: property=%s" % m["property"])
        return rc
    if a[0] == "determinism":
        bins = build()
        n = a[1] if len(a) > 1 else "100"
        bad = tot = 0
        props = sorted({l.split()[0] for l in subprocess.check_output([bins["debug"], "list"]).decode().splitlines()})
        for fl in FLAVOURS:
            for p in props:
                r = [subprocess.Popen([bins[fl], "hashes", "prop=" + p, "runs=" + n, "seed=7", "worker=%d" % w] + ["pad=" + "x" * (w * 100)], env=dict(env_for(4), PADDING="y" * w * 50), stdout=subprocess.PIPE) for w in range(4)]
                o = [x.communicate()[0] for x in r]
                k = len(o[0].splitlines())
                tot += k
                d = sum(1 for ls in zip(*[x.splitlines() for x in o]) if len(set(ls)) > 1)
                bad += d
                print(fl, p, k, "runs in 4 processes,", d, "differ;", sum(1 for l in o[0].splitlines() if not l.endswith(b"ok")), "not ok")
        print("total", tot, "runs,", bad, "differences")
        return 1 if bad else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
