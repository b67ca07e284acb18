#!/usr/bin/env python3
"""Seeded bugs: seed.py make SEED MUTANT   write seeded/SEED/patch.diff from a change in mutants.txt
             seed.py test [-c] SEED...     in a scratch copy: stable tests pass with it, demo 0 without / nonzero with it;
                                           -c: what do all checks say (30 s each)"""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def make(seed, mid):
    ms = mutants.load()
    d = mutants.copy("seed-" + mid)
    sh("git init -q . && git config core.autocrlf false && git -c user.name=x -c user.email=x@x add -A && git -c user.name=x -c user.email=x@x commit -qm x", d)
    mutants.apply(d, ms[mid][1])
    p = subprocess.run(["git", "diff", "--no-color"], cwd=d, stdout=subprocess.PIPE)
    os.makedirs(os.path.join(S, seed), exist_ok=True)
    open(os.path.join(S, seed, "patch.diff"), "wb").write(p.stdout)
    shutil.rmtree(os.path.dirname(d))

def test(seed, checks, reps=3):
    W = os.path.join(mutants.W, "t-" + seed)
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    r = os.path.join(W, "repo")
    sh("cp -a /repo %s" % r)
    sh("git checkout -q -- . && git clean -qfdx", r)
    demo = os.path.join(W, "demo")
    shutil.copytree(os.path.join(S, seed), demo)
    for f in ("patch.diff", "meta.json"):
        if os.path.exists(os.path.join(demo, f)): os.remove(os.path.join(demo, f))
    out = []
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", os.path.join(W, "build.sh")).replace("/repo", r)
        open(os.path.join(W, n), "w").write(s)
    def demos(tag, want):
        for i in range(reps):
            t = time.time()
            p = sh("timeout 300 bash %s/demo.sh" % demo, r)
            out.append("%s: demo %d (%.1f s)%s" % (tag, p.returncode, time.time() - t, "" if (p.returncode == 0) == want else "  <-- WRONG\n" + p.stdout.decode(errors="replace")[-300:]))
    b = sh("bash %s/build.sh" % W)
    if b.returncode: out.append("BASE BUILD FAILED " + b.stdout.decode()[-800:])
    demos("unchanged", True)
    a = sh("git apply %s" % os.path.join(S, seed, "patch.diff"), r)
    if a.returncode: out.append("DOES NOT APPLY " + a.stdout.decode())
    sh("bash %s/test.sh %s/o.json" % (W, W))
    j = json.load(open(W + "/o.json"))
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in j["passed"]]
    out.append("tests: " + ("all stable tests pass" if not miss else "FAIL " + " ".join(miss[:5])))
    demos("changed", False)
    print(seed + "\n  " + "\n  ".join(out), flush=True)
    if checks:
        for prop in checks:
            env = dict(os.environ, SIM_REPO=r, SIM_SCRATCH=W, SIM_TIME="30")
            p = subprocess.run([sys.executable, os.path.join(V, "check.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            l = [x for x in p.stdout.decode(errors="replace").splitlines() if "VIOLATION" in x]
            print("  %s: exit %d %s" % (prop, p.returncode, l[:1]), flush=True)
    sh("find %s -delete" % W)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1], a[2])
    else:
        c = a[1] == "-c"
        for s in a[2 if c else 1:]:
            test(s, [json.load(open(os.path.join(S, s, "meta.json")))["property"]] if c else None)
