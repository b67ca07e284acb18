#!/usr/bin/env python3
"""Sensitivity: break the code on purpose in scratch copies and see which checks notice.

  mutants.py list
  mutants.py run [-s SECONDS] [-t] ID...     -t: also build and run the repository's tests
  mutants.py diff ID                         the change as a patch
MUTANTS=refactors.txt takes the changes that keep the behaviour instead (every check has to stay quiet on them).
Scratch copies live under $MUTDIR (/tmp/mut) and are removed.
"""
import difflib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
W = os.environ.get("MUTDIR", "/tmp/mut")

def load():
    ms, cur = {}, None
    with open(os.path.join(HERE, os.environ.get("MUTANTS", "mutants.txt")), newline="") as f:
        text = f.read()
    for blk in re.split(r"(?m)^=== ", text)[1:]:
        head, _, body = blk.partition("\n")
        mid, props = head.split()[:2]
        edits = []
        for e in re.split(r"(?m)^--- ", body)[1:]:
            fn, _, rest = e.partition("\n")
            old, _, new = rest.partition("\n>>>\n")
            edits.append((fn.strip(), old, new.rstrip("\n")))
        ms[mid] = (props.split(","), edits)
    return ms

def apply(repo, edits):
    for fn, old, new in edits:
        p = os.path.join(repo, fn)
        with open(p, newline="") as f:
            s = f.read()
        crlf = "\r\n" in s
        if crlf:
            s = s.replace("\r\n", "\n")
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: the old text occurs %d times in %s:\n%s" % (repo, n, fn, old))
        s = s.replace(old, new)
        if crlf:
            s = s.replace("\n", "\r\n")
        with open(p, "w", newline="") as f:
            f.write(s)

def copy(mid):
    d = os.path.join(W, mid, "repo")
    shutil.rmtree(os.path.join(W, mid), ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d, shell=True)
    return d

def tests(mid, d):
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", os.path.join(W, mid, "build.sh")).replace("/repo", d)
        open(os.path.join(W, mid, n), "w").write(s)
    o = os.path.join(W, mid, "out.json")
    p = subprocess.run(["bash", os.path.join(W, mid, "test.sh"), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(o):
        return ["no test result: " + p.stdout.decode(errors="replace")[-300:].replace("\n", " / ")]
    r = json.load(open(o))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    miss = [t for t in want if t not in r["passed"]]
    if not r["passed"]:
        return ["build failed: " + p.stdout.decode(errors="replace")[-1500:]]
    return miss

def main():
    a = sys.argv[1:]
    ms = load()
    if a[0] == "list":
        for k, (p, e) in ms.items():
            print(k, ",".join(p), ", ".join(sorted({x[0] for x in e})))
        return
    if a[0] == "diff":
        d = copy(a[1])
        apply(d, ms[a[1]][1])
        subprocess.run("git -C %s init -q; " % d, shell=True)
        for fn in sorted({x[0] for x in ms[a[1]][1]}):
            subprocess.run(["git", "diff", "--no-index", "--", os.path.join("/repo", fn), os.path.join(d, fn)])
        shutil.rmtree(os.path.join(W, a[1]))
        return
    secs, dotests, ids = "30", False, []
    i = 1
    while i < len(a):
        if a[i] == "-s": secs = a[i + 1]; i += 1
        elif a[i] == "-t": dotests = True
        else: ids.append(a[i])
        i += 1
    for mid in (ids or list(ms)):
        props, edits = ms[mid]
        d = copy(mid)
        try:
            apply(d, edits)
        except SystemExit as e:
            print(mid, "DOES NOT APPLY", e, flush=True)
            continue
        t = ""
        if dotests:
            m = tests(mid, d)
            t = "tests pass" if not m else "TESTS FAIL %s" % m
        out = []
        for p in props:
            t0 = time.time()
            r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), p], env=dict(os.environ, SIM_REPO=d, SIM_TIME=secs, SIM_SCRATCH=os.path.join(W, mid)), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            e = r.stderr.decode(errors="replace")
            k = re.search(r"violated in scenario (.*)", e)
            out.append("%s: exit %d %s(%.0f s)" % (p, r.returncode, k.group(1)[:110] + " " if k else e[-300:].replace("\n", " / ") if r.returncode not in (0, 1) else "", time.time() - t0))
        print(mid, "|", t, "|", "; ".join(out), flush=True)
        shutil.rmtree(os.path.join(W, mid), ignore_errors=True)

if __name__ == "__main__":
    main()
