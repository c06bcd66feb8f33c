#!/usr/bin/env python3
"""Development aid: confirm planted bugs (apply, build, stable tests, demo) and run the property's check.
usage: seedtest.py [-q] ID...   (-q: only run the check against the patched tree)"""
import json, os, subprocess, sys
S = "/verif/seeded"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed.out.json")
    o = json.load(open("/tmp/seed.out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    stable = [x for x in stable] if isinstance(stable, list) else [k for k in stable]
    return [x for x in stable if x not in set(o["passed"])]


quick = "-q" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-q"] or sorted(os.listdir(S))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
bad = 0
for i in ids:
    d = os.path.join(S, i)
    meta = json.load(open(d + "/meta.json"))
    pid = meta["property"]
    msg = []
    if not quick:
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        if r.returncode:
            msg.append("DEMO FAILS ON CLEAN: " + r.stdout[-600:])
    r = sh("git -C /repo apply %s/patch.diff" % d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout)
        bad += 1
        continue
    try:
        if not quick:
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                msg.append("BUILD FAILS " + r.stdout[-800:])
            else:
                f = tests()
                if f:
                    msg.append("TESTS FAIL %s" % f[:4])
                r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
                if r.returncode == 0:
                    msg.append("DEMO PASSES WITH BUG")
        r = sh("cd /verif && ./check %s" % pid)
        caught = r.returncode == 1 and "VIOLATION property=%s" % pid in r.stdout
        line = [l for l in r.stdout.split("\n") if l.startswith("  ") and "[" in l]
        print(i, pid, "caught" if caught else "MISSED rc=%d" % r.returncode, "| " + (line[0].strip()[:200] if line else r.stdout[-200:]), " ".join(msg))
        if msg:
            bad += 1
    finally:
        sh("git -C /repo checkout -- .")
if not quick:
    sh("bash /opt/vp/build.sh")
sys.exit(bad > 0)
