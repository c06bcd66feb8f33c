#!/usr/bin/env python3
"""Development aid: turns seed recipes (file, old, new) into seeded/<id>/{patch.diff,meta.json,demo.sh,demo.cpp}.
usage: mkseed.py RECIPE.py  -- RECIPE.py defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new[, nth])], demo=cpp text)]"""
import json, os, re, runpy, shutil, subprocess, sys
S = "/verif/seeded"
SH = '''#!/bin/bash
# Builds demo.cpp against the library that build.sh made and runs it.
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 9
trap 'rm -rf "$D"' EXIT
g++ -std=gnu++17 -w -Dno_TRICK_ENV=1 -I. -Icore -Iaspects -Ims-utils -Igunns-ts-models "$H/demo.cpp" -L_build -lgunns -lpthread -o "$D/demo" || exit 8
timeout 200 "$D/demo"
'''
sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, text=True)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(S, s["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for e in s["edits"]:
            p = os.path.join("/repo", e[0])
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            old, new = e[1], e[2]
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = t.count(old)
            k = e[3] if len(e) > 3 else 0
            assert n >= 1 and (n == 1 or len(e) > 3), "%s: %d matches of %r" % (s["id"], n, old)
            i = -1
            for _ in range(k + 1):
                i = t.index(old, i + 1)
            open(p, "w", newline="").write(t[:i] + new + t[i + len(old):])
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(s.get("sh", SH))
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in s:
        open(d + "/demo.cpp", "w").write(s["demo"])
    print("made", s["id"])
