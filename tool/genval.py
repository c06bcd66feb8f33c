#!/usr/bin/env python3
"""Development aid: proposes gsa/tables/validation.json from the current tree (then reviewed by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from gsa import facts
from gsa.absint import *
from gsa.rules.p04 import *
fx = facts.load()


def gen(f):
    an = Val(fx)
    r, th = exits(an, f)
    if not th or not r:
        return None
    om = objs(f)
    acc, rel, rej = [], [], []
    ts = set.intersection(*[set(s.iv) for v, s in r])
    for t in sorted(ts, key=show):
        e = enc(t, om)
        if e is None or t.op not in ("fld", "sym", "*", "call"):
            continue
        if t.op == "call" and "size" not in str(t.a[0]):
            continue
        h = hull(an, r, t)
        if not h.top():
            acc.append([e, pack(h)])
    cs = set.intersection(*[{c for c, b in s.facts.items() if b is True} for v, s in r])
    for c in sorted(cs, key=show):
        if c.op in ("<", "<=", "==", "!=") and not any(x.op == "c" for x in c.a):
            e = enc(c, om)
            if e is not None:
                rel.append(e)
    seen = set()
    sites = {}
    for t, s, e, fr in th:
        ok = any(all(an.truth(c, x) == (not b) for v, x in r) for c, b in s.facts.items()) or \
            any(all(an.interval(c, x).meet(b).empty() for v, x in r) for c, b in s.iv.items())
        if ok:
            continue
        at = [(c, b) for c, b in s.facts.items() if enc(c, om) is not None]
        if not at or len(at) > 40:
            continue
        # the assumed atoms must leave no normal exit; then drop what is not needed
        if exits(Val(fx), f, at)[0]:
            continue
        i = 0
        while i < len(at):
            sub = at[:i] + at[i + 1:]
            rr, tt = exits(Val(fx), f, sub)
            if sub and not rr and tt:
                at = sub
            else:
                i += 1
        k = tuple(sorted((show(c), b) for c, b in at))
        if k in seen:
            continue
        seen.add(k)
        flips = []
        if len(at) > 1:
            for i in range(len(at)):
                cs2 = [(c, (not b) if j == i else b) for j, (c, b) in enumerate(at)]
                if exits(Val(fx), f, cs2)[0]:
                    flips.append(i)
        rej.append([[[enc(c, om), b] for c, b in at], flips])
    if acc or rel or rej:
        return {"accept": acc, "relations": rel, "reject": rej}
    return None


fs = list(entries(fx))
tab = {}
for f, g in zip(fs, pmap(gen, fs)):
    if g:
        tab[key(f)] = g
json.dump(tab, open(TABLE, "w"), indent=None, separators=(",", ":"), sort_keys=True)
n = lambda k: sum(len(v[k]) for v in tab.values())
print(len(tab), n("accept"), n("relations"), n("reject"))
for k, v in sorted(tab.items()):
    f = [f for f in fs if key(f) == k][0]
    for conj, fl in v["reject"]:
        print(f.q, " AND ".join(("" if w else "!") + text(e, f) for e, w in conj), fl)
