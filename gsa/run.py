"""Common runner: loads the facts, runs one property's rules, writes evidence, reports violations."""
import importlib, json, os, sys, time, traceback
from . import facts as F
from .facts import Broken

VERIF = F.VERIF


class Ctx:
    def __init__(self, pid, fx, tier):
        self.pid, self.fx, self.tier = pid, fx, tier
        self.obs = []           # (rule, key, ok, where, detail, path)
        self.counts = {}
        self.rules = {}
        self.assume = []
        self.deep = tier == "thorough"
        self.declined = []

    def rule(self, name, text, floor):
        """Declare a rule with the smallest number of instances it must find."""
        self.rules[name] = (text, floor)

    def ob(self, rule, key, ok, where="", detail="", path=None):
        assert rule in self.rules, rule
        self.obs.append((rule, key, bool(ok), where, detail, path or []))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def skip(self, key, why):
        self.declined.append("%s: %s" % (key, why))


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == pid and e.get("status") == "known":
                out[(e["rule"], e["key"])] = e
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    try:
        fx = F.load()
        ctx = Ctx(pid, fx, tier)
        mod = importlib.import_module("gsa.rules." + pid.lower())
        mod.run(ctx)
        per = {}
        for r, k, ok, w, d, p in ctx.obs:
            per.setdefault(r, [0, 0])
            per[r][0] += 1
            per[r][1] += ok
        viol = [o for o in ctx.obs if not o[2]]
        kn = known(pid)
        for r, (text, floor) in ctx.rules.items():
            n = per.get(r, [0, 0])[0]
            if n < floor and all((o[0], o[1]) in kn for o in viol):
                raise Broken("rule %s matched %d instances, fewer than the %d confirmed by hand" % (r, n, floor))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    new, old = [], []
    for o in viol:
        (old if (o[0], o[1]) in kn else new).append(o)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for i, (r, k, ok, w, d, p) in enumerate(new):
        rp = "evidence/replay/%s-%d.txt" % (pid, i)
        with open(os.path.join(VERIF, rp), "w") as f:
            f.write("property %s, rule %s: %s\nconstruct: %s\nwhere: %s\n%s\n" % (pid, r, ctx.rules[r][0], k, w, d))
            f.write("".join("  %s\n" % x for x in p))
            f.write("\nTo reproduce: cd /verif && ./check %s\n" % pid)
        if i < 25:
            print("  %s: [%s] %s: %s" % (w, r, k, d))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    seen = set()
    for r, k, ok, w, d, p in old:
        if (r, k) not in seen:
            seen.add((r, k))
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, k, w, kn[(r, k)]["what"]))
    total = len(ctx.obs)
    good = total - len(viol)
    samples = []
    for r in ctx.rules:
        s = [o for o in ctx.obs if o[0] == r]
        for o in (s[:2] + [x for x in s if not x[2]][:2]):
            samples.append({"rule": r, "construct": o[1], "where": o[3], "holds": o[2], "detail": o[4][:300]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "coverage": {
            "explanation": "Static analysis of /repo's current sources (%d library sources parsed, %d function bodies, %d classes). "
                           "Every rule instance below was found and decided in this run." % (len(fx.sources), len(fx.funcs), len(fx.classes)),
            "sources": len(fx.sources), "functions": len(fx.funcs), "classes": len(fx.classes),
            "obligations": total, "discharged": good,
            "rules": {r: {"text": t, "instances": per.get(r, [0, 0])[0], "hold": per.get(r, [0, 0])[1], "confirmed_minimum": fl}
                      for r, (t, fl) in ctx.rules.items()},
            "counts": ctx.counts, "known_findings": len(old), "declined_instances": ctx.declined[:200],
            "samples": samples[:40],
        },
        "assumptions": ctx.assume,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d known findings, %d violations (%.1f s)" % (pid, total, good, len(old), len(new), time.time() - t0))
    for r, (t, fl) in ctx.rules.items():
        print("  %-18s %4d instances, %4d hold   %s" % (r, per.get(r, [0, 0])[0], per.get(r, [0, 0])[1], t[:110]))
    return 1 if new else 0
