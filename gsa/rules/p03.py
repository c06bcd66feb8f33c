"""Initialisation typestate: the flag behind isInitialized() is true exactly after a completed initialisation."""
from ..absint import *

PROP = {
    "title": "A model reports initialized exactly when its initialization completed",
    "statement": "For every model that answers whether it is initialized: whatever its earlier state, after its initialization function (for network nodes and two-phase user load links: the second phase, which completes initialization) returns normally it reports initialized, and after that function throws for any reason - including an error found by a base or derived class late in the sequence, or on a repeated initialization - it reports not initialized. A freshly default-constructed model reports not initialized, and nothing outside initialization changes the report to initialized.",
    "over": ["inputs", "configurations", "histories"],
    "quant": "every initialization entry point of every class that reports its initialization state, every configuration and input value, every throwing path, and any prior state of the object",
    "why": "Tests try the nominal initialization and a few invalid values on a fresh object; a flag left set by a base class before a derived check throws, or left over from an earlier initialization, needs the exact failing combination.",
    "files": ["core/GunnsBasicLink.cpp", "core/GunnsBasicNode.cpp", "core/GunnsFluidNode.cpp", "core/Gunns.cpp", "aspects", "gunns-ts-models", "ms-utils/math/approximation", "ms-utils/properties"],
    "mech": [("reset of the flag before validation, set as the last step", "all initialize()/init() functions")],
    "technique": "typestate analysis of the initialization flag over all paths, exceptional exits included (bases and helpers inlined)",
    "note": "Every (entry point, exit kind) pair is decided with an unknown entry flag. Calls whose body is in the library are inlined and their throws followed; exceptions thrown from the C++ standard library or the message backend are not modelled.",
}

# the initialization of a node is completed by validate(), which the solver calls on every node
NODES = "GunnsBasicNode"
# first phases that never touch the flag: initLoad() of the link, or the concrete load's initialize, completes
FIRST_PHASE = {"GunnsElectUserLoad::initialize", "GunnsElectConstantPowerUserLoad::initialize",
               "GunnsElectResistiveUserLoad::initialize", "UserLoadBase::initialize"}


def flag_of(fx, q):
    """(field) behind isInitialized() of class q"""
    f = fx.method(q, "isInitialized", 0)
    if f is None or not f.body:
        return None
    rets = [n for n in walk(f.body) if n.get("k") == "ret"]
    if len(rets) != 1 or not rets[0].get("e"):
        return None
    e = rets[0]["e"]
    while e["k"] in ("cast", "conv", "paren") and e.get("e"):
        e = e["e"]
    return e["n"] if e["k"] == "fld" else None


class Init(Analysis):
    max_depth = 14

    def __init__(self, fx, flag):
        super().__init__(fx)
        self.flag = T("fld", THIS, flag)
        self.stored = 0

    def inline(self, fn, fr, node):
        return fn.file.startswith(("core", "aspects", "gunns-ts", "ms-utils/math/approx", "ms-utils/int")) or (
            fn.file.startswith("ms-utils/properties") and self.fx.is_a(fn.c or "", "TsApproximation"))

    def keep(self, st):
        v = st.env.get(self.flag)
        if v is not None and v.op == "fld" and v.a[1] == self.flag.a[1]:
            return "copy"       # the flag of the object copied from
        return v.a[0] if v is not None and v.op == "c" else "T"

    def on_store(self, loc, val, node, st, fr):
        if loc is self.flag:
            self.stored += 1


NAME = {0: "false", 1: "true", "T": "unknown", "copy": "that of another object"}


def run(ctx):
    fx = ctx.fx
    ctx.rule("completes", "initialization that returns normally leaves the flag true (node initialize: false until validate)", 150)
    ctx.rule("failure", "initialization that throws leaves the flag false", 100)
    ctx.rule("ctor", "a constructor leaves the flag false, or true only by running the initialization", 150)
    ctx.rule("setter", "outside initialization no function can turn the flag true", 1)
    ctx.assume += ["standard library calls and message output do not throw"]
    entries = set()
    for c in sorted(fx.classes.values(), key=lambda c: c.q):
        fl = flag_of(fx, c.q)
        if not fl:
            continue
        ctx.count("classes with an initialization report")
        for f in fx.methods_of.get(c.q, []):
            isinit = f.n in ("initialize", "init", "initPoly") or f.n.startswith("init") and f.acc != "priv"
            node_val = fx.is_a(c.q, NODES) and f.n == "validate"
            if f.kind == "ctor":
                an = Init(fx, fl)
                r, th = an.run(f, cls=c.q)
                if f.d.get("cp"):
                    continue
                vals = {an.keep(s) for v, s in r}
                runs = any(n.get("k") == "call" and n.get("n", "").startswith("init") for n in walk(f.body)) if f.body else False
                want = {1} if runs else {0}
                ok = vals <= ({0, 1} if runs else {0}) or vals == {"copy"} or base_runs(fx, f, vals)
                ctx.ob("ctor", "%s(%d args)" % (f.q, len(f.ps)), ok, f.loc,
                       "the flag is %s when the constructor returns" % "/".join(NAME[v] for v in vals))
                continue
            if not (isinit or node_val):
                continue
            an = Init(fx, fl)
            r, th = an.run(f, cls=c.q)
            entries.add(f.u)
            if not an.stored and (f.n not in ("initialize", "init") or f.q in FIRST_PHASE):
                continue
            want = 0 if fx.is_a(c.q, NODES) and not node_val else 1
            key = "%s(%d)" % (f.q, len(f.ps))
            bad = [s for v, s in r if an.keep(s) != want]
            ctx.ob("completes", key, not bad, f.loc,
                   "" if not bad else "returns normally with the flag %s" % NAME[an.keep(bad[0])], bad[0].path() if bad else None)
            seen = {}
            for t, s, e, fr in th:
                k = (fr.fn.q, e["l"])
                seen[k] = seen.get(k, True) and an.keep(s) == 0
                if an.keep(s) != 0:
                    seen.setdefault(("v",) + k, (an.keep(s), fr.fn.file, t, s))
            for k, ok in sorted((k, o) for k, o in seen.items() if k[0] != "v"):
                d = seen.get(("v",) + k)
                ctx.ob("failure", "%s throws in %s" % (key, k[0]), ok, "%s:%s" % (d[1], k[1]) if d else f.loc,
                       "" if ok else "exception %s leaves the flag %s" % (d[2], NAME[d[0]]), d[3].path() if d else None)
    # who may set the flag
    flags = {}
    for c in fx.classes.values():
        fl = flag_of(fx, c.q)
        if fl:
            o, g = fx.field(c.q, fl)
            flags.setdefault((o, fl), 0)
    for f in fx.funcs.values():
        if not f.c or not f.body:
            continue
        for n in walk(f.body):
            if n.get("k") == "asg" and n["x"]["k"] == "fld":
                o, g = fx.field(n["x"].get("c") or f.c, n["x"]["n"]) if (n["x"].get("c") or f.c) in fx.classes else (None, None)
                if (o, n["x"]["n"]) in flags:
                    y = n["y"]
                    true = not (y["k"] == "lit" and y.get("v") in (0, False, "0", "false"))
                    ok = f.u in entries or not true or f.d.get("ca") or f.n in ("restart",) or only_from(fx, f, entries, set())
                    ctx.ob("setter", "%s sets %s" % (f.q, n["x"]["n"]), ok, "%s:%s" % (f.file, n["l"]),
                           "turns the report to initialized outside initialization")


def base_runs(fx, f, vals):
    """a constructor whose base constructor ran the initialization"""
    if vals - {0, 1}:
        return False
    for b in fx.all_bases(f.c):
        for g in fx.methods_of.get(b, []):
            if g.kind == "ctor" and g.body and any(n.get("k") == "call" and n.get("n", "").startswith("init") for n in walk(g.body)):
                return True
    return False


def only_from(fx, f, entries, seen):
    """every caller is an initialization entry (or such a helper itself)"""
    if f.u in seen:
        return True
    seen.add(f.u)
    cs = callers(fx).get(f.u, [])
    return bool(cs) and all(g.u in entries or g.kind == "ctor" or only_from(fx, g, entries, seen) for g in cs)


def callers(fx):
    if not hasattr(fx, "_callers"):
        m = {}
        for g in fx.funcs.values():
            if g.body:
                for n in walk(g.body):
                    if n.get("k") == "call" and n.get("u"):
                        m.setdefault(n["u"], []).append(g)
        fx._callers = m
    return fx._callers
