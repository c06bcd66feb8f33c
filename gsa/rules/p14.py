"""P14: divisions and roots that the code keeps inside their domain stay there on every path."""
import json, os, math, signal
from ..absint import *
from ..par import pmap
from ..facts import VERIF, Broken
from . import p04, p12

PROP = {
    "title": "Protected divisions and roots never leave their domain",
    "statement": "Where the code protects a division, remainder, square root, logarithm or power against an argument outside its domain, the protection is effective for every input and history: on every path that reaches the operation the divisor is not zero, the argument of a square root (or the base of a power with a fractional or variable exponent) is not negative, and the argument of a logarithm is positive. The protection may be a guard on the path (dt, density, molecular weight, flux, sum of fractions, difference of potentials ... compared with zero or an epsilon), a clamp of the operand (max with an epsilon, limitRange, innerLimit), or the validated range of the configuration datum that the operand was initialized from, also when guard and operation are in different functions. So a zero time step, an empty or zero-density fluid, equal potentials, a vanishing sum or a malfunction scale of zero gives a defined result and never an infinity or NaN.",
    "over": ["inputs", "histories", "configurations"],
    "quant": "every method of the library that performs such an operation, itself or through what it calls, every value of its inputs and attributes within the validated ranges of the attributes that only initialization writes",
    "why": "A division by zero shows only for the one input that makes the operand vanish (dt = 0, an empty tank, ground fluid, exactly equal potentials, an inert mixture); the tests use nominal values and no test enables floating-point traps.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils/math"],
    "mech": [("guards and clamps before every division", "core/GunnsFluidUtils.cpp, core/GunnsFluidConductor.cpp, every model"), ("limit functions", "ms-utils/math/MsMath.hh")],
    "technique": "interprocedural interval and non-zero dataflow over every division, remainder, sqrt, log and pow, with class invariants from the validated parameter ranges, against a reviewed list of the protected operations",
    "note": "Overflow to infinity of finite non-zero operands is out of scope, as are operations whose operand only physics keeps away from zero (listed as open in gsa/tables/domain.json); obligations prefixed 'physical' additionally assume that fluid density, temperature, molecular weight, specific heat and viscosity are positive. Assumes the validated ranges, which are P04's obligation.",
}

TABLE = os.path.join(VERIF, "gsa", "tables", "domain.json")
SQRT = {"sqrt": (0, False), "log": (0, True), "log10": (0, True), "pow": (0, False)}
DIRS = ("core", "aspects", "gunns-ts", "ms-utils/math", "ms-utils/properties")
# physical properties of a fluid or compound: positive (heat capacity ratio: greater than one)


def config_invariants(fx):
    """{class: {attribute: interval}}: attributes that only initialization writes, with the validated range of their parameter"""
    val = json.load(open(p04.TABLE))
    tra = json.load(open(p12.TABLE))
    writers = {}
    for f in fx.funcs.values():
        for n in walk([f.body] + [i.get("e") for i in f.inits or [] if i]):
            if n.get("k") in ("asg", "inc"):
                x = n["x"] if n["k"] == "asg" else n["e"]
                if x.get("k") == "fld":
                    writers.setdefault((x.get("c"), x["n"]), set()).add(f)
            elif n.get("k") in ("call", "ctor"):
                for a in n.get("a", []):
                    pass
            elif n.get("k") == "un" and n.get("op") == "&" and n["e"].get("k") == "fld":
                writers.setdefault((n["e"].get("c"), n["e"]["n"]), set()).add(f)
    inv = {}
    for f in fx.funcs.values():
        k = p04.key(f)
        if f.n not in ("initialize", "init") or k not in val or k not in tra:
            continue
        acc = {json.dumps(e): p for e, p in val[k]["accept"]}
        for a, e in tra[k].items():
            p = acc.get(json.dumps(e))
            if p is None or "." in a:
                continue
            own, fd = fx.field(f.c, a)
            w = writers.get((own, a), ())
            if all(g.kind == "ctor" or g.n in ("initialize", "init", "operator=") for g in w):
                lo, lo_o, hi, hi_o, ne = p04.unpack(p)
                inv.setdefault(f.c, {})[a] = Iv(lo, bool(lo_o), hi, bool(hi_o), frozenset(ne))
    return inv


POSITIVE = {"mMWeight": 0, "mDensity": 0, "mAdiabaticIndex": 1, "mSpecificHeat": 0, "mViscosity": 0, "mTemperature": 0, "mPrandtlNumber": 0, "mThermalConductivity": 0, "mCriticalTemperature": 0}


class Div(Analysis):
    max_depth = 6
    fold_globals = True

    def __init__(self, fx, inv, physical):
        super().__init__(fx)
        self.inv = inv
        self.assume_physical = physical
        self.sites = {}
        self._ic = {}

    def inline(self, fn, fr, node):
        return fn.file.startswith(DIRS)

    def cinv(self, cls):
        r = self._ic.get(cls)
        if r is None:
            r = {}
            for b in reversed([cls] + self.fx.all_bases(cls)):
                r.update(self.inv.get(b, {}))
            self._ic[cls] = r
        return r

    def interval(self, t, st):
        x = super().interval(t, st)
        y = None
        if t.op == "fld" and self.assume_physical and t.a[1] in POSITIVE and t.a[0] is not THIS:
            y = Iv(POSITIVE[t.a[1]], True, INF, True)
        elif t.op == "fld" and t.a[0] is THIS:
            y = self.cinv(self.cls0).get(t.a[1])
        elif t.op == "+" and num(t.a[1]) is None:
            p, q = self.interval(t.a[0], st), self.interval(t.a[1], st)
            y = Iv(p.lo + q.lo, p.lo_o or q.lo_o, p.hi + q.hi, p.hi_o or q.hi_o)
        elif t.op == "-":
            p, q = self.interval(t.a[0], st), self.interval(t.a[1], st)
            y = Iv(p.lo - q.hi, p.lo_o or q.hi_o, p.hi - q.lo, p.hi_o or q.lo_o)
        elif t.op == "/":
            p, q = self.interval(t.a[0], st), self.interval(t.a[1], st)
            if p.lo >= 0 and q.lo >= 0:
                y = Iv(0, p.lo_o or p.lo > 0, INF, True)
        elif t.op == "call" and t.a[0] == "sqrt":
            p = self.interval(t.a[1], st)
            y = Iv(math.sqrt(p.lo) if 0 <= p.lo < INF else 0, p.lo_o and p.lo >= 0, INF, True)
        elif t.op == "call" and t.a[0] == "exp":
            y = Iv(0, True, INF, True)
        elif t.op == "call" and t.a[0] == "pow" and self.interval(t.a[1], st).lo >= 0:
            p = self.interval(t.a[1], st)
            y = Iv(0, p.lo > 0 or p.lo_o, INF, True)
        elif t.op == "call" and t.a[0] == "fabs":
            p = self.interval(t.a[1], st)
            if not p.has(0):
                y = Iv(0, True, INF, True)
        return x if y is None else x.meet(y)

    def nonzero(self, d, st):
        if not self.interval(d, st).has(0):
            return True
        if d.op == "*.":
            return self.nonzero(d.a[0], st) and self.nonzero(d.a[1], st)
        if d.op in ("neg", "/"):
            return self.nonzero(d.a[0], st)
        if d.op == "call" and d.a[0] in ("fabs", "sqrt"):
            return self.nonzero(d.a[1], st)
        return self.truth(mk("==", d, C(0)), st) is False

    def note(self, kind, fr, node, t, ok, st):
        k = kind + " " + names(t)
        o = self.sites.get(k)
        if o is None or o[0] and not ok:
            self.sites[k] = (ok, "%s:%s" % (fr.fn.file, node.get("l")), show(t), str(self.interval(t, st)))

    def on_node(self, node, terms, st, fr):
        if node.get("k") in ("bin", "asg") and node.get("op") in ("/", "/=", "%", "%="):
            d = terms[1]
            if num(d) is None or num(d) == 0:
                self.note(node["op"][0], fr, node, d, self.nonzero(d, st), st)

    def on_call(self, e, fn, obj, args, st, fr):
        n = e.get("n")
        if fn is None and not e.get("c") and n in SQRT and args:
            v = self.load(args[0].a[0], st) if args[0].op == "addr" else args[0]
            i = self.interval(v, st)
            lo, op = SQRT[n]
            if n == "pow":
                y = num(args[1])
                if num(v) is not None or y is not None and y == int(y) and y >= 0:
                    return None
            self.note(n, fr, e, v, i.lo > lo or i.lo == lo and (not op or i.lo_o), st)
        return None


def names(t, out=None):
    top = out is None
    out = set() if top else out
    if t.op == "fld":
        out.add(t.a[1])
    elif t.op == "call" or t.op == "ret":
        out.add(str(t.a[0]).split("::")[-1])
    for x in t.a:
        if isinstance(x, Term):
            names(x, out)
    return ",".join(sorted(out)) if top else out


def entries(fx):
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if f.body and f.kind != "dtor" and f.file.startswith(DIRS) and f.q not in p12.SLOW:
            yield f


class Slow(Exception):
    pass


def sites(fx, f, inv):
    """{assumption, kind and operand: (in domain, place, operand, interval)} for the method with everything it calls; None if too slow"""
    def h(*a):
        raise Slow
    Iv.WATCH = frozenset([0])
    res = {}
    signal.signal(signal.SIGALRM, h)
    signal.alarm(200)
    try:
        for physical in (False, True):
            an = Div(fx, inv, physical)
            an.cls0 = f.c or ""
            an.run(f, cls=f.c)
            for k, v in an.sites.items():
                if not physical:
                    res[k] = v
                elif not res.get(k, (False,))[0]:
                    res["physical: " + k] = v
            if all(v[0] for v in an.sites.values()):
                break
    except Slow:
        return None
    finally:
        signal.alarm(0)
    return res


def run(ctx):
    fx = ctx.fx
    ctx.rule("domain", "the divisor is not zero, the argument of sqrt, log or pow is in its domain, on every path", 1100)
    tab = json.load(open(TABLE))
    inv = config_invariants(fx)
    fs = [f for f in entries(fx) if p04.key(f) in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d tabled methods exist" % (len(fs), len(tab)))
    ctx.count("attributes with a validated range", sum(len(v) for v in inv.values()))
    for f, res in zip(fs, pmap(lambda f: sites(fx, f, inv), fs)):
        ctx.count("methods")
        if res is None:
            ctx.skip(f.q, "analysis took too long")
            continue
        ok, open_ = map(set, tab[p04.key(f)])
        for k, (good, where, what, iv) in sorted(res.items()):
            if k in open_:
                continue
            ctx.ob("domain", "%s: %s" % (f.q, k), good, where, "" if good else "operand %s is in %s on some path" % (what, iv))
        for k in sorted(ok - set(res)):
            ctx.skip(f.q, "no longer computed: " + k)


def learn(fx):
    inv = config_invariants(fx)
    fs = list(entries(fx))
    tab = {}
    for f, r in zip(fs, pmap(lambda f: sites(fx, f, inv), fs)):
        if r and any(v[0] for v in r.values()):
            tab[p04.key(f)] = [sorted(k for k, v in r.items() if v[0]), sorted(k for k, v in r.items() if not v[0])]
    return tab
