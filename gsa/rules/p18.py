"""P18: operating modes determine the values of outputs."""
import json, os, re
from ..absint import *
from ..par import pmap
from ..facts import VERIF, Broken
from . import p04, p12, p14, p16
from .p16 import attribute, locof, enc, dec, leaf, says, timed, entries

PROP = {
    "title": "Operating modes determine outputs: off, tripped, held and overridden devices",
    "statement": "The mode of a device (powered, enabled, tripped, switched off, held, stuck, reverse biased, load override, edit, demand or solver mode, regulator and valve states ...) determines its outputs whatever its other states and inputs are: while a mode flag or mode enumeration has a given value, every function sets the attributes and the result that the released code sets to a fixed value in this mode (a disabled, unpowered or tripped converter or regulator has no source, no voltage and no power; an open switch passes no current; an overridden bus presents the override) to exactly this value, and leaves alone the attributes that the released code leaves alone in this mode (a held accumulator does not change), on every return, in absence of (other) malfunctions; malfunction flags are modes, too (a failed-off device has no output, a stuck one does not move).",
    "over": ["inputs", "histories"],
    "quant": "every function of the core, aspects, ms-utils and TS models, every flag, enumeration and mode argument it depends on, each of their values, every attribute it writes, and every path",
    "why": "A mode must dominate every other state. Tests set each mode in one nominal state, where the other conditions are already satisfied, so a mode check that is lost or made dependent on something else shows in other states only.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("mode flags, trip states, switch positions, override flags and solver modes", "attributes of type bool and enumerations of every model class")],
    "technique": "abstract interpretation of each function with one mode fixed at entry (constants, copies and unchanged attributes at all normal returns, helpers inlined), against a reviewed table of mode effects",
    "note": "The table (gsa/tables/modes.json) holds what each mode alone determines in the reviewed tree; combinations of modes, computed (not constant or copied) outputs and flags of other objects behind pointers are not decided. That malfunctions are applied and inert at all is P11.",
}
TABLE = os.path.join(VERIF, "gsa", "tables", "modes.json")


class Mode(p16.Lim):
    def __init__(self, *a):
        super().__init__(*a)
        self.seen = set()
        self.thr = {}

    def assume(self, c, want, st):
        d = c.a[0] if c.op == "!" else c
        if d.op in ("<", "<=", "==", "!="):
            for x, y in (d.a, d.a[::-1]):
                if num(y) is not None and abs(num(y)) < 1e9:
                    self.thr.setdefault(x, set()).add(num(y))
        return super().assume(c, want, st)

    def interval(self, t, st):
        if t.op == "fld" or t.op == "sym":
            self.seen.add(t)
        return super().interval(t, st)


def modes(fx, t, cls):
    """{name: value} of the modes when the location is a flag or enumeration of the object"""
    path = []
    while t.op == "fld":
        path.append(t.a[1])
        t = t.a[0]
    if t is not THIS or not path:
        return None
    c = cls
    fd = None
    for n in reversed(path):
        r = fx.field(c, n) if c else None
        if not r or not r[1]:
            return None
        fd = r[1]
        c = fd["t"].replace("const ", "").strip()
    return kinds(fx, fd["t"])


def kinds(fx, t):
    t = t.replace("const ", "").strip()
    if t == "bool":
        return {"false": 0, "true": 1}
    e = fx.enums.get(t)
    return dict(map(tuple, e["v"])) if e and len(e["v"]) <= 16 else None


def run1(fx, f, inv, fix=None):
    an = Mode(fx, inv, True)
    an.nominal, an.cand = True, {}
    st = State()
    for i, p in enumerate(f.ps):
        if p["n"].lower() in ("dt", "timestep", "time_step", "steptime"):
            st.iv[T("sym", "p#%d" % i)] = Iv(0, False, INF, True)
    for l, v in (fix or {}).items():
        st.iv[l] = point(v)
    outs, args = p16.values(fx, an, f, st)
    return an, outs, args


def facts(an, outs, args, names):
    """{attribute: [kind, value]} that hold at every normal exit"""
    syms = {a: i for i, a in enumerate(args) if a is not None}
    res = {}
    for n in names:
        c = e = None
        first = True
        for d, s in outs:
            v = d.get(n)
            if v is None and n != "return":
                v = an.load(locof(n), s)
            i = an.interval(v, s) if v is not None else None
            k = i.lo if i is not None and i.lo == i.hi and abs(i.lo) < INF else None
            x = enc(v, syms) if v is not None else None
            x = x if x and leaf(x) and v.op != "c" else None
            if first:
                c, e, first = k, x, False
            else:
                c, e = c if c == k else None, e if e == x else None
        if c is not None:
            res[n] = ["c", c]
        elif e is not None:
            res[n] = ["same"] if n != "return" and e == enc(locof(n), syms) else ["v", e]
    return res


def flags(fx, an, f, args):
    out = []
    for t in an.seen:
        if t.op == "fld" and modes(fx, t, f.c):
            out.append((name(t), t, modes(fx, t, f.c)))
    for i, p in enumerate(f.ps):
        if args[i] is not None and args[i] in an.seen and kinds(fx, p["t"]):
            out.append(("p%d" % i, args[i], kinds(fx, p["t"])))
    return sorted(out, key=lambda x: x[0])


def ranges(fx, an, f, args):
    """(name, location, {label: interval}) of the numbers that the function compares with constants"""
    out = []
    for t, cs in an.thr.items():
        cs = sorted(cs)
        if len(cs) > 3 or modes(fx, t, f.c):
            continue
        n = None
        if t.op in ("fld", "idx"):
            n = attribute(fx, t, f.c)
        elif t in args:
            i = args.index(t)
            n = None if f.ps[i]["n"].lower() in ("dt", "timestep", "time_step", "steptime") or kinds(fx, f.ps[i]["t"]) else "p%d" % i
        if n is None or not chosen(n):
            continue
        ty = f.ps[args.index(t)]["t"] if t in args else path_type(fx, n, f.c)
        whole = (ty or "").replace("const ", "") not in ("double", "float")
        d = {">%.17g" % cs[-1]: Iv(cs[-1], True, INF, True)}
        if not whole or cs[0] > 1:
            d["<%.17g" % cs[0]] = Iv(-INF, True, cs[0], True)
        for x in cs:
            if x == 0 or abs(x) > 1e-6:
                d["=%.17g" % x] = point(x)
        for x, y in zip(cs, cs[1:]):
            if y - x > (1 if whole else 1e-6):
                d["%.17g..%.17g" % (x, y)] = Iv(x, True, y, True)
        out.append((n, t, d))
    return sorted(out, key=lambda x: x[0])


def path_type(fx, n, c):
    t = None
    for x in n.split("."):
        if x == "*":
            t = t[:-1].strip()
        elif x[0] != "[":
            fd = (fx.field(c, x) or (0, None))[1] if c else None
            if fd is None:
                return None
            t = fd["t"].replace("const ", "").split("[")[0].strip()
        c = t if t in fx.classes else None
    return t


def span(label):
    if ".." in label:
        x, y = label.split("..")
        return Iv(float(x), True, float(y), True)
    x = float(label[1:])
    return point(x) if label[0] == "=" else Iv(-INF, True, x, True) if label[0] == "<" else Iv(x, True, INF, True)


def situation(fx, f, m):
    """{location: interval} of a tabled mode ("flag=VALUE", "number:<0", joined by " & "), None when it no longer exists"""
    fix = {}
    for x in m.split(" & ") if m else []:
        if ":" in x and x.split(":")[-1][:1] in "<>=-0123456789." and "::" not in x:
            n, v = x.rsplit(":", 1)
            t, ms = resolve(fx, f, n)
            if t is None:
                return None
            fix[t] = span(v)
        else:
            n, v = x.rsplit("=", 1)
            t, ms = resolve(fx, f, n)
            if v not in ms:
                return None
            fix[t] = point(ms[v])
    return fix


def name(t):
    return (name(t.a[0]) + "." if t.a[0] is not THIS else "") + t.a[1]


SKIP = ("mInitFlag", "netSolver.", "netIsSubNetwork", "areNodesRegistered", "isBitEnabled", "malfTotalFail", "mFirstPassFlag", "mNodeMapLocked")


PORTS = ("mNodes", "mPotentialVector", "mAdmittanceMatrix", "mSourceVector", "mNodeMap", "mOverrideVector", "mPortDirections")


def chosen(n):
    """elements are only decided in arrays indexed by port: one element of a collection stands for a loop"""
    if any(x[0] not in PORTS for x in re.findall(r"(\w+)((\.\*)?\.\[)", n)):
        return False
    return not any(n.startswith(x) or n.endswith("." + x) for x in SKIP)


def learn1(fx, f, inv):
    an, outs, args = run1(fx, f, inv)
    names = set().union(*[d for d, s in outs]) if outs else set()
    base = facts(an, outs, args, names)
    res = {}
    for n, t, ms in flags(fx, an, f, args):
        if not chosen(n) or n == "mUserPortSetControl" and f.c != "GunnsBasicLink":
            continue
        for m, v in sorted(ms.items()):
            a2, o2, g2 = run1(fx, f, inv, {t: v})
            r = facts(a2, o2, g2, names) if o2 else {}
            r = {k: x for k, x in r.items() if base.get(k) != x and k != n}
            if r:
                res["%s=%s" % (n, m)] = r
    return res


def learn(fx):
    inv = p14.config_invariants(fx)
    tab = {}
    fs = list(entries(fx))
    pub = {}
    for f, r in zip(fs, pmap(lambda f: timed(lambda: learn1(fx, f, inv)), fs)):
        if r:
            tab[p04.key(f)] = r
            if f.acc == "pub":
                for m, d in r.items():
                    for a, x in d.items():
                        pub.setdefault((f.c, m, a, str(x)), f.q)
    for f in fs:        # a helper is decided in its public callers where possible
        k = p04.key(f)
        if k in tab and f.acc != "pub":
            tab[k] = {m: {a: x for a, x in d.items() if a == "return" or (f.c, m, a, str(x)) not in pub} for m, d in tab[k].items()}
            tab[k] = {m: d for m, d in tab[k].items() if d}
            if not tab[k]:
                del tab[k]
    return tab


def resolve(fx, f, n):
    """the location of a tabled flag, None when it no longer exists"""
    if n[0] == "p" and n[1:].isdigit():
        i = int(n[1:])
        return (T("sym", "p#%d" % i), kinds(fx, f.ps[i]["t"]) or {}) if i < len(f.ps) and not f.ps[i].get("ref") else (None, {})
    t = locof(n)
    return t, modes(fx, t, f.c) or {}


def check(fx, f, tab, inv):
    out = []
    for m, want in sorted(tab.items()):
        n, v = m.rsplit("=", 1)
        t, ms = resolve(fx, f, n)
        if v not in ms:
            continue
        an, outs, args = run1(fx, f, inv, {t: ms[v]})
        if not outs:
            continue
        got = facts(an, outs, args, set(want))
        for a, x in sorted(want.items()):
            g = got.get(a)
            ok = g == x or g is not None and g[0] == x[0] == "c" and abs(g[1] - x[1]) <= 1e-9 * abs(x[1])
            what = "is left alone" if x[0] == "same" else "is %g" % x[1] if x[0] == "c" else "is the value of " + says(x[1])
            now = "is not on some path" if g is None else "is left alone" if g[0] == "same" else "is %g" % g[1] if g[0] == "c" else "is the value of " + says(g[1])
            who = "argument %s" % n[1:] if n[0] == "p" and n[1:].isdigit() else n
            out.append(("%s %s while %s is %s" % ("the result" if a == "return" else a, what, who, v), ok, now))
    return out


def run(ctx):
    fx = ctx.fx
    ctx.rule("mode", "the attribute (or result) has the tabled value at every normal return in this mode", 300)
    tab = json.load(open(TABLE))
    inv = p14.config_invariants(fx)
    fs = [f for f in entries(fx) if p04.key(f) in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d tabled functions exist" % (len(fs), len(tab)))
    for f, res in zip(fs, pmap(lambda f: timed(lambda: check(fx, f, tab[p04.key(f)], inv)), fs)):
        ctx.count("functions")
        if res is None:
            ctx.skip(f.q, "analysis took too long")
            continue
        for what, ok, why in res:
            ctx.ob("mode", "%s: %s" % (f.q, what), ok, "%s:%d" % (f.file, f.l), "" if ok else why)
