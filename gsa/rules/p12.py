"""Parameter transfer: constructors and initialization carry every parameter to its own attribute."""
import json, os
from ..absint import *
from ..par import pmap
from ..facts import VERIF, Broken
from .p04 import enc, dec, exists, key, objs, ALLF

PROP = {
    "title": "Every parameter reaches its own attribute unchanged",
    "statement": "Constructors carry every argument, and initialization every configuration datum, input datum and argument that a model keeps, into the attribute that stands for it, unchanged: not dropped, exchanged with another parameter, scaled, clamped, overwritten afterwards or stored only under some condition. Configuration and input data objects hold exactly the arguments they were constructed with, a copy-constructed one exactly the data of the original, and after every successful initialization each attribute that takes its value directly from a parameter holds exactly that parameter's value.",
    "over": ["inputs", "configurations"],
    "quant": "every constructor with arguments and every initialization function, every attribute that takes a parameter's value directly, every value of all the parameters and every successful return",
    "why": "The tests initialize each model from one or two nominal data sets, often with equal or default values for several parameters, and check a handful of attributes; an exchange of equal values, a lost base-class argument or a transfer conditional on another parameter is not seen.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("constructor initializer lists of config and input data classes, and initialize() chains down to the base classes", "core/GunnsBasicLink.cpp and every model")],
    "technique": "interprocedural symbolic value propagation of constructor and initialization arguments to the attributes at every normal exit, compared with a reviewed transfer table",
    "note": "Attributes computed from parameters, element-wise copies of containers and arrays, and transfers that depend on a mode are outside the table. GunnsSuperNetworkBase::initialize and GunnsFluidEvaporation::initialize are not analysed (too many paths); the base-class initializers they call are.",
}

SLOW = ("GunnsSuperNetworkBase::initialize", "GunnsFluidEvaporation::initialize")
TABLE = os.path.join(VERIF, "gsa/tables/transfer.json")


class Tr(Analysis):
    max_depth = 14

    def inline(self, fn, fr, node):
        return fn.file.startswith(("core", "aspects", "gunns-ts", "ms-utils"))


def entries(fx):
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if not f.c or not f.body and not f.inits or f.file.startswith("ms-utils/parsing"):
            continue
        if f.q in SLOW:
            continue
        if f.n in ("initialize", "init") or f.n == "operator=" and len(f.ps) == 1:
            yield f
        elif f.kind == "ctor" and f.ps and (f.c.endswith("Data") or not (len(f.ps) == 1 and f.ps[0]["t"].replace("const ", "").replace(" &", "").strip() == f.c)):
            yield f


def path(loc):
    """attribute path of a location of this, or None"""
    if loc is THIS:
        return []
    if loc.op == "fld":
        p = path(loc.a[0])
        return None if p is None else p + [loc.a[1]]
    if loc.op == "idx" and num(loc.a[1]) is not None:
        p = path(loc.a[0])
        return None if p is None else p + ["[%d" % num(loc.a[1])]
    return None


def leaf(e):
    if e[0] == "@":
        return True
    return e[0] in ("fld", "*", "idx") and leaf(e[1])


def exits(fx, f):
    an = Tr(fx)
    st = State()
    if f.n == "operator=":      # from another object
        st = an.assume(mk("==", T("addr", T("obj", f.ps[0]["n"] or "arg0")), T("addr", THIS)), False, st) or st
    return an, an.run(f, cls=f.c, st=st)[0]


def transfer(fx, f):
    an, out = exits(fx, f)
    om = objs(f)
    res = {}
    for r, s in out:
        cur = {}
        for loc in s.env:
            if loc.op == "alias":       # objects such as names, copied whole
                loc = loc.a[0]
            p = path(loc)
            if p:
                v = an.load(loc, s)
                e = enc(v, om)
                if e is not None and leaf(e):
                    cur[".".join(p)] = e
        res = cur if not res and r is out[0][0] and s is out[0][1] else {k: v for k, v in res.items() if cur.get(k) == v}
    return res


def run(ctx):
    fx = ctx.fx
    ctx.rule("transfer", "the attribute holds exactly its parameter on every normal return", 5500)
    tab = json.load(open(TABLE))
    fs = [f for f in entries(fx) if key(f) in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d tabled constructors and initialization functions exist" % (len(fs), len(tab)))
    for f, res in zip(fs, pmap(lambda f: decide(fx, f, tab[key(f)]), fs)):
        ctx.count("constructors" if f.kind == "ctor" else "initialization functions")
        for attr, what, bad in res:
            if what is None:
                ctx.skip(f.q, "no longer exists: " + attr)
            else:
                ctx.ob("transfer", "%s: %s" % (f.q, attr), bad is None, f.loc,
                       "" if bad is None else "holds %s instead of %s on a normal return" % (bad, what))


def decide(fx, f, want):
    """[(attribute, parameter or None if either is gone, what it holds instead or None)]"""
    an, out = exits(fx, f)
    if not out:
        raise Broken("no normal exit in %s" % f.q)
    names = {g["n"] for b, g in fx.all_fields(f.c)}
    allf = {g.get("n") for g in ALLF(fx)}
    res = []
    for attr, e in sorted(want.items()):
        ps = attr.split(".")
        if ps[0] not in names or any(p not in allf for p in ps if p[0] != "[") or not exists(fx, f, e):
            res.append((attr, None, None))
            continue
        loc = THIS
        for p in ps:
            loc = T("idx", loc, C(int(p[1:]))) if p[0] == "[" else T("fld", loc, p)
        t = dec(e, f)
        bad = None
        for r, s in out:
            v = an.load(loc, s)
            if v != t and an.truth(mk("==", v, t), s) is not True:
                bad = show(v)
                break
        res.append((attr, show(t), bad))
    return res


def learn(fx):
    fs = list(entries(fx))
    tab = {}
    for f, r in zip(fs, pmap(lambda f: transfer(fx, f), fs)):
        if r:
            tab[key(f)] = r
    return tab
