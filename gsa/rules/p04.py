"""Configuration validation: initialization accepts exactly the reviewed parameter ranges."""
import json, os
from ..absint import *
from ..par import pmap
from ..facts import VERIF

PROP = {
    "title": "Initialization accepts exactly the valid parameter ranges",
    "statement": "For every model whose initialization restricts a configuration, input or argument value to a range (or a pointer to non-null, or two values to an order such as minimum below maximum, or forbids a combination such as a trip limit on the wrong side of its reset), initialization throws for every value outside the accepted range and completes for values inside it when the rest of the data is valid. The accepted ranges are those of the released models: none may be widened, narrowed, shifted to another parameter, made conditional or skipped.",
    "over": ["inputs", "configurations"],
    "quant": "every restricted parameter of every initialization function and every value of it, in combination with every value of the others",
    "why": "Each test tries one bad value per parameter, usually far outside the range, with all other parameters nominal; boundary values, swapped parameters and checks that became conditional on another parameter are not sampled.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils/math/approximation"],
    "mech": [("validate() functions called by initialize(), throwing TsInitializationException", "core/GunnsBasicLink.cpp and every model")],
    "technique": "interval and relational dataflow to the normal exits of every initialization function, compared with a reviewed range table",
    "note": "Accepted set per parameter = hull of the intervals at all normal exits (validators and bases inlined); relations must be known true at every normal exit; forbidden combinations must leave no normal exit when assumed at entry. Element-wise checks of containers are outside the table. NaN is not considered.",
}
BIN = ("+", "-", "*.", "/", "%", "<", "<=", "==", "!=")
TABLE = os.path.join(VERIF, "gsa/tables/validation.json")


class Val(Analysis):
    max_depth = 14

    def inline(self, fn, fr, node):
        return fn.file.startswith(("core", "aspects", "gunns-ts", "ms-utils/int", "ms-utils/math/MsMath")) or self.fx.is_a(fn.c or "", "TsApproximation")


def entries(fx):
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if f.c and f.body and f.n in ("initialize", "init") and not f.file.startswith("ms-utils/parsing"):
            yield f


def objs(f):
    m = {}
    for i, p in enumerate(f.ps):
        m[T("obj", p["n"] or "arg%d" % i)] = i
        m[T("sym", p["n"] or "arg%d" % i)] = i
    return m


def enc(t, om):
    """Term over the arguments as plain data, or None."""
    if t in om:
        return ["@", om[t], t.op]
    if t.op == "c":
        return ["c", t.a[0]]
    if t.op not in ("fld", "*", "<", "<=", "==", "!=", "!", "+", "-", "*.", "%", "/", "neg", "call"):
        return None
    out = [t.op]
    some = False
    for x in t.a:
        if isinstance(x, Term):
            e = enc(x, om)
            if e is None:
                return None
            some = True
            out.append(e)
        else:
            out.append(["s", x])
    return out if some else None


def dec(e, f):
    if e[0] == "@":
        p = f.ps[e[1]]
        return T(e[2], p["n"] or "arg%d" % e[1])
    if e[0] == "c":
        return C(e[1])
    a = [x[1] if x[0] == "s" else dec(x, f) for x in e[1:]]
    if e[0] in BIN and len(a) == 2:
        return mk(e[0], a[0], a[1])     # operand order is canonical per run
    if e[0] == "neg":
        return neg(a[0])
    return T(e[0], *a)


def text(e, f=None):
    return show(dec(e, f))


def exits(an, f, conj=()):
    st = State()
    if conj:
        for c, want in conj:
            st = an.assume(c, want, st)
            if st is None:
                return [], []
    return an.run(f, cls=f.c, st=st)


def hull(an, r, t):
    x = None
    for v, s in r:
        i = an.interval(t, s)
        x = i if x is None else x.hull(i)
    return x


def close(a, b):
    return a == b or (abs(a) != INF and abs(b) != INF and abs(a - b) <= 1e-12 * max(abs(a), abs(b)))


def ivtext(x):
    return "%s%g, %g%s%s" % ("(" if x[1] else "[", x[0], x[2], ")" if x[3] else "]", " excluding %s" % x[4] if x[4] else "")


def pack(x):
    f = lambda v: "inf" if v == INF else "-inf" if v == -INF else v
    return [f(x.lo), bool(x.lo_o), f(x.hi), bool(x.hi_o), sorted(x.ne)]


def unpack(p):
    g = lambda v: float(v) if isinstance(v, str) else v
    return [g(p[0]), p[1], g(p[2]), p[3], p[4]]


def exists(fx, f, e):
    """the argument path still names fields of the classes it goes through"""
    if e[0] == "fld":
        return exists(fx, f, e[1]) and any(g.get("n") == e[2][1] for g in ALLF(fx))
    return all(exists(fx, f, x) for x in e[1:] if isinstance(x, list) and x and x[0] != "s") if e[0] not in ("@", "c") else True


def ALLF(fx):
    if not hasattr(fx, "_allf"):
        fx._allf = [g for c in fx.classes.values() for g in c.fields]
    return fx._allf


def key(f):
    return "%s|%s" % (f.q, ",".join(p["t"].replace("const ", "").replace(" &", "").replace(" *", "*") for p in f.ps))


def decide(fx, f, tab):
    out = []
    an = Val(fx)
    r, th = exits(an, f)
    base = f.q
    for e, want in tab["accept"]:
        if not exists(fx, f, e):
            out.append(("skip", text(e, f)))
            continue
        t = dec(e, f)
        h = hull(an, r, t)
        w = unpack(want)
        name = "%s: %s" % (base, text(e, f))
        if h is None:
            out.append(("range", name, False, "initialization never completes"))
            continue
        g = [h.lo, bool(h.lo_o), h.hi, bool(h.hi_o), sorted(h.ne)]
        ok = close(g[0], w[0]) and close(g[2], w[2]) and (g[1] == w[1] or abs(g[0]) == INF) and (g[3] == w[3] or abs(g[2]) == INF) and \
            [p for p in g[4] if g[0] <= p <= g[2]] == [p for p in w[4] if w[0] <= p <= w[2]]
        out.append(("range", name, ok, "accepts %s, the valid range is %s" % (ivtext(g), ivtext(w))))
    for e in tab["relations"]:
        if not exists(fx, f, e):
            out.append(("skip", text(e, f)))
            continue
        c = dec(e, f)
        ok = bool(r) and all(an.truth(c, s) is True for v, s in r)
        out.append(("relation", "%s: %s" % (base, text(e, f)), ok, "initialization can complete although this does not hold"))
    for conj, flips in tab["reject"]:
        if not all(exists(fx, f, e) for e, w in conj):
            out.append(("skip", str(conj)))
            continue
        cs = [(dec(e, f), w) for e, w in conj]
        nm = " and ".join(("" if w else "not ") + text(e, f) for e, w in conj)
        an2 = Val(fx)
        r2, t2 = exits(an2, f, cs)
        out.append(("forbidden", "%s: %s" % (base, nm), not r2 and bool(t2), "initialization can complete with this combination"))
        for i in flips:
            cs2 = list(cs)
            cs2[i] = (cs2[i][0], not cs2[i][1])
            an3 = Val(fx)
            r3, t3 = exits(an3, f, cs2)
            out.append(("forbidden", "%s: allowed when %snot %s" % (base, "" , nm.split(" and ")[i] + " (others as forbidden)"), bool(r3),
                        "initialization rejects a valid combination"))
    return out


def run(ctx):
    fx = ctx.fx
    ctx.rule("range", "the values of the parameter with which initialization can complete are exactly the reviewed range", 550)
    ctx.rule("relation", "the order between two parameters holds whenever initialization completes", 60)
    ctx.rule("forbidden", "initialization cannot complete with the forbidden combination, and can without it", 20)
    table = json.load(open(TABLE))
    fs = [f for f in entries(fx) if key(f) in table]
    if len(fs) < 0.8 * len(table):
        raise Broken("only %d of %d tabled initialization functions exist" % (len(fs), len(table)))
    for f, res in zip(fs, pmap(lambda f: decide(fx, f, table[key(f)]), fs)):
        ctx.count("initialization functions")
        for o in res:
            if o[0] == "skip":
                ctx.skip(f.q, "parameter no longer exists: " + o[1])
            else:
                ctx.ob(o[0], o[1], o[2], f.loc, "" if o[2] else o[3])
