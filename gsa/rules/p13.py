"""Restart after a checkpoint load: transient attributes take their reset values, nothing else changes."""
import json, os
from ..elem import *
from ..par import pmap
from ..facts import VERIF, Broken

PROP = {
    "title": "Restart resets every transient attribute and nothing else",
    "statement": "Restarting a node, a link or any other model with a restart function (restart, restartModel) after a checkpoint load gives every transient attribute that the restart covers (rates, timers, cached conductances, previous-pass values, one-shot edit and user commands, solver statistics; those of its base classes included) its fixed reset value, or the value copied from loaded state, whatever it held before; and it changes nothing else: configuration, malfunctions and loaded state are left as the checkpoint set them. Restarting the network restarts every node except the ground node exactly once and then every link exactly once, zeroes the ground node, and leaves the network reporting initialized exactly when none of them failed; a failure is reported, not swallowed.",
    "over": ["histories", "configurations"],
    "quant": "every restart function of every model, every attribute and array element it resets (its base classes' included), every prior state and every normal return",
    "why": "The tests call restart on an object whose attributes mostly still hold their constructed values, and compare a few of them; an attribute that is reset only in some states, a dropped base-class call or loaded state overwritten by the restart is invisible there.",
    "files": ["core", "aspects", "gunns-ts-models"],
    "mech": [("restart()/restartModel() overrides calling their base class first", "core/GunnsBasicLink.cpp and every model")],
    "technique": "interprocedural value and frame dataflow of every restart function to its normal exits against a reviewed reset table, and a typestate analysis of the network restart",
    "note": "Which attributes a restart covers is the reviewed table (arrays included); attributes recomputed from others by loops, calls or other objects are only covered by the frame part.",
}
TABLE = os.path.join(VERIF, "gsa/tables/restart.json")


class Rs(Analysis):
    max_depth = 14

    def inline(self, fn, fr, node):
        return fn.file.startswith(("core", "aspects", "gunns-ts", "ms-utils"))


def entries(fx):
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if f.c and f.body and f.n in ("restart", "restartModel") and not f.file.startswith("ms-utils/simulation/hs"):
            yield f


def enc(t):
    if t is THIS:
        return ["T"]
    if t.op == "c":
        return ["c", t.a[0]]
    if t.op not in ("fld", "*", "idx", "call", "+", "-", "*."):
        return None
    out = [t.op]
    for x in t.a:
        e = enc(x) if isinstance(x, Term) else ["s", x]
        if e is None:
            return None
        out.append(e)
    return out


def dec(e):
    if e[0] == "T":
        return THIS
    if e[0] == "c":
        return C(e[1])
    a = [x[1] if x[0] == "s" else dec(x) for x in e[1:]]
    return mk(e[0], *a) if e[0] in ("+", "-", "*.") else T(e[0], *a)


def leaf(e):
    return e[0] in ("T", "c") or e[0] in ("fld", "*") and leaf(e[1])


def names(e, out):
    if e[0] == "fld":
        out.add(e[2][1])
    for x in e[1:]:
        if isinstance(x, list):
            names(x, out)
    return out


def path(loc):
    """attribute path of a location reached from this, dereferences and elements dropped"""
    if loc is THIS:
        return ()
    if loc.op in ("fld", "*", "idx") and isinstance(loc.a[0], Term):
        p = path(loc.a[0])
        return None if p is None else p + ((loc.a[1],) if loc.op == "fld" else ())
    return None


def changed(an, s):
    out = set()
    for k, v in s.env.items():
        loc = k.a[0] if k.op in ("hv", "alias", "range") else k
        p = path(loc)
        if not p or k is loc and (v is loc or v.op == "phi" and v.a and v.a[-1] is loc and False):
            continue
        if k.op == "alias" and v is loc:
            continue
        out.add(".".join(p))
    return out


def final(an, s):
    """{encoded location: encoded value} and {encoded array: [encoded bound, constant]}"""
    val, rng = {}, {}
    for k, v in s.env.items():
        if k.op == "range":
            if path(k.a[0]) and v.op == "forall" and v.a[1] is C(0) and v.a[3].op == "c":
                b, h = enc(k.a[0]), enc(v.a[2])
                if b and h:
                    rng[json.dumps(b)] = [h, v.a[3].a[0]]
        elif k.op in ("fld", "idx") and path(k):
            e, x = enc(k), enc(an.load(k, s))
            if e and x and leaf(x):
                val[json.dumps(e)] = x
    return val, rng


def one(fx, f):
    an = Rs(fx)
    ex, thr = an.run(f, cls=f.c)
    val = rng = None
    ch = set()
    for r, s in ex:
        v, g = final(an, s)
        val = v if val is None else {k: x for k, x in val.items() if v.get(k) == x}
        rng = g if rng is None else {k: x for k, x in rng.items() if g.get(k) == x}
        ch |= changed(an, s)
    return val or {}, rng or {}, sorted(ch)


def learn(fx):
    fs = list(entries(fx))
    return {f.q: r for f, r in zip(fs, pmap(lambda f: one(fx, f), fs))}


def run(ctx):
    fx = ctx.fx
    ctx.rule("reset", "the attribute holds its reset value on every normal return", 400)
    ctx.rule("network", "the network's restart restarts every node once and then every link once", 1)
    ctx.rule("frame", "restart changes only the attributes it is meant to reset or recompute", 90)
    tab = json.load(open(TABLE))
    fs = [f for f in entries(fx) if f.q in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d restart functions of the table exist" % (len(fs), len(tab)))
    for f, res in zip(fs, pmap(lambda f: decide(fx, f, tab[f.q]), fs)):
        ctx.count("restart functions")
        for rule, what, ok, why in res:
            if ok is None:
                ctx.skip(f.q, "no longer exists: " + what)
            else:
                ctx.ob(rule, "%s: %s" % (f.q, what), ok, f.loc, "" if ok else why)


    network(ctx, fx)


L, M = T("sym", "L"), T("sym", "M")
NL, NN = (T("fld", THIS, n) for n in ("mNumLinks", "mNumNodes"))
NS = mk("-", NN, C(1), "i")


class NetRestart(Ghost):
    """what Gunns::restart does to link L, node M and the ground node"""
    max_depth = 10

    def __init__(self, fx):
        super().__init__(fx)
        self.watch = (L, M)

    def bounds(self):
        return ((L, NL), (M, NS), (M, NN))

    def guarded(self, loc):
        return loc.op == "fld" and loc.a[1] in ("mNumLinks", "mNumNodes", "mNetworkSize")

    def inline(self, fn, fr, node):
        return fn.q.startswith("Gunns::")

    def on_call(self, e, fn, obj, args, st, fr):
        n = e.get("n")
        if obj is None:
            return None
        i = self.index_of(obj, "mLinks")
        if i is not None and n == "restart":
            out = []
            for is_l, s in self.split_index(i, L, st):
                if is_l:
                    self.need("network", self.g(s, "node") == 1, "a link is restarted before the nodes", e, s, fr)
                    self.need("network", self.g(s, "link") == 0, "a link is restarted twice", e, s, fr)
                    self.set(s, link=1)
                self.set(s, any=1)
                self.may_throw(e, s, fr)
                out.append((T("ret", n, "p13"), s))
            return out
        i = self.index_of(obj, "mNodes")
        if i is not None and n in ("restart", "resetContentState", "setPotential"):
            out = []
            for is_m, s in self.split_index(i, M, st):
                g = dict(s.facet)
                if n == "restart":
                    if is_m:
                        self.need("network", g["node"] == 0, "a node is restarted twice", e, s, fr)
                        self.need("network", not g["any"], "a node is restarted after the links", e, s, fr)
                        self.set(s, node=1)
                    elif i is NS:
                        self.viol("network", "the ground node is restarted", e, s, fr)
                    self.may_throw(e, s, fr)
                elif i is NS:
                    self.set(s, **({"content": 1} if n == "resetContentState" else {"pot": int(bool(args) and num(args[0]) == 0)}))
                else:
                    self.viol("network", "a node other than the ground node is zeroed", e, s, fr)
                out.append((T("ret", n, "p13"), s))
            return out
        return None

    def may_throw(self, e, s, fr):
        x = s.copy()
        self.set(x, exc=1)
        self.pending.append((None, x, e, fr))


def network(ctx, fx):
    f = fx.method("Gunns", "restart")
    if f is None:
        raise Broken("Gunns::restart is gone")
    an = NetRestart(fx)
    st = an.start(State(facet=ghost(dict(node=0, link=0, any=0, content=0, pot=0, exc=0))))
    st.env[T("fld", THIS, "mNetworkSize")] = NS
    r, th = an.run(f, cls="Gunns", st=st)

    class Fr:
        fn = f
    at = {"l": f.l}
    for v, s in r:
        g = dict(s.facet)
        an.need("network", g["node"] == 1 or g["exc"], "a node is not restarted", at, s, Fr)
        an.need("network", not g["exc"], "the failure of a link or node to restart is swallowed", at, s, Fr)
        an.need("network", g["link"] == 1 or g["exc"], "a link is not restarted", at, s, Fr)
        an.need("network", g["content"] == 1 and g["pot"] == 1 or g["exc"], "the ground node is not zeroed", at, s, Fr)
        an.need("network", num(an.load(T("fld", THIS, "mInitFlag"), s)) == 1, "the restarted network does not report initialized", at, s, Fr)
    for t, s, *_ in th:
        an.need("network", num(an.load(T("fld", THIS, "mInitFlag"), s)) == 0, "the network reports initialized after a failed restart", at, s, Fr)
    an.need("network", bool(r), "restart never completes", at, r[0][1] if r else State(), Fr)
    an.report(ctx, "Gunns::restart", f.loc, ["network"])


def decide(fx, f, want):
    val, rng, allowed = want
    an = Rs(fx)
    ex, thr = an.run(f, cls=f.c)
    if not ex:
        raise Broken("no normal exit in %s" % f.q)
    if not hasattr(fx, "_fn"):
        fx._fn = {g["n"] for c in fx.classes.values() for g in c.fields}
    res = []
    for k, x in sorted(val.items()):
        e = json.loads(k)
        loc, t = dec(e), dec(x)
        if not names(x, names(e, set())) <= fx._fn:
            res.append(("reset", show(loc), None, ""))
            continue
        bad = [v for v in [an.load(loc, s) for r, s in ex if not (an.load(loc, s) is t or an.truth(mk("==", an.load(loc, s), t), s) is True)]]
        res.append(("reset", show(loc), not bad, "holds %s instead of %s after a restart" % (show(bad[0])[:60], show(t)) if bad else ""))
    for k, (h, c) in sorted(rng.items()):
        e = json.loads(k)
        loc = dec(e)
        if not names(h, names(e, set())) <= fx._fn:
            res.append(("reset", show(loc), None, ""))
            continue
        ok = all(filled(an, s, loc, dec(h), c) for r, s in ex)
        res.append(("reset", "every element of %s" % show(loc), ok, "not every element holds %g after a restart" % c))
    ch = set()
    for r, s in ex:
        ch |= changed(an, s)
    bad = sorted(ch - set(allowed))
    res.append(("frame", "writes", not bad, "also changes %s" % ", ".join(bad)))
    return res


def filled(an, s, loc, h, c):
    v = s.env.get(T("range", loc))
    if v is not None and v.op == "forall" and v.a[1] is C(0) and v.a[2] is h:
        return v.a[3] is C(c)
    n = num(h)
    return n is not None and all(num(an.load(T("idx", loc, C(i)), s)) == c for i in range(int(n)))
