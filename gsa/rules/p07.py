"""Network assembly: the system of equations is the sum of the links' contributions, and the solution goes back to every link."""
from ..focus import *
from .p05 import LINK

PROP = {
    "title": "The system of equations is exactly the sum of the link contributions",
    "statement": "When the solver builds the network system it clears the whole system matrix and source vector and then adds every link's contribution of every port exactly once, at the rows and columns of the nodes the link's ports are mapped to, leaving out exactly the entries of the ground node: system[node(i), node(j)] is the sum over all links of link[i, j], and source[node(i)] the sum of the links' source[i], whatever the links, their order and the port mapping are. The map from link elements to system elements is rebuilt on every path that changes a link's port mapping. After the solution every link port receives the potential of the node it is mapped to, and zero for the ground node, and every node receives its potential.",
    "over": ["inputs", "histories", "configurations"],
    "quant": "all paths and all iterations of the assembly and output loops (any number of links and ports), every link method that changes the port mapping",
    "why": "A contribution lost, counted twice or put at the wrong row appears only for some topology (link order, grounded port, last port, re-mapped port); tests use a handful of small networks.",
    "files": ["core/Gunns.cpp", "core/GunnsBasicLink.cpp"],
    "mech": [("assembly", "Gunns::buildAdmittanceMatrix, Gunns::buildSourceVector"), ("link to system map", "GunnsBasicLink::updateAdmittanceMap, setPort"),
             ("solution output", "Gunns::outputPotentialVector")],
    "technique": "symbolic value-numbering of the stores in the assembly loops with induction-variable summaries; typestate of the link's map",
    "note": "The later conditioning of the assembled matrix (minimum diagonal for isolated nodes) and the solver's own overrides of the potential vector are intended changes and not part of this property. Indices at run time are assumed to come from maps built by updateAdmittanceMap.",
}


def fld(n):
    return T("fld", THIS, n)


SYS, SV, PV = T("*", fld("mAdmittanceMatrix")), T("*", fld("mSourceVector")), T("*", fld("mPotentialVector"))


def mention(t, xs):
    if t in xs:
        return True
    return isinstance(t, Term) and any(mention(a, xs) for a in t.a if isinstance(a, (Term,)))


def root_fields(t, out=None):
    out = set() if out is None else out
    if isinstance(t, Term):
        if t.op == "fld":
            out.add(t.a[1])
        for a in t.a:
            root_fields(a, out)
    return out


class Asm(Focus):
    def __init__(self, fx, focus):
        super().__init__(fx)
        self.focus = focus
        self.stores = []
        self.ind = {}
        self.sets = []

    def on_store(self, loc, val, node, st, fr):
        if loc.op == "idx":
            self.stores.append((loc, val, st.copy(), fr.fn, node))

    def on_opaque(self, node, fn, obj, args, st, fr):
        if node.get("n") == "setPotential":
            self.sets.append((obj, args, st.copy(), fr.fn, node))
        return None

    def on_induction(self, site, ind, x):
        for i, lo in ind:
            self.ind.setdefault(i, []).append(ind)


def loopvars(t, out=None):
    out = set() if out is None else out
    if isinstance(t, Term):
        if t.op == "phi":
            out.add(t)
        else:
            for a in t.a:
                loopvars(a, out)
    return out


def where(fn, node):
    return "%s:%s" % (fn.file, node.get("l") if isinstance(node, dict) else fn.l)


def true_facts(st):
    return [c for c, v in st.facts.items() if v is True]


def bound_ok(c, v, names):
    """c bounds the loop variable v by a size that is one of names"""
    if c.op in ("<",) and c.a[0] is v:
        return bool(root_fields(c.a[1]) & names)
    if c.op == "!=" and v in c.a:
        o = c.a[0] if c.a[1] is v else c.a[1]
        return bool(root_fields(o) & names)
    return False


def has_bound(st, v, names):
    return any(bound_ok(c, v, names) for c in true_facts(st))


def run(ctx):
    fx = ctx.fx
    ctx.rule("cleared", "the first contribution is added to a system element that was cleared in this build, by a loop over the whole array", 2)
    ctx.rule("sum", "each store adds the link's element to the system element its map names", 2)
    ctx.rule("all", "the loops visit every link and every element or port of it, from the first, one by one", 4)
    ctx.rule("ground", "an element is left out exactly when it is mapped to the ground node", 2)
    ctx.rule("map", "element i,j of a link is mapped to row node(i), column node(j), or to ground when either port is grounded", 2)
    ctx.rule("remap", "the map is rebuilt after every change of a link's port mapping", 2)
    ctx.rule("output", "every link port receives the potential of its node, or zero for the ground node; every node its potential", 3)
    direct = reaching(fx, mentions_fields({"mLinkAdmittanceMatrices", "mLinkSourceVectors", "mLinkPotentialVectors"}))
    focus = {u for u in direct if fx.funcs[u].q.startswith("Gunns::")}
    LINKS = {"mNumLinks", "mLinks"}

    def solver(name):
        f = fx.method("Gunns", name)
        if f is None:
            raise Broken("Gunns::%s is gone" % name)
        an = Asm(fx, focus)
        an.run(f, cls="Gunns")
        return an
    an = solver("buildAndSolveSystem")
    for what, base, contrib, mapf, sizes in (("system matrix", SYS, "mLinkAdmittanceMatrices", {"mLinkAdmittanceMaps"}, {"mSize", "mLinkNumPorts", "mNumPorts"}),
                                              ("source vector", SV, "mLinkSourceVectors", {"mLinkNodeMaps"}, {"mLinkNumPorts", "mNumPorts"})):
        adds = [e for e in an.stores if e[0].a[0] is base and contrib in root_fields(e[1])]
        if not adds:
            ctx.ob("sum", what, False, "core/Gunns.cpp:1", "no store adds the link contributions")
            continue
        w = where(adds[0][3], adds[0][4])
        NS = fld("mNetworkSize")
        S = mk("*", NS, NS, "i") if base is SYS else NS
        bad = clr = None
        ok_clear = False
        general = []
        gbad = abad = None
        for loc, val, st, fn, node in adds:
            m = loc.a[1]
            if val.op != "+":
                bad = bad or (loc, val)
                continue
            c = [x for x in val.a if contrib in root_fields(x)]
            o = [x for x in val.a if contrib not in root_fields(x)]
            if len(val.a) != 2 or len(c) != 1 or len(o) != 1:
                bad = bad or (loc, val)
                continue
            c, o = c[0], o[0]
            # what it is added to
            if o.op == "relem":
                fa = o.a[0]
                good = fa.op == "forall" and num(fa.a[1]) == 0 and num(fa.a[3]) == 0 and "mNetworkSize" in root_fields(fa.a[2]) and o.a[1] is m
                if base is SYS and not (fa.op == "forall" and fa.a[2].op == "*." and fa.a[2].a[0] is fa.a[2].a[1] or "mNetworkSize" in root_fields(fa.a[2]) and fa.a[2].op == "*."):
                    good = False
                if good:
                    ok_clear = True
                else:
                    clr = clr or show(o)
            elif o is loc:
                clr = clr or "the value left by the previous build"
            elif not (loc.a[0] in walkterms(o)):
                bad = bad or (loc, val)
            # what is added: contrib[link][k] at map[link][k]
            ci = indices(c)
            mi = indices(m)
            if not mapf <= root_fields(m) or ci is None or mi is None or ci != mi or len(ci) != 2:
                bad = bad or (loc, val)
                continue
            lk, k = ci
            if lk.op == "phi" and k.op == "phi":
                general.append((lk, k, st))
                tf = true_facts(st)
                if not (has_bound(st, lk, LINKS) and has_bound(st, k, sizes)):
                    abad = abad or "no loop bound on all links and elements"
                allowed = 0
                for x in tf:
                    if not mention(x, {lk, k, m, c}):
                        continue
                    if bound_ok(x, lk, LINKS) or bound_ok(x, k, sizes) or rangefact(x, m, S) or x.op in ("!=", "<") and c in x.a and any(num(y) == 0 for y in x.a):
                        continue
                    gbad = gbad or "left out unless %s" % show(x)[:200]
                if base is SYS and an.truth(mk("<=", C(0), m), st) is not True and an.truth(mk("!=", m, C(-1)), st) is not True and an.truth(mk("<", C(-1), m), st) is not True:
                    gbad = gbad or "a grounded element (negative map) is added"
                if base is SV and not any(x.op in ("<", "!=") and m in x.a and "mNetworkSize" in root_fields(x) for x in tf):
                    gbad = gbad or "the ground node is added"
        ctx.ob("sum", what, bad is None and general, w, "" if bad is None else "%s = %s" % (show(bad[0])[:150], show(bad[1])[:250]))
        ctx.ob("cleared", what, ok_clear and clr is None, w, "" if clr is None else "contributions are added to %s" % clr[:200])
        ctx.ob("ground", what, gbad is None and general, w, gbad or "")
        for i, nm in ((0, "links"), (1, "elements")):
            vs = {g[i] for g in general}
            zero = any(num(indices(e[0].a[1])[i]) == 0 for e in adds if indices(e[0].a[1]))
            ctx.ob("all", "%s: %s" % (what, nm), vs and zero and abad is None and all(v in an.ind for v in vs), w,
                   "" if vs and zero and not abad else abad or "the loop does not start at the first or does not advance one by one")

    # --- output of the solution
    an = solver("outputPotentialVector")
    outs = [e for e in an.stores if "mLinkPotentialVectors" in root_fields(e[0])]
    bad = None
    gen = zero = False
    for loc, val, st, fn, node in outs:
        li = indices(loc)
        if li is None or len(li) != 2:
            bad = bad or (loc, val)
            continue
        if num(val) == 0:
            gm = [x for x in true_facts(st) if "mLinkNodeMaps" in root_fields(x) and "mNetworkSize" in root_fields(x) and x.op in ("<=", "==")]
            zero = True
            if not gm:
                bad = bad or (loc, val)
            continue
        vi = val.a[1] if val.op == "idx" and val.a[0] is PV else None
        if vi is None or indices(vi) != li or "mLinkNodeMaps" not in root_fields(vi):
            bad = bad or (loc, val)
        elif li[0].op == "phi" and li[1].op == "phi":
            gen = all(x in an.ind for x in li) and has_bound(st, li[0], LINKS) and has_bound(st, li[1], {"mLinkNumPorts"})
    w = where(outs[0][3], outs[0][4]) if outs else "core/Gunns.cpp:1"
    ctx.ob("output", "link ports", bad is None and gen, w, "" if bad is None and gen else "%s = %s" % (show(bad[0])[:150], show(bad[1])[:150]) if bad else "not every port of every link is written")
    ctx.ob("output", "grounded ports", zero, w, "" if zero else "a grounded port does not receive zero")
    bad, gen = None, False
    for obj, args, st, fn, node in an.sets:
        oi = indices(obj)
        if oi and root_fields(oi[-1]) == {"mNetworkSize"} and oi[-1].op == "fld":
            if not args or num(args[0]) != 0:
                bad = bad or (obj, args)
            continue
        if not oi or len(args) < 1 or not (args[0].op == "idx" and args[0].a[0] is PV and args[0].a[1] is oi[-1]):
            bad = bad or (obj, args)
        elif oi[-1].op == "phi":
            gen = has_bound(st, oi[-1], {"mNetworkSize"}) and oi[-1] in an.ind
    ctx.ob("output", "nodes", bad is None and gen, where(an.sets[0][3], an.sets[0][4]) if an.sets else w,
           "" if bad is None and gen else "%s <- %s" % (show(bad[0])[:100], show(bad[1][0])[:100]) if bad else "not every node receives its potential")

    # --- link to system map
    f = fx.method(LINK, "updateAdmittanceMap")
    if f is None:
        raise Broken("GunnsBasicLink::updateAdmittanceMap is gone")
    an = Asm(fx, reaching(fx, mentions_fields({"mMap"})))
    an.run(f, cls=LINK)
    N, NM = fld("mNumPorts"), T("*", fld("mNodeMap"))
    evs = [e for e in an.stores if "mMap" in root_fields(e[0])]
    bad = None
    n1 = n2 = 0
    for loc, val, st, fn, node in evs:
        k = loc.a[1]
        vs = loopvars(k) | loopvars(val)
        if num(val) is not None:
            if num(val) >= 0:
                bad = bad or "an element is mapped to %s" % show(val)
            n1 += 1
            continue
        n2 += 1
        nm = [x for x in walkterms(val) if x.op == "idx" and x.a[0] is NM]
        sizes = [x for x in walkterms(val) if x.op == "call" and "GroundNode" in str(x.a[0]) or x.op == "fld" and x.a[1] in ("mNetworkSize",)]
        if len(nm) == 1:
            nm = nm * 2
        if len(nm) != 2 or not sizes:
            bad = bad or "an element is mapped to %s" % show(val)[:150]
            continue
        good = False
        for a, b in (nm, nm[::-1]):
            if val is mk("+", mk("*", a, sizes[0], "i"), b, "i"):
                x, y = a.a[1], b.a[1]
                if same_index(an, k, x, y, N):
                    good = True
        if not good:
            bad = bad or "%s = %s" % (show(loc)[:120], show(val)[:150])
        for a in nm:
            if not any(x.op in ("!=", "<") and a in x.a for x in true_facts(st)):
                bad = bad or "a grounded port is mapped into the system (%s)" % show(val)[:120]
        for x in true_facts(st):
            if mention(x, set(nm)) and not (x.op in ("!=", "<") and any(s in x.a for s in sizes)):
                bad = bad or "an element is left out unless %s" % show(x)[:120]
    ctx.ob("map", "position", bad is None and n2, f.loc, bad or "")
    ctx.ob("map", "ground", n1, f.loc, "" if n1 else "no element is mapped to ground")

    # --- the map is rebuilt when the ports change
    upd = fx.method(LINK, "updateAdmittanceMap").u
    NMB = NM

    class Stale(Focus):
        def guarded(self, loc):
            return loc is NMB or loc.op == "idx" and loc.a[0] is NMB

        def on_store(self, loc, val, node, st, fr):
            if loc.op == "idx" and loc.a[0] is NMB and self.load(loc, st) is not val:
                st.facet = True

        def on_enter(self, fn, fr, st):
            if fn.u == upd:
                st.facet = False

        def inline(self, fn, fr, node):
            return fn.u == upd or fn.u in self.focus
    foc = reaching(fx, mentions_fields({"mNodeMap"}))
    n = 0
    for cls in [LINK] + list(fx.all_derived(LINK)):
        for g in fx.methods_of.get(cls, []):
            if g.kind in ("ctor", "dtor") or not any(k.get("k") in ("fld",) and k.get("n") == "mNodeMap" for k in walk(g.body)):
                continue
            if g.acc not in ("pub", "public") and g.n not in ("setPort",) and not g.d.get("virt"):
                continue
            a = Stale(fx)
            a.focus = foc
            r, th = a.run(g, cls=cls, facet=False)
            bads = [s for v, s in r if s.facet]
            if any(s.facet is not None for v, s in r) and (bads or writes(g)):
                n += 1
                ctx.ob("remap", g.q, not bads, g.loc, "returns with a changed port mapping and the old map" if bads else "", bads[0].path() if bads else None)


def writes(g):
    return any(k.get("k") == "asg" and "mNodeMap" in lvalue_fields(k["x"]) for k in walk(g.body)) or \
        any(k.get("k") == "call" and k.get("n") in ("setPort", "updateAdmittanceMap") for k in walk(g.body))


def walkterms(t):
    yield t
    for a in t.a:
        if isinstance(a, Term):
            yield from walkterms(a)


def indices(t):
    """[i, j] of an access path x[i]->..[j]"""
    out = []
    while isinstance(t, Term) and t.op in ("idx", "*", "fld", "h", "relem"):
        if t.op == "idx":
            out.append(t.a[1])
            t = t.a[0]
        elif t.op in ("*", "fld"):
            t = t.a[0]
        else:
            t = t.a[1]
    return out[::-1]


def rangefact(x, m, S):
    """a fact about m that holds for every element of the system (0 <= m < S)"""
    if x.op in ("<", "<=") and x.a[0] is not m and x.a[1] is m:
        return num(x.a[0]) is not None and num(x.a[0]) < 0 or x.op == "<=" and num(x.a[0]) == 0
    if x.op in ("<", "<=") and x.a[0] is m:
        return x.a[1] is S or x.op == "<=" and x.a[1] is mk("-", S, C(1), "i")
    if x.op == "!=" and m in x.a:
        o = x.a[0] if x.a[1] is m else x.a[1]
        return o is S or num(o) is not None and num(o) < 0
    return False


def same_index(an, k, x, y, N):
    """k is the position x*N+y of a row-major N by N matrix"""
    want = mk("+", mk("*", x, N, "i"), y, "i")
    if k is want:
        return True
    for v in loopvars(k):
        for group in an.ind.get(v, ()):
            start = dict(group)
            for j, lo in group:
                # v - j stays what it was at the start of the loop
                if j is not v and k is v and mk("+", j, mk("-", start[v], lo, "i"), "i") is want:
                    return True
    return False
