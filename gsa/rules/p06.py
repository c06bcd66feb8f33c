"""Symmetric and conserving link contributions to the network system of equations."""
from ..focus import *
from ..par import pmap
from .p05 import entry_points, MAT, BASE, PTR, LINK

PROP = {
    "title": "Link contributions to the network are symmetric and conserve flux",
    "statement": "After any run-time call on any link, the matrix the link contributes to the network admittance matrix is symmetric (element i,j equals element j,i), as the solver's symmetric factorization, which reads only one triangle, requires. The contribution of a two-port link that carries flux between its ports is closed: it has the form [g, -g, -g, g], and its source vector is equal and opposite at the two ports, so that whatever leaves the node at one port arrives at the other whatever the solution is. A two-port capacitance link (fluid capacitors, tanks, accumulators, sublimator) has no admittance between its ports. A link with a special mode of another form (the loads-override mode of the user load switches) is back in closed form after the first step without that mode.",
    "over": ["inputs", "histories", "configurations"],
    "quant": "every concrete link class with a fixed number of ports, every run-time method that can reach its admittance matrix or source vector, every path",
    "why": "The symmetric factorization silently uses one triangle: an asymmetric or unbalanced contribution creates or destroys mass, charge or heat in one direction of flow or in one mode only, while potentials look plausible; unit tests look at a few elements of a few nominal states.",
    "files": ["core", "aspects", "core/GunnsBasicConductor.cpp", "core/GunnsBasicLink.cpp"],
    "mech": [("link contribution arrays", "GunnsBasicLink::mAdmittanceMatrix, mSourceVector"), ("symmetric factorization", "CholeskyLdu in gunns math, Gunns::solveCholesky")],
    "technique": "inductive invariant over the link's matrix and source elements, decided by value-numbering dataflow for every method of every link class",
    "note": "Elements are compared as symbolic values, so rounding does not matter. Declined: links whose number of ports is set at run time (sockets' base, selectors, multi-separators, 3-way valves delegate to other links) and GunnsElectIps. Whether g is the physically right value or non-negative is not decided.",
}
SRC = T("*", T("fld", THIS, "mSourceVector"))
CAP = {"GunnsFluidAccum", "GunnsFluidAccumGas", "GunnsFluidBalloon", "GunnsFluidCapacitor", "GunnsFluidTank", "GunnsFluidSublimator"}
# classes whose matrix is not [g,-g,-g,g] by design
OPEN = {"GunnsElectPvRegShunt": "input and output circuits are separate in shunted modes",
        "GunnsFluidEqConductor": "adds leak conductances to ground at each port"}
OPEN.update({c: "capacitance to ground" for c in CAP})
# classes whose source vector is not equal and opposite by design
UNBAL = {"GunnsElectPvRegShunt": "separate circuits", "GunnsThermoelectricDevice": "converts electrical power to heat",
         "GunnsFluidSimpleH2Redox": "reaction changes the number of moles", "GunnsFluidReactor": "reaction changes the number of moles",
         "GunnsFluidHotReactor": "reaction changes the number of moles"}
UNBAL.update({c: "capacitance to ground" for c in CAP})
UNBAL.update({c: "sorbs or condenses part of the flow" for c in (
    "GunnsFluidAdsorber", "GunnsFluidHotAdsorber", "GunnsFluidMultiAdsorber", "GunnsFluidSorptionBed", "GunnsFluidCondensingHx",
    "GunnsFluidCondensingHxSeparator", "GunnsFluidSeparatorGas")})
MODE = {"GunnsElectUserLoadSwitch": "mLoadsOverrideActive", "GunnsElectUserLoadSwitch2": "mLoadsOverrideActive"}
# more than two ports: the ports between which the link conducts
BLOCK = {"GunnsFluidPressureSensitiveValve": (0, 1), "GunnsFluidRegulatorValve": (0, 1), "GunnsFluidReliefValve": (0, 1)}
# extra values to keep apart where element values correlate with them
NO = {"GunnsElectIps": "contributions are computed in a loop over its inputs"}


def E(i):
    return T("idx", BASE, C(i))


def W(i):
    return T("idx", SRC, C(i))


class Sym(Focus):
    unroll = 16

    def __init__(self, fx, focus, n, mode):
        super().__init__(fx)
        self.focus = focus
        self.sep = tuple(E(i) for i in range(n * n)) + tuple(W(i) for i in range(n))
        self.mode = mode

    def guarded(self, loc):
        return loc is PTR or loc is BASE or loc is SRC or loc.op == "idx" and loc.a[0] in (BASE, SRC)

    def arg_focus(self, node):
        return any(n.get("k") == "fld" and n.get("n") in (MAT, "mSourceVector") for a in node.get("a", []) for n in walk(a))

    def keep(self, st):
        m = None if self.mode is None else self.truth(self.load(self.mode, st), st)
        return (st.facet, m) + tuple(self.load(x, st) for x in self.sep)


def ports(fx, cls):
    """number of ports the constructor gives the link, or None"""
    best = None
    for f in fx.methods_of.get(cls, []):
        if f.kind == "ctor" and not any(("const " + cls) in p["t"] for p in f.ps):
            an = Analysis(fx)
            an.inline = lambda fn, fr, node: fn.kind == "ctor"
            r, th = an.run(f, cls=cls)
            vs = {an.load(T("fld", THIS, "mNumPorts"), s) for v, s in r}
            n = num(vs.pop()) if len(vs) == 1 else None
            if n is not None and n >= 1:
                best = int(n)
    return best


def eq(an, x, y, st):
    return x is y or an.truth(mk("==", x, y), st) is True


def closed_entry(st, n, i, j):
    """block of ports i and j: [g,-g,-g,g], everything else zero"""
    g = E(i * n + i)
    for a in range(n):
        for b in range(n):
            if (a, b) != (i, i):
                st.env[E(a * n + b)] = C(0) if {a, b} - {i, j} else neg(g) if a != b else g
    st.env[W(j)] = neg(W(i))
    for a in range(n):
        if a not in (i, j):
            st.env[W(a)] = C(0)


def link(fx, focus, cls, n):
    out = []
    blk = BLOCK.get(cls) or ((0, 1) if n == 2 else None)
    modef = MODE.get(cls)
    mode = T("fld", THIS, modef) if modef else None
    for f in entry_points(fx, cls, focus):
        res = {}

        def note(rule, ok, detail, s):
            if rule not in res or res[rule][0] and not ok:
                res[rule] = (ok, "" if ok else detail, None if ok else s.path())

        def go(kind):
            an = Sym(fx, focus, n, mode)
            st = State()
            for i in range(n):
                for j in range(i):
                    st.env[E(i * n + j)] = E(j * n + i)
            if kind == "closed" and blk:
                s1 = State()
                closed_entry(s1, n, *blk)
                for k, v in s1.env.items():
                    if cls not in (OPEN if k.a[0] is BASE else UNBAL):
                        st.env[k] = v
            if kind == "closed" and cls in CAP:
                st.env[E(1)] = st.env[E(2)] = C(0)
            elif kind == "mode":
                st.env[E(1)] = st.env[E(2)] = neg(E(0))
            r, th = an.run(f, cls=cls, facet=None, st=st)
            for v, s in r:
                for i in range(n):
                    for j in range(i):
                        a, b = an.load(E(i * n + j), s), an.load(E(j * n + i), s)
                        note("symmetric", eq(an, a, b, s), "element %d,%d is %s but element %d,%d is %s" % (i, j, show(a)[:90], j, i, show(b)[:90]), s)
                on = modef and an.truth(an.load(mode, s), s) is not False
                if on and (kind == "closed" or f.n not in ("step", "minorStep", "buildConductance")) or kind == "mode" and on:
                    continue
                if cls in CAP:
                    a, b = an.load(E(1), s), an.load(E(2), s)
                    note("capacity", num(a) == 0 and num(b) == 0, "admittance %s between the ports" % show(a)[:90], s)
                if blk and cls not in OPEN:
                    i, j = blk
                    g, a, h = an.load(E(i * n + i), s), an.load(E(i * n + j), s), an.load(E(j * n + j), s)
                    note("closed", eq(an, neg(g), a, s) and eq(an, h, g, s), "contribution is [%s, %s; %s]" % (show(g)[:80], show(a)[:80], show(h)[:80]), s)
                    if n > 2:
                        rest = [(x, y) for x in range(n) for y in range(n) if {x, y} - {i, j}]
                        b = [(x, y) for x, y in rest if num(an.load(E(x * n + y), s)) != 0]
                        note("closed", not b, "sensed port has an admittance at %s" % (b[:1],), s)
                if blk and cls not in UNBAL and kind == "closed":
                    i, j = blk
                    w, x = an.load(W(i), s), an.load(W(j), s)
                    note("balanced", eq(an, neg(w), x, s) or eq(an, w, neg(x), s), "source vector is [%s, %s]" % (show(w)[:100], show(x)[:100]), s)

        go("closed")
        if modef and f.n in ("step", "minorStep"):
            go("mode")
        for rule, (ok, d, p) in res.items():
            out.append((rule, f.q, f.loc, ok, d, p))
    return out


def run(ctx):
    fx = ctx.fx
    ctx.rule("symmetric", "assuming the link's matrix symmetric before a call, it is symmetric after the call, on every path", 400)
    ctx.rule("closed", "a link between two ports contributes [g,-g,-g,g] after every call (special modes: after the first step without the mode)", 250)
    ctx.rule("balanced", "its source vector is equal and opposite at the two ports after every call", 230)
    ctx.rule("capacity", "a capacitance link has no admittance between its ports", 20)
    focus = reaching(fx, mentions_fields({MAT, "mSourceVector"}))

    def job(cls):
        n = ports(fx, cls)
        if cls in NO or n is None:
            return cls, n, []
        return cls, n, link(fx, focus, cls, n)
    for cls, n, res in pmap(job, list(fx.concrete(LINK))):
        if n is None or cls in NO:
            ctx.skip(cls, NO.get(cls, "number of ports is not fixed by its constructor"))
            continue
        ctx.count("link classes")
        for rule, q, where, ok, d, p in res:
            ctx.ob(rule, "%s on %s" % (q, cls) if not q.startswith(cls + "::") else q, ok, where, d, p)
