"""Flow transport between nodes conserves and follows the solved flow."""
from ..focus import *
from ..par import pmap
from .p05 import LINK
from .p06 import ports
from .p07 import root_fields, indices, fld

PROP = {
    "title": "Links transport exactly the solved flow, conserve it and schedule it",
    "statement": "In the flow computation and transport of a link that conserves what flows through it (basic, thermal and electrical conductors, sources, potentials and capacitors; fluid conductors, valves, pipes, fans, pumps, heat exchangers, sources, supplies, tanks and capacitors), on every path: what is taken out of nodes equals what is put into nodes, heat put into one node is taken out of the other except the heat a link itself produces, port 1 receives exactly the link's flow (mFlux, or mFlowRate of fluid links), negative for a reverse flow, and nothing is transported only when that flow is zero within a rounding limit. Sorbing, condensing and reacting links may only differ by their own sorption, condensation or reaction rate. A fluid link schedules an outflux exactly at the port it marks as its flow source, with the positive molar flow. A node's collection terms change by exactly the amount collected and are all cleared by resetFlows.",
    "over": ["inputs", "histories", "configurations"],
    "quant": "every concrete link class whose flow computation or transport reaches a node, every path of it; every node class",
    "why": "Mass, charge and energy conservation over a simulation depends on every flow path of every link in every mode and direction; unit tests check single nominal directions and mostly compare node inputs with the same formula.",
    "files": ["core", "aspects"],
    "mech": [("node collection", "GunnsBasicNode::collectInflux, collectOutflux, scheduleOutflux"), ("link transport", "GunnsBasicLink::transportFlux, GunnsFluidLink::transportFluid, transportFlows")],
    "technique": "path-sensitive effect analysis: symbolic sum of all node collection calls per path of every link class",
    "note": "Amounts are compared as linear combinations of symbolic rates; that a rate has the right physical value, and the fluid state that is carried with it, is not decided. Declined: links that convert between domains or separate streams (converters, PV, boundary and metabolic sources' own heat, sublimator, membrane, accumulators, multi-separator, thermal source, balanced PRV, equilibrium conductor, evaporation).",
}
NODE = {"collectInflux": 1, "collectOutflux": -1, "collectHeatFlux": 0}
# terms the net flow of a class may contain, by design
EXTRA = {
    "GunnsFluidAdsorber": {"mSorbtionFlowRate"}, "GunnsFluidHotAdsorber": {"mSorbtionFlowRate"},
    "GunnsFluidCondensingHx": {"mFlowRate", "mInternalFluid"}, "GunnsFluidCondensingHxSeparator": {"mFlowRate", "mInternalFluid"},
    "GunnsFluidReactor": {"mProductsFlowRate", "mReactantsFlowRate"}, "GunnsFluidHotReactor": {"mProductsFlowRate", "mReactantsFlowRate"},
    "GunnsFluidSeparatorGas": {"mSeparationRate"},
}
# heat the link itself produces
HEAT = {"GunnsFluidBalloon": "mHeatFlux", "GunnsFluidCapacitor": "mHeatFlux", "GunnsFluidTank": "mHeatFlux",
        "GunnsFluidMetabolic": "mProducedHeat", "GunnsFluidMetabolic2": "mProducedHeat", "GunnsFluidMetabolic3": "mProducedHeat"}
OPEN = {
    "GunnsElectConverterInput": "converts to its output side", "GunnsElectConverterOutput": "supplied by its input side",
    "GunnsElectDistributedIf": "flows to the other side of a distributed interface", "GunnsFluidDistributedIf": "flows to the other side of a distributed interface",
    "GunnsElectPvArray": "converts light", "GunnsElectPvRegConv": "supplied by the array", "PowerBusElect": "load bus",
    "GunnsFluidBalancedPrv": "separate inlet and regulated flows", "GunnsFluidEqConductor": "leaks to ground",
    "GunnsFluidEvaporation": "separate liquid and gas flows", "GunnsFluidFireSource": "produces fluid", "GunnsFluidSimpleH2Redox": "reaction",
    "GunnsFluidSorptionBed": "sorbs part of the flow", "GunnsFluidSourceBoundary": "boundary", "GunnsFluidSublimator": "sublimates part of the flow",
    "GunnsThermalPhaseChangeBattery": "stores heat", "GunnsThermoelectricDevice": "converts electrical power to heat",
    "GunnsFluidMultiAdsorber": "sorbs in a loop over its sorbents", "GunnsFluidAccum": "stores fluid", "GunnsFluidAccumGas": "stores fluid", "GunnsFluidMultiSeparator": "port count is not fixed",
    "GunnsThermalSource": "puts heat into nodes", "GunnsThermalHeater": "puts heat into nodes", "GunnsThermalPanel": "puts heat into nodes",
    "GunnsThermalMultiPanel": "puts heat into nodes", "GunnsFluidSelectiveMembrane": "port 2 membrane flow",
}
# flow at port 0 that is not part of the link's main flow
SIDE = {"GunnsFluidHatch": {"mDiffusiveFlowRate"}}
# schedules less by design
SCHED = {"GunnsFluidPhaseChangeSource": "condensation is drawn from a mixture, so only a pure source is scheduled", "GunnsFluidEqConductor": "",
         "GunnsFluidMetabolic3": "", "GunnsFluidSourceBoundary": "", "GunnsFluidFireSource": "", "GunnsFluidSimpleH2Redox": "",
         "GunnsFluidSublimator": "", "GunnsFluidBalancedPrv": "", "GunnsFluidDistributedIf": "", "GunnsFluidAccum": "", "GunnsFluidAccumGas": "",
         "GunnsFluidMultiSeparator": "", "GunnsFluidSelectiveMembrane": "", "GunnsFluidHeater": "carries no flow",
         "GunnsFluidTank": "stores fluid", "GunnsFluidBalloon": "stores fluid", "GunnsFluidCapacitor": "stores fluid",
         "GunnsFluid3WayValve": "delegates to its paths", "GunnsFluid3WayCheckValve": "delegates to its paths"}
LIMIT = 1e-9
DIRS = T("*", fld("mPortDirections"))


def lin(t, c=1, out=None):
    out = {} if out is None else out
    if t.op == "c":
        out[None] = out.get(None, 0) + c * t.a[0]
    elif t.op == "+":
        for a in t.a:
            lin(a, c, out)
    elif t.op == "-":
        lin(t.a[0], c, out)
        lin(t.a[1], -c, out)
    elif t.op == "neg":
        lin(t.a[0], -c, out)
    else:
        out[t] = out.get(t, 0) + c
    return out


def nz(m):
    return {k: v for k, v in m.items() if v}


def text(m):
    return " ".join("%+g*%s" % (v, show(k)[:90] if k is not None else "1") for k, v in m.items())


def port(obj):
    i = indices(obj)
    return num(i[-1]) if i and "mNodes" in root_fields(obj) else None


NP = fld("mNumPorts")


class Flow(Focus):
    max_states = 80

    def __init__(self, fx, focus):
        super().__init__(fx)
        self.focus = focus

    def guarded(self, loc):
        return loc is NP

    def inline(self, fn, fr, node):
        return super().inline(fn, fr, node) or fn.n == "checkValidPortNumber"

    def on_opaque(self, node, fn, obj, args, st, fr):
        if node.get("n") in NODE and obj is not None and args:
            st.facet = st.facet + ((node["n"], obj, args[0]),)
        return None


class Sched(Focus):
    max_states = 80

    def __init__(self, fx, focus):
        super().__init__(fx)
        self.focus = focus

    def guarded(self, loc):
        return loc is DIRS or loc.op == "idx" and loc.a[0] is DIRS

    def on_opaque(self, node, fn, obj, args, st, fr):
        if node.get("n") == "scheduleOutflux" and obj is not None and args:
            st.facet = st.facet + ((obj, args[0]),)
        return None

    def keep(self, st):
        return (st.facet, self.load(T("idx", DIRS, C(0)), st), self.load(T("idx", DIRS, C(1)), st))


def small(an, F, s):
    if num(F) is not None:
        return abs(num(F)) <= LIMIT
    i = an.interval(F, s)
    if i.lo >= -LIMIT and i.hi <= LIMIT:
        return True
    for c, v in s.facts.items():
        if v is True and c.op in ("<", "<=") and c.a[0].op == "call" and c.a[0].a[0] == "fabs" and c.a[0].a[1] is F and num(c.a[1]) is not None:
            return num(c.a[1]) <= LIMIT
    return False


def transport(fx, focus, cls, fluid):
    out = []
    for name in ("computeFlows", "transportFlows"):
        f = fx.method(cls, name)
        if f is None or f.u not in focus:
            continue
        an = Flow(fx, focus)
        st = State()
        st.env[NP] = C(ports(fx, cls) or 2)
        st.facet = ()
        r, th = an.run(f, cls=cls, facet=(), st=st)
        res = {}

        def note(rule, ok, detail, s):
            if rule not in res or res[rule][0] and not ok:
                res[rule] = (ok, "" if ok else detail, None if ok else s.path())
        extra, side = EXTRA.get(cls, set()), SIDE.get(cls, set())
        for v, s in r:
            net, heat, n0, n1 = {}, {}, {}, {}
            for k, obj, rate in s.facet:
                if NODE[k] == 0:
                    lin(rate, 1, heat)
                    continue
                lin(rate, NODE[k], net)
                p = port(obj)
                if p == 0:
                    lin(rate, NODE[k], n0)
                if p == 1:
                    lin(rate, NODE[k], n1)
            bad = {k: v for k, v in nz(net).items() if k is None or not root_fields(k) & extra}
            note("balance", not bad, "net flow into the nodes is %s" % text(bad), s)
            own = HEAT.get(cls)
            bad = {k: v for k, v in nz(heat).items() if k is None or own is None or not (own in root_fields(k) or k.op == "call" and "getHeatFlux" in str(k.a[0]))}
            note("heat", not bad, "net heat into the nodes is %s" % text(bad), s)
            if cls == "GunnsFluidHeater":
                continue            # carries heat only
            F = an.load(fld("mFlowRate" if fluid else "mFlux"), s)
            if fluid and name == "computeFlows":
                note("direction", not s.facet, "transports during the flow computation", s)
                continue
            d0 = dict(n0)
            lin(F, 1, d0)
            d0 = {k: v for k, v in nz(d0).items() if k is None or not root_fields(k) & (extra | side) - {"mFlowRate"}}
            z0 = {k: v for k, v in nz(n0).items() if k is None or not root_fields(k) & (extra | side) - {"mFlowRate"}}
            if not z0 and not d0 or not d0:
                note("direction", True, "", s)
            elif not z0:
                note("direction", small(an, F, s), "nothing is transported although the flow %s is not known to be zero" % show(F)[:100], s)
            else:
                note("direction", False, "port 0 receives %s, the flow from port 0 to port 1 is %s" % (text(z0)[:150], show(F)[:100]), s)
        for rule, (ok, d, p) in res.items():
            out.append((rule, f, ok, d, p))
    return out


def schedule(fx, focus, cls, enum):
    f = fx.method(cls, "computeFlows")
    if f is None or f.u not in focus:
        return []
    an = Sched(fx, focus)
    r, th = an.run(f, cls=cls, facet=())
    ok, d, pth = True, "", None
    for v, s in r:
        dirs = [num(an.load(T("idx", DIRS, C(i)), s)) for i in (0, 1)]
        F = an.load(fld("mFlux"), s)
        got = [{}, {}]
        bad = None
        for obj, rate in s.facet:
            p = port(obj)
            if p not in (0, 1):
                bad = "an outflux is scheduled at %s" % show(obj)[:80]
                continue
            lin(rate, 1, got[int(p)])
            if an.truth(mk("<=", C(0), rate), s) is not True:
                bad = "the outflux scheduled at port %d is not known to be positive: %s" % (p, show(rate)[:100])
        for i in (0, 1):
            g = nz(got[i])
            if g and nz(lin(F, -1 if i == 0 else 1, dict(g))):
                bad = bad or "the outflux scheduled at port %d is %s, the flux is %s" % (i, text(g)[:120], show(F)[:100])
            if bool(g) != (dirs[i] == enum["SOURCE"]):
                bad = bad or "port %d has direction %s but scheduled outflux %s" % (i, dirs[i], text(g)[:100] or "none")
        if bad is None:
            if enum["SOURCE"] in dirs:
                if dirs[1 - dirs.index(enum["SOURCE"])] != enum["SINK"]:
                    bad = "the other port is not marked as the flow sink (%s)" % dirs
            elif dirs != [enum["NONE"]] * 2 or not small(an, F, s):
                bad = "no port is marked as the flow source although the flux %s is not known to be zero" % show(F)[:100]
        if bad and ok:
            ok, d, pth = False, bad, s.path()
    return [("schedule", f, ok, d, pth)]


def run(ctx):
    fx = ctx.fx
    ctx.rule("balance", "on every path the amounts taken out of and put into nodes add up to zero, or to the link's own declared sorption or reaction rate", 58)
    ctx.rule("heat", "heat put into nodes directly adds up to zero, or is the heat the link itself produces", 58)
    ctx.rule("direction", "port 0 gives exactly the link's flow, or the flow is zero within a rounding limit", 58)
    ctx.rule("schedule", "the outflux is scheduled with its positive value at the port marked as the flow source, the other is the sink; no mark only without flux", 30)
    ctx.rule("nodes", "a node's collection terms change by exactly the collected amount and are all cleared by resetFlows", 6)
    focus = reaching(fx, lambda f: any(n.get("k") == "call" and n.get("n") in NODE for n in walk(f.body)))
    focus = {u for u in focus if fx.funcs[u].n not in NODE}
    sfocus = reaching(fx, lambda f: any(n.get("k") == "call" and n.get("n") == "scheduleOutflux" or n.get("k") == "fld" and n.get("n") == "mPortDirections" for n in walk(f.body)))
    sfocus = {u for u in sfocus if fx.funcs[u].n != "scheduleOutflux"}
    enum = enumvals(fx)
    fluids = set(fx.all_derived("GunnsFluidLink"))

    def job(cls):
        out = []
        if cls not in OPEN:
            out += transport(fx, focus, cls, cls in fluids)
        if cls in fluids and cls not in SCHED:
            out += schedule(fx, sfocus, cls, enum)
        return cls, out
    for cls, res in pmap(job, list(fx.concrete(LINK))):
        if cls in OPEN:
            ctx.skip(cls, OPEN[cls])
        for rule, f, ok, d, p in res:
            ctx.ob(rule, "%s on %s" % (f.q, cls) if f.c != cls else f.q, ok, f.loc, d, p)
    nodes(ctx)


def enumvals(fx):
    out = {}
    for d in fx.enums.values():
        names = dict(d["v"])
        if d["q"].startswith("GunnsBasicLink::") and {"NONE", "SOURCE", "SINK", "BOTH"} <= set(names):
            out = names
    if not out:
        raise Broken("the port directions are gone")
    return out


def nodes(ctx):
    fx = ctx.fx
    TERMS = {"collectInflux": ("mInfluxRate", "rate"), "collectOutflux": ("mOutfluxRate", "rate"), "scheduleOutflux": ("mScheduledOutflux", "rate")}
    ALL = {"mInfluxRate", "mOutfluxRate", "mScheduledOutflux", "mInflowHeatFlux"}
    foc = reaching(fx, mentions_fields(ALL))

    class N(Focus):
        focus = foc

        def guarded(self, loc):
            return loc.op == "fld" and loc.a[0] is THIS and loc.a[1] in ALL

        def keep(self, st):
            return (st.facet,) + tuple(self.load(fld(x), st) for x in sorted(ALL))
    for cls in sorted(set(["GunnsBasicNode"]) | set(fx.all_derived("GunnsBasicNode"))):
        for m in list(TERMS) + ["resetFlows", "collectHeatFlux"]:
            f = fx.method(cls, m)
            if f is None or f.c != cls and cls != "GunnsBasicNode" and m != "resetFlows":
                continue
            an = N(fx)
            r, th = an.run(f, cls=cls, facet=None)
            bad = None
            for v, s in r:
                for x in sorted(ALL):
                    if x == "mInflowHeatFlux" and fx.field("GunnsFluidNode", x) is None:
                        continue
                    if x == "mInflowHeatFlux" and (cls == "GunnsBasicNode" or "GunnsFluidNode" not in [cls] + list(fx.all_bases(cls))):
                        continue
                    new = an.load(fld(x), s)
                    if m == "resetFlows":
                        if num(new) != 0:
                            bad = bad or (s, "%s is %s" % (x, show(new)[:80]))
                        continue
                    d = nz(lin(fld(x), -1, lin(new)))
                    if m in TERMS and x == TERMS[m][0] or m == "collectHeatFlux" and x == "mInflowHeatFlux":
                        ps = f.ps[0]["n"]
                        if not (len(d) == 1 and list(d.values()) == [1] and next(iter(d)).op in ("par", "arg", "var", "p") or len(d) == 1 and list(d.values()) == [1] and ps in show(next(iter(d)))):
                            bad = bad or (s, "%s changes by %s" % (x, text(d)[:100]))
                    elif d and not (m == "collectInflux" and x == "mInflowHeatFlux"):
                        bad = bad or (s, "%s changes by %s" % (x, text(d)[:100]))
            ctx.ob("nodes", "%s on %s" % (f.q, cls), bad is None and (r or th), f.loc, bad[1] if bad else "", bad[0].path() if bad else None)
