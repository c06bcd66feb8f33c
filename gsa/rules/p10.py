"""Flow orchestration: every link's flows are computed and transported once, every node integrates once, in the right order."""
from ..elem import *
from ..par import pmap
from .p09 import enum

PROP = {
    "title": "Flows are transported and integrated exactly once per step, in order",
    "statement": "When the flow orchestrator's update returns, every link has computed its flows exactly once, every fluid link has transported its flows exactly once, and every node except the ground node has integrated its flows exactly once; the ground node never integrates. No flow is transported or integrated before every link has computed its flows. A node of a fluid network integrates only after every link that flows into it (a SINK or BOTH port mapped to it) has transported, and a link takes flow out of an overflowing node (a SOURCE or BOTH port) only after that node has integrated, except for the forced transport that breaks a loop of overflowing nodes, which happens only after a pass in which no link completed. In basic networks every node integrates after all links computed their flows. Nothing else in the library transports or integrates flows, and no link moves flow into or out of a node in its input, step, minor step, confirmation, reset or output methods.",
    "over": ["inputs", "configurations", "histories"],
    "quant": "every path through the orchestrators' update, for an arbitrary link, node and port of a network of any size and topology, with any flow directions and overflow states; every call site of the flow functions; every method a link runs in the other phases of a network step",
    "why": "Whether a link is transported twice or a node integrates too early depends on link order, flow directions and which nodes overflow; tests run a few fixed networks.",
    "files": ["core/GunnsFluidFlowOrchestrator.cpp", "core/GunnsBasicFlowOrchestrator.cpp"],
    "mech": [("fluid networks", "GunnsFluidFlowOrchestrator::update, checkAllComplete, linkSourceNodesReady, nodeInputLinksComplete"), ("basic networks", "GunnsBasicFlowOrchestrator::update")],
    "technique": "typestate analysis of the orchestrators for a distinguished link, port and node (abstract interpretation with ghost state, all loops to a fixpoint); call graph check of the callers",
    "note": "That the fluid loop ends for every topology is not decided here (each pass either completes a link or node or forces one, and an exception ends it otherwise).",
}

L, M, P = T("sym", "L"), T("sym", "M"), T("sym", "P")
NL, NN = (T("fld", THIS, n) for n in ("mNumLinks", "mNumNodes"))
NS = mk("-", NN, C(1), "i")
arr = lambda n, *i: arr2(T("*", T("fld", THIS, n)), i)


def arr2(base, i):
    t = T("idx", base, i[0])
    for j in i[1:]:
        t = T("idx", T("*", t), j)
    return t


NP = arr("mLinkNumPorts", L)
FIELDS = {"mNumLinks", "mNumNodes", "mLinks", "mNodes", "mLinkNodeMaps", "mLinkNumPorts", "mLinkPortDirections", "mLinkStates", "mNodeStates", "mNumIncompleteLinks"}
RULES = {
    "computed": "every link computes its flows exactly once, before anything is transported or integrated",
    "transported": "every link of a fluid network transports its flows exactly once",
    "integrated": "every node integrates exactly once, the ground node never",
    "inflow": "a node integrates only after every link flowing into it has transported",
    "overflow": "an overflowing node's content is taken only after it has integrated, or by the forced transport after a pass without progress",
    "caller": "flows are transported and integrated by the orchestrators only",
    "phase": "no phase of the network step before or after the orchestrated update moves flow into or out of a node",
}


class Flow(Ghost):
    """facet: cf = L computed its flows, tr = L transported, it = M integrated"""
    watch = (L, M, P)
    max_depth = 8

    def bounds(self):
        return ((L, NL), (M, NS), (M, NN), (P, NP))

    def guarded(self, loc):
        while loc.op in ("idx", "*"):
            loc = loc.a[0]
        return loc.op == "fld" and loc.a[1] in FIELDS and loc.a[0] is THIS

    def inline(self, fn, fr, node):
        return "FlowOrchestrator::" in fn.q

    def keep(self, st):
        return super().keep(st) + tuple(self.const(self.load(x, st), st) for x in (arr("mLinkStates", L), arr("mNodeStates", M)))

    def const(self, v, st):
        if num(v) is None:
            i = self.interval(v, st)
            return i.lo if i.lo == i.hi else None
        return num(v)

    def on_call(self, e, fn, obj, args, st, fr):
        n = e.get("n")
        if obj is None or n not in ("computeFlows", "transportFlows", "integrateFlows", "isOverflowing"):
            return None
        out = []
        i = self.index_of(obj, "mLinks")
        if i is not None:
            for is_l, s in self.split_index(i, L, st):
                self.link(n, is_l, e, s, fr)
                out.append((C(0), s))
            return out
        i = self.index_of(obj, "mNodes")
        if i is not None:
            for is_m, s in self.split_index(i, M, st):
                if n == "isOverflowing":
                    out += [(C(self.over), s)] if is_m else [(T("ret", n, "p10"), s)]
                    continue
                self.need("integrated", self.rel("<", i, NS, s), "the ground node integrates its flows", e, s, fr)
                self.early(e, s, fr)
                g = dict(s.facet)
                if is_m:
                    self.need("integrated", g["it"] == 0, "a node integrates twice in one step", e, s, fr)
                    if self.fluid and self.flows_in:
                        self.need("inflow", g["tr"] == 1, "a node integrates before a link flowing into it has transported", e, s, fr)
                    self.set(s, it=1)
                out.append((C(0), s))
            return out
        return None

    def early(self, e, s, fr):
        self.need("computed", self.g(s, "cf") == 1, "flows are moved before every link computed its flows", e, s, fr)

    def link(self, n, is_l, e, s, fr):
        g = dict(s.facet)
        if n == "computeFlows":
            if is_l:
                self.need("computed", g["cf"] == 0, "a link computes its flows twice in one step", e, s, fr)
                self.need("computed", g["it"] == 0, "a link computes its flows after nodes integrated", e, s, fr)
                self.set(s, cf=1)
        elif n == "transportFlows":
            self.early(e, s, fr)
            if is_l:
                self.need("transported", g["tr"] == 0, "a link transports its flows twice in one step", e, s, fr)
                if self.flows_out and self.over and not g["it"]:
                    self.need("overflow", self.stuck(s), "a link takes flow out of an overflowing node that has not integrated", e, s, fr)
                self.set(s, tr=1)

    def stuck(self, s):
        """the number of incomplete links has not gone down since the last pass"""
        last = self.load(T("fld", THIS, "mNumIncompleteLinks"), s)
        for c, v in s.facts.items():
            if v is True and c.op in ("<=", "==") and last in c.a:
                x = c.a[1] if c.a[0] is last else c.a[0]
                # a count of links, not the end of a loop over the links
                if (c.op == "==" or c.a[0] is last) and x.op == "phi" and not any(s.facts.get(mk("<", i, x)) is True for i, n in self.bounds()):
                    return True
        return False


NODE = {"collectInflux", "collectOutflux", "collectHeatFlux", "scheduleOutflux", "integrateFlows", "resetFlows"}
PHASES = ("step", "minorStep", "processInputs", "processOutputs", "confirmSolutionAcceptable", "resetLastMinorStep")


def moves(fx, cls, f):
    """[(function, call, caller chain)]: node flow calls that f reaches on an object of class cls"""
    seen, todo, out = {f.u}, [(f, ())], []
    while todo:
        g, up = todo.pop()
        for n in walk([g.body, g.inits]):
            if n.get("k") != "call" or not n.get("u"):
                continue
            if n.get("n") in NODE and fx.is_a(n.get("c") or "", "GunnsBasicNode"):
                out.append((g, n, up))
                continue
            o = n.get("o")
            if o and o.get("k") == "this" and n.get("v"):
                us = [fx.final(cls, n["u"])]
            else:
                us = [n["u"]] + ([h.u for h in fx.overrides(n["u"])] if n.get("v") else [])
            for u in us:
                if u in fx.funcs and u not in seen:
                    seen.add(u)
                    todo.append((fx.funcs[u], up + (g.q,)))
    return out


def run(ctx):
    fx = ctx.fx
    for r, t in RULES.items():
        ctx.rule(r, t, 1)
    dirs = dict(enum(fx, "GunnsBasicLink::PortDirection"))
    if not {"SOURCE", "SINK", "BOTH"} <= set(dirs):
        raise Broken("port directions are gone")
    base = "GunnsBasicFlowOrchestrator"
    jobs = []
    for cls in [base] + sorted(fx.all_derived(base)):
        f = fx.final(cls, fx.method(base, "update").u)
        f = fx.funcs.get(f) if isinstance(f, str) else f
        if f is None:
            raise Broken("no update of %s" % cls)
        fluid = any(k.get("n") == "transportFlows" for g in fx.methods_of.get(f.c, []) for k in walk(g.body))
        jobs += [(cls, f.u, fluid, dn, dv, over) for dn, dv in (sorted(dirs.items()) if fluid else (("NONE", 0),)) for over in ((0, 1) if fluid else (0,))]

    def work(job):
        cls, u, fluid, dn, dv, over = job
        f = fx.funcs[u]
        an = Flow(fx)
        an.fluid, an.over = fluid, over
        an.flows_in, an.flows_out = dn in ("SINK", "BOTH"), dn in ("SOURCE", "BOTH")
        st = an.start(State(facet=ghost(dict(cf=0, tr=0, it=0))))
        st.env[arr("mLinkNodeMaps", L, P)] = M
        st.env[arr("mLinkPortDirections", L, P)] = C(dv)
        r, th = an.run(f, cls=cls, st=st)
        at = {"l": f.l}

        class Fr:
            fn = f
        if not r:
            an.need("computed", False, "update never returns", at, st, Fr)
        for v, s in r:
            g = dict(s.facet)
            an.need("computed", g["cf"] == 1, "a link does not compute its flows", at, s, Fr)
            if fluid:
                an.need("transported", g["tr"] == 1, "a link does not transport its flows", at, s, Fr)
            an.need("integrated", g["it"] == 1, "a node does not integrate its flows", at, s, Fr)
        return an.events, an.bad

    for (cls, u, fluid, dn, dv, over), (events, bad) in zip(jobs, pmap(work, jobs)):
        an = Flow(fx)
        an.events, an.bad = events, bad
        an.report(ctx, "%s%s" % (cls, ", %s port%s" % (dn, " of an overflowing node" if over else "") if fluid else ""), fx.funcs[u].loc, RULES)
    # who moves flows
    root = {}
    for n, c in (("computeFlows", "GunnsBasicLink"), ("transportFlows", "GunnsBasicLink"), ("integrateFlows", "GunnsBasicNode")):
        m = fx.method(c, n)
        if m is None:
            raise Broken("%s::%s is gone" % (c, n))
        for g in [m] + fx.overrides(m.u):
            root[g.u] = n
    for g in fx.funcs.values():
        for k in walk([g.body, g.inits]):
            if k.get("k") == "call" and k.get("u") in root and root[k["u"]] != "computeFlows":
                n = root[k["u"]]
                ok = "FlowOrchestrator::" in g.q or root.get(g.u) == n
                ctx.ob("caller", "%s calls %s" % (g.q, n), ok, "%s:%s" % (g.file, k.get("l")), "" if ok else "flows are moved outside of the orchestrated update")
    for ph in PHASES:
        m = fx.method("GunnsBasicLink", ph)
        if m is None:
            raise Broken("GunnsBasicLink::%s is gone" % ph)
        per = {}
        for cls in fx.concrete("GunnsBasicLink"):
            u = fx.final(cls, m.u)
            if u in fx.funcs:
                per.setdefault(u, []).append(cls)
        for u, classes in sorted(per.items()):
            bad = {}
            for cls in classes:
                for g, k, up in moves(fx, cls, fx.funcs[u]):
                    bad.setdefault((g.q, k["n"], "%s:%s" % (g.file, k.get("l")), " > ".join(up)), []).append(cls)
            for (q, n, where, up), cs in sorted(bad.items()):
                ctx.ob("phase", "%s reaches %s" % (fx.funcs[u].q, n), False, where, "%s is called in %s of %s%s" % (n, q, cs[0], " (%s > %s)" % (up, q) if up else ""))
            if not bad:
                ctx.ob("phase", fx.funcs[u].q, True, fx.funcs[u].loc)
