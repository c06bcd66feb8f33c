"""Network step protocol: what one call of Gunns::step does to every link and node, and in which order."""
from ..elem import *
from .p07 import root_fields

PROP = {
    "title": "Each network step runs the same protocol on every link and node",
    "statement": "In one call of the network's step (initialized, not paused), for any number of links and nodes and any solver mode, non-linearity, rejection or delay: every link processes its inputs exactly once and every node resets its flows exactly once, before any link is stepped. In the first minor step every link's step runs exactly once and no minorStep; in every later minor step that solves, minorStep runs exactly once for every non-linear link and for no linear one, and step for none. Nothing is stepped or solved while the solution is delayed. The new solution is given to the nodes before convergence is judged or any link is asked to confirm it; in a non-linear network in normal mode every non-linear link (and no linear one) is asked exactly once per minor step. When any link rejects, the potentials go back to those saved at the last accepted minor step and are output again, and every non-linear link is reset exactly once; otherwise the potentials are saved and no link is reset. Flows are computed (once, after the last solution) exactly when the network is linear or not in normal mode, or its last minor step was converged and confirmed by every link; then every link processes its outputs exactly once. Otherwise no flow moves and the potentials of the last major step are restored and output. The final potentials are saved for the next step. A paused network does none of this, and an uninitialized network throws first.",
    "over": ["inputs", "schedules", "histories", "configurations"],
    "quant": "every path through one Gunns::step, for an arbitrary link and an arbitrary node of a network of any size, with any answers of the links",
    "why": "Tests drive small networks through a few fixed sequences; a link skipped, stepped twice, asked too early or a flow moved after a rejected or failed solution needs a particular mix of links, answers and modes.",
    "files": ["core/Gunns.cpp"],
    "mech": [("step and minor step loop", "Gunns::step, Gunns::iterateMinorSteps"), ("acceptance", "Gunns::checkSystemConvergence, Gunns::confirmSolutionAcceptance, resetLinksToMinorStep"),
             ("solution vectors", "Gunns::outputPotentialVector, saveMinorPotentialVector, resetToMinorPotentialVector, saveMajorPotentialVector, resetToMajorPotentialVector")],
    "technique": "typestate analysis of Gunns::step for a distinguished link and node (abstract interpretation with ghost protocol state, all loops to a fixpoint)",
    "note": "What the links, nodes, the linear solver and the flow orchestrator do inside their own calls is covered by other properties; here they are events. A solver exception ends the step (its state is covered by P05).",
}

L, M = T("sym", "L"), T("sym", "M")
NL, NN = (T("fld", THIS, n) for n in ("mNumLinks", "mNumNodes"))
NS = mk("-", NN, C(1), "i")
SIZES = {"mNumLinks", "mNumNodes", "mNetworkSize", "mInitFlag", "mLinearNetwork", "mSolverMode", "mRunMode"}
PVS = {"mPotentialVector": "P", "mMinorPotentialVector": "minor", "mMajorPotentialVector": "major"}
INIT = dict(inp=0, rst=0, ever=0, now=0, solved=0, sys=None, asked=0, rej=0, dly=0, cz=None, back=0, upd=0, out=0, first=1, P="?", minor="old", major="old", node="?", conf=0, mode=None, exc=0, pdel=0, ans=None)


class Proto(Ghost):
    """facet: ghost protocol state of link L, node M and the network, as a frozen dict"""
    max_depth = 10

    def __init__(self, fx, nonlinear, normal, nlnet):
        super().__init__(fx)
        self.nonlinear, self.normal, self.nlnet = nonlinear, normal, nlnet
        self.watch = (L, M)
        self.bad = {}
        self.events = {}

    def bounds(self):
        return ((L, NL), (M, NS), (M, NN))

    def guarded(self, loc):
        return loc.op == "fld" and loc.a[1] in SIZES

    def inline(self, fn, fr, node):
        return fn.q.startswith("Gunns::") and fn.n not in ("buildAndSolveSystem",)

    # ---- events on links and nodes
    def on_call(self, e, fn, obj, args, st, fr):
        n = e.get("n")
        if obj is None:
            b = self.bulk_copy(e, args, st)
            if b is not None and b[2] is NS:
                s = st.copy()
                dst, src = T("idx", T("*", b[0]), M), T("idx", T("*", b[1]), M)
                v = self.load(src, s)
                self.havoc(T("*", b[0]), s, "p09copy")
                self.store(dst, v, s, e, fr)
                return [(b[0], s)]
            return None
        i = self.index_of(obj, "mLinks")
        if i is not None and n in LINKEV:
            out = []
            for is_l, s in self.split_index(i, L, st):
                out += self.link_event(n, is_l, e, obj, args, s, fr)
            return out
        i = self.index_of(obj, "mNodes")
        if i is not None and n in ("resetFlows", "setPotential"):
            out = []
            for is_m, s in self.split_index(i, M, st):
                if is_m:
                    self.node_event(n, e, args, s, fr)
                out.append((T("ret", n, "p09"), s))
            return out
        if n == "buildAndSolveSystem":
            return self.solve(e, st, fr)
        if n == "checkSystemConvergence":
            self.order(st, e, fr, "convergence is judged")
            out = []
            for v in (1, 0):
                s = st.copy()
                self.set(s, sys=v)
                out.append((C(v), s))
            return out
        if n == "update" and obj.op == "*" and "mFlowOrchestrator" in show(obj):
            s = st.copy()
            self.flow(e, s, fr)
            return [(C(0), s)]
        return None

    def on_iterated(self, n, site, out, fr):
        out = super().on_iterated(n, site, out, fr)
        for lst in (out.n, out.b, out.c):
            for s in lst:
                if self.g(s, "ans") is not None:
                    self.set(s, ans=None)
        return out

    def order(self, st, e, fr, what):
        g = dict(st.facet)
        self.need("order", g["solved"] or g["pdel"], "%s before a solution of this minor step" % what, e, st, fr)
        self.need("output", g["node"] == "P" or g["pdel"], "%s before the solution was given to the nodes" % what, e, st, fr)

    def link_event(self, n, is_l, e, obj, args, s, fr):
        g = dict(s.facet)
        need = lambda rule, ok, what: self.need(rule, ok, what, e, s, fr)
        if n in ("step", "minorStep"):
            need("inputs", g["inp"] == 1, "a link is stepped before every link processed its inputs")
            need("reset", g["rst"] == 1, "a link is stepped before every node reset its flows")
            need("flow", not g["upd"], "a link is stepped after the flows")
            need("delay", not g["pdel"], "a link is stepped while the solution is delayed")
        if n == "processInputs":
            if is_l:
                need("inputs", g["inp"] == 0, "a link processes its inputs twice in one step")
                self.set(s, inp=1)
            return [(C(0), s)]
        if n == "processOutputs":
            need("outputs", g["upd"] == 1, "outputs are processed although the flows were not computed in this step")
            if is_l:
                need("outputs", g["out"] == 0, "a link processes its outputs twice in one step")
                self.set(s, out=1)
            return [(C(0), s)]
        if n == "step":
            need("step", g["first"], "step is called again after the first minor step")
            if is_l:
                need("step", g["ever"] == 0, "a link's step is called twice in one network step")
                self.set(s, ever=1, now=1)
            return [(C(0), s)]
        if n == "minorStep":
            need("step", not g["first"], "minorStep is called in the first minor step")
            if is_l:
                need("step", g["ever"] == 1 and g["now"] == 0, "a link's minorStep is called before its step, or twice in one minor step")
                need("step", self.nonlinear, "minorStep of a linear link is called")
                self.set(s, now=1)
            return [(C(0), s)]
        if n == "isNonLinear":
            if is_l:
                return [(C(1 if self.nonlinear else 0), s)]
            if not self.nlnet:
                return [(C(0), s)]
            return [(C(1), s), (C(0), s.copy())]
        if n == "confirmSolutionAcceptable":
            need("confirm", self.nlnet and self.normal, "a link is asked to confirm in a linear network or outside of normal mode")
            need("confirm", g["sys"] is not None or g["pdel"], "a link is asked to confirm the solution before the convergence was judged")
            self.order(s, e, fr, "a link is asked to confirm")
            if is_l:
                need("confirm", self.nonlinear, "a linear link is asked to confirm")
                need("confirm", g["asked"] == 0, "a link is asked twice in one minor step")
            out = []
            for cz in (True, False):
                c = mk("==", args[0], C(0)) if args else TRUE
                s2 = self.assume(c, cz, s.copy())
                if s2 is None:
                    continue
                need("confirm", cz or g["sys"] or g["pdel"], "a link is told that the network converged although it has not")
                need("confirm", not cz or not g["sys"], "a link is told that the network has not converged although it has")
                for v, nm in self.results:
                    s3 = s2.copy()
                    kw = dict(cz=cz, ans=nm)
                    if is_l:
                        kw["asked"] = 1
                    if nm == "REJECT":
                        kw["rej"] = 1
                    if nm == "DELAY" and not cz:
                        kw["dly"] = 1
                    self.set(s3, **kw)
                    out.append((C(v), s3))
            return out
        if n == "resetLastMinorStep":
            need("reject", g["rej"], "a link is reset although no link rejected the solution")
            need("reject", g["P"].startswith("minor") and g["node"] == "P", "links are reset before the potentials of the last accepted minor step are restored and output")
            if is_l:
                need("reject", self.nonlinear, "a linear link is reset to the last minor step")
                need("reject", g["back"] == 0, "a link is reset twice after one rejection")
                self.set(s, back=1)
            return [(C(1), s), (C(0), s.copy())]
        return [(T("ret", n, "p09"), s)]

    def node_event(self, n, e, args, s, fr):
        g = dict(s.facet)
        if n == "resetFlows":
            self.need("reset", g["rst"] == 0, "a node resets its flows twice in one step", e, s, fr)
            self.need("reset", g["first"] and not g["solved"] and not g["upd"] and not g["ever"], "a node resets its flows after links were stepped", e, s, fr)
            self.set(s, rst=1)
        else:
            v = args[0] if args else None
            self.set(s, node="P" if self.is_elem(v, s, "mPotentialVector") else "other")

    # ---- the solution
    def close_round(self, g, e, st, fr):
        """what must have happened after the links were asked in the minor step that ends here"""
        if not (self.nlnet and self.normal) or not (g["solved"] or g["pdel"]):
            return
        need = lambda rule, ok, what: self.need(rule, ok, what, e, st, fr)
        need("confirm", g["asked"] == (1 if self.nonlinear else 0), "a non-linear link is not asked to confirm the solution of a minor step")
        if g["rej"]:
            need("reject", g["P"].startswith("minor") and g["node"] == "P", "after a rejection the potentials of the last accepted minor step are not restored and output")
            need("reject", g["minor"] == "old", "the potentials of a rejected minor step are saved")
            need("reject", g["back"] == (1 if self.nonlinear else 0), "after a rejection a non-linear link is not reset")
        else:
            need("accept", g["minor"] == "P", "the potentials of an accepted minor step are not saved")
            need("accept", g["back"] == 0, "a link is reset without a rejection")

    def solve(self, e, st, fr):
        s = st.copy()
        g = dict(s.facet)
        self.need("step", g["ever"] == 1, "the system is solved before every link was stepped", e, s, fr)
        if self.nonlinear or g["first"]:
            self.need("step", g["now"] == 1, "a non-linear link is not stepped in a minor step that solves the system" if not g["first"] else "a link is not stepped in the first minor step", e, s, fr)
        self.need("delay", not g["pdel"], "the system is solved while the solution is delayed", e, s, fr)
        self.need("order", not g["solved"], "the system is solved twice in one minor step", e, s, fr)
        self.need("flow", not g["upd"], "the system is solved after the flows", e, s, fr)
        self.begin_round(s)
        self.set(s, solved=1, P="new", node="other", minor="old", exc=0)
        t = s.copy()
        self.set(t, exc=1)
        self.pending.append((None, t, e, fr))
        self.fresh(T("site", "p09solve"), s, "p09solve")
        for n in PVS:
            if n == "mPotentialVector":
                self.havoc(T("*", T("fld", THIS, n)), s, "p09solve")
        r = T("ret", "solve", "p09solve")
        self.fresh(r, s, "p09solve")
        return [(r, s)]

    def begin_round(self, s):
        self.set(s, sys=None, asked=0, rej=0, dly=0, cz=None, back=0, minor="old")

    def on_minor(self, node, st, fr):
        """the minor step counter advances"""
        g = dict(st.facet)
        if g["solved"] or g["pdel"]:
            self.close_round(g, node, st, fr)
            pdel = 1 if g["dly"] and not g["rej"] else 0
            self.set(st, first=0, solved=0, pdel=pdel, now=0)
            # the verdict of the round that ended stays in `dly`, `rej` until the next round starts
            if pdel:
                self.set(st, sys=None, asked=0, rej=0, dly=0, cz=None, back=0, minor="old")
            else:
                self.begin_round(st)
            if g["rej"]:
                self.set(st, conf=0)

    def flow(self, e, s, fr):
        g = dict(s.facet)
        need = lambda rule, ok, what: self.need(rule, ok, what, e, s, fr)
        need("flow", not g["upd"], "the flows are computed twice in one step")
        need("flow", not g["exc"], "the flows are computed after a failed solution")
        need("flow", g["ever"] == 1 and g["P"] != "?", "the flows are computed without a solution")
        if self.normal:
            need("output", g["node"] == "P", "the flows are computed before the solution is given to the nodes")
        if self.nlnet and self.normal:
            need("flow", g["solved"] or g["pdel"], "the flows are computed although the last minor step was not the accepted one")
            self.close_round(g, e, s, fr)
            need("flow", not g["rej"] and not g["dly"], "the flows are computed although a link rejects or delays the solution")
            need("flow", g["sys"] == 1 or g["pdel"], "the flows are computed although the network has not converged")
        self.set(s, upd=1)

    # ---- potential vectors of node M
    def is_elem(self, v, st, name):
        base = T("*", T("fld", THIS, name))
        return v is not None and v is self.load(T("idx", base, M), st)

    def on_store(self, loc, val, node, st, fr):
        if loc.op == "fld" and loc.a[1] == "mLastMinorStep" and loc.a[0] is THIS:
            if num(val) != 1:
                self.on_minor(node, st, fr)
            return
        if loc.op != "idx" or loc.a[0].op != "*" or loc.a[0].a[0].op != "fld":
            return
        n = loc.a[0].a[0].a[1]
        if n not in PVS or loc.a[0].a[0].a[0] is not THIS:
            return
        i = loc.a[1]
        if i is not M and (self.rel("<", i, M, st) or self.rel(">", i, M, st) or self.truth(mk("!=", i, M), st) is True):
            return
        g = dict(st.facet)
        src = "?"
        if i is M:
            same = [nm for m, nm in PVS.items() if self.is_elem(val, st, m)]
            if same:
                src = "P" if "P" in same and PVS[n] != "P" else [x for x in same if x != "P" or len(same) == 1][0]
        if PVS[n] == "P":
            if src == "?" and {"mLinkPotentialVectors", "mSlavePotentialVector"} & root_fields(val):
                src = g["P"] if g["P"].endswith("+") else g["P"] + "+"
            self.set(st, P=src, node="other", minor="stale" if g["minor"] == "P" and src != "minor" else g["minor"], major="stale" if g["major"] == "P" else g["major"])
        else:
            self.set(st, **{PVS[n]: src})


LINKEV = {"processInputs", "processOutputs", "step", "minorStep", "isNonLinear", "confirmSolutionAcceptable", "resetLastMinorStep", "needAdmittanceUpdate", "getName"}
RULES = {
    "inputs": "every link processes its inputs exactly once, before any link is stepped",
    "reset": "every node resets its flows exactly once, before any link is stepped",
    "step": "step of every link once in the first minor step, then minorStep of every non-linear link once per solution",
    "delay": "nothing is stepped or solved while the solution is delayed",
    "order": "convergence and acceptance are judged after the solution",
    "output": "the solution is output before it is judged or used for flows",
    "confirm": "every non-linear link is asked exactly once per minor step",
    "reject": "a rejection restores and outputs the last accepted potentials and resets every non-linear link once",
    "accept": "accepted potentials are saved",
    "flow": "flows are computed once, exactly for an accepted solution",
    "fail": "without an accepted solution no flow moves and the last major potentials are restored and output",
    "outputs": "every link processes its outputs exactly once, exactly when flows were computed",
    "save": "the final potentials are saved for the next step",
    "guard": "a paused network does nothing, an uninitialized one throws",
    "judge": "the network has converged exactly when no node's potential moved by more than the tolerance",
}


def run(ctx):
    fx = ctx.fx
    for r, t in RULES.items():
        ctx.rule(r, t, 1)
    f = fx.method("Gunns", "step")
    if f is None:
        raise Broken("Gunns::step is gone")
    res = [(v, n) for n, v in enum(fx, "GunnsBasicLink::SolutionResult")]
    modes = dict(enum(fx, "Gunns::SolverMode"))
    runs = dict(enum(fx, "Gunns::RunMode"))
    if not {"REJECT", "CONFIRM", "DELAY"} <= {n for v, n in res} or "NORMAL" not in modes or "RUN" not in runs:
        raise Broken("the solver's modes or results are gone")
    judge(ctx, fx)
    cases = [("nonlinear link", True, True, True, "NORMAL", "RUN", 1), ("linear link of a nonlinear network", False, True, True, "NORMAL", "RUN", 1),
             ("linear network", False, True, False, "NORMAL", "RUN", 1), ("nonlinear, paused", True, True, True, "NORMAL", "PAUSE", 1),
             ("not initialized", True, True, True, "NORMAL", "RUN", 0), ("paused, not initialized", True, True, True, "NORMAL", "PAUSE", 0)]
    cases += [("%s mode" % m, False, False, False, m, "RUN", 1) for m in modes if m != "NORMAL"]
    cases += [("%s mode, nonlinear" % m, True, False, True, m, "RUN", 1) for m in modes if m != "NORMAL"]
    for name, nonlin, normal, nlnet, mode, rm, ini in cases:
        an = Proto(fx, nonlin, normal, nlnet)
        an.results = res
        st = State(facet=ghost(INIT))
        st = an.start(st)
        for k, v in (("mLinearNetwork", 0 if nlnet else 1), ("mSolverMode", modes[mode]), ("mRunMode", runs.get(rm, 99)), ("mInitFlag", ini), ("mWorstCaseTiming", 0)):
            st.env[T("fld", THIS, k)] = C(v)
        st.env[T("fld", THIS, "mNetworkSize")] = NS
        r, th = an.run(f, cls="Gunns", st=st)
        at = {"l": f.l}

        class Fr:
            fn = f
        for v, s in r:
            g = dict(s.facet)
            idle = g["inp"] == g["rst"] == g["ever"] == g["upd"] == g["out"] == 0 and g["P"] == "?"
            if not ini:
                an.need("guard", False, "an uninitialized network returns from a step", at, s, Fr)
                continue
            if rm == "PAUSE":
                an.need("guard", idle, "a paused network works on its links", at, s, Fr)
                continue
            an.need("inputs", g["inp"] == 1, "a link does not process its inputs in a step", at, s, Fr)
            an.need("reset", g["rst"] == 1, "a node does not reset its flows in a step", at, s, Fr)
            an.need("save", g["major"] == "P", "the final potentials are not saved for the next step", at, s, Fr)
            if normal or mode != "DUMMY":
                an.need("output", g["node"] == "P", "the nodes are left with other potentials than the network's", at, s, Fr)
            if g["upd"]:
                an.need("outputs", g["out"] == 1, "a link does not process its outputs after the flows", at, s, Fr)
            else:
                an.need("fail", nlnet and normal or g["exc"], "a linear or slaved network does not compute its flows", at, s, Fr)
                an.need("fail", g["P"].startswith("major"), "without an accepted solution the potentials of the last major step are not restored", at, s, Fr)
                an.need("outputs", g["out"] == 0, "outputs are processed without flows", at, s, Fr)
        if ini == 0:
            for t, s, *_ in th:
                g = dict(s.facet)
                an.need("guard", g["inp"] == g["rst"] == g["ever"] == g["upd"] == 0, "an uninitialized network works on its links", at, s, Fr)
        elif not any(dict(s.facet)["upd"] for v, s in r) and rm == "RUN":
            an.need("flow", False, "the flows are never computed", at, r[0][1] if r else State(), Fr)
        an.report(ctx, name, f.loc, RULES)


def enum(fx, q):
    d = fx.enums.get(q)
    if d is None:
        raise Broken("%s is gone" % q)
    return d["v"]


class Judge(Elem):
    """checkSystemConvergence for an arbitrary node M"""
    watch = (M,)
    within = False

    def bounds(self):
        return ((M, NS), (M, NN))

    def guarded(self, loc):
        return loc.op == "fld" and loc.a[1] in SIZES

    def inline(self, fn, fr, node):
        return fn.q.startswith("Gunns::")

    def on_iterated(self, n, site, out, fr):
        for lst in (out.n, out.b, out.c):
            for s in lst:
                if s.env.get(AT) is not None:
                    s.facet = ("seen",)
        return super().on_iterated(n, site, out, fr)

    def moved(self, c):
        """c says that some node's potential moved by more than the tolerance"""
        if c.op != "<" or root_fields(c.a[0]) != {"mConvergenceTolerance"} or c.a[1].op != "call" or c.a[1].a[0] not in ("fabs", "abs"):
            return False
        d = c.a[1].a[1]
        if d.op != "-":
            return False
        x, y = d.a
        return x.op == y.op == "idx" and x.a[1] is y.a[1] and root_fields(x.a[0]) | root_fields(y.a[0]) == {"mMinorPotentialVector", "mPotentialVector"}

    def feasible(self, c, st):
        if self.within and self.moved(c):
            return False
        return super().feasible(c, st)


def judge(ctx, fx):
    f = fx.method("Gunns", "checkSystemConvergence")
    if f is None:
        raise Broken("Gunns::checkSystemConvergence is gone")
    mv = lambda n: T("idx", T("*", T("fld", THIS, n)), M)
    for within in (True, False):
        an = Judge(fx)
        an.within = within
        st = an.start(State(facet=()))
        st.env[T("fld", THIS, "mNetworkSize")] = NS
        if not within:
            d = [mk("-", mv("mMinorPotentialVector"), mv("mPotentialVector")), mk("-", mv("mPotentialVector"), mv("mMinorPotentialVector"))]
            for x in d:
                st.facts[mk("<", T("fld", THIS, "mConvergenceTolerance"), T("call", "fabs", x))] = True
        r, th = an.run(f, cls="Gunns", st=st)
        bad = [s for v, s in r if v is None or an.truth(v, s) is not within]
        ctx.ob("judge", "all nodes within the tolerance" if within else "a node beyond the tolerance", r and not bad, f.loc,
               "" if r and not bad else "the network may be judged %s" % ("not converged although every node moved by no more than the tolerance" if within else "converged although a node moved by more than the tolerance"),
               bad[0].path() if bad else None)
