"""Admittance freshness: the network is always solved with the links' current admittances."""
from ..focus import *
from ..par import pmap

PROP = {
    "title": "The network is always solved with the links' current admittances",
    "statement": "Every time the network solver solves for potentials, the decomposed matrix it uses was built from the links' current admittance contributions. A link that changes any value it contributes to the network admittance matrix in a step, minor step or any other run-time call leaves its update request set, keeps an earlier request that the solver has not yet collected, and updates its contribution to its current conductance on every such call (exactly: no change is ignored as too small). The solver collects every link's request after stepping it and before solving, rebuilds and decomposes the whole system (or every island of more than one node of it) when any link requested it, and, when a rebuilt matrix was not decomposed - decomposition limit, solver mode without solution, exception - rebuilds it before it next solves. Solver initialization and restart force a rebuild. The arrays that links share with the solver are never re-allocated outside initialization.",
    "over": ["inputs", "histories", "configurations"],
    "quant": "every link class, every run-time method that can reach its admittance matrix or update request, every path; every path of the solver step from every reachable decomposition state, exceptional exits included",
    "why": "A stale matrix gives plausible but wrong potentials only in the steps after a particular transition (a value changed and changed back, a mode switched while a request was pending, a limit reached); tests check the flag after a few nominal transitions of each link.",
    "files": ["core/Gunns.cpp", "core/GunnsBasicLink.cpp", "core/GunnsBasicConductor.cpp", "core", "aspects"],
    "mech": [("update request, collected by the solver after each link step", "GunnsBasicLink::mAdmittanceUpdate, needAdmittanceUpdate(), Gunns::iterateMinorSteps"),
             ("rebuild flag", "Gunns::mRebuild, Gunns::buildAndSolveSystem")],
    "technique": "value-numbering dataflow on each link's matrix elements and request flag; typestate analysis of the solver's system matrix (built / decomposed / solved) over all paths",
    "note": "Links are analysed one method call at a time from an unknown state, the solver with opaque links. Not covered: the GPU solver modes, and whether the contributed value is the physically right one. Declined: GunnsElectIps (contributions computed in a loop over inputs) and GunnsDynSingleRigidStateDeriv for the 'tracking' rule.",
}
MAT, FLAG = "mAdmittanceMatrix", "mAdmittanceUpdate"
LINK = "GunnsBasicLink"
PTR = T("fld", THIS, MAT)
BASE = T("*", PTR)
FL = T("fld", THIS, FLAG)
SHARED = {"mAdmittanceMatrix", "mSourceVector", "mPotentialVector", "mOverrideVector", "mNodeMap", "mNodes"}
# contributions that one method-local argument cannot show to be current on every path
UNTRACKED = {"GunnsDynSingleRigidStateDeriv", "GunnsElectIps"}


NMAP = T("*", T("fld", THIS, "mNodeMap"))
MFIELDS = {MAT, FLAG, "mNodeMap"}


class Fresh(Focus):
    """One link method from an unknown state. Facet: (a matrix element stored, tolerance at which an
    entry element was found equal to something)."""

    def __init__(self, fx, focus):
        super().__init__(fx)
        self.focus = focus
        self.vals = []
        self.sep = ()

    def guarded(self, loc):
        return loc is FL or loc is PTR or loc is BASE or loc is NMAP or (loc.op == "idx" and loc.a[0] in (BASE, NMAP))

    def arg_focus(self, node):
        return any(n.get("k") == "fld" and n.get("n") in (MAT,) for a in node.get("a", []) for n in walk(a))

    def elem(self, t):
        return t.op == "idx" and t.a[0] in (BASE, NMAP)

    def same_as_entry(self, k, v, st):
        if v is k or self.truth(mk("==", v, k), st) is True:
            return True
        for a, b in ((v, k), (k, v)):
            if self.truth(mk("<", C(0), T("call", "fabs", mk("-", a, b))), st) is False:
                return True
        return False

    def changed(self, st):
        """{element: new value} of the elements that may not be what they were at entry"""
        out = {}
        for k, v in st.env.items():
            if self.elem(k) and not self.same_as_entry(k, v, st):
                out[k] = v
            elif k.op in ("range", "hv") and k.a[0] in (BASE, NMAP):
                out[k] = v
        return out

    def jv(self, site, k, v, w, a, b):
        if self.elem(k) and self.same_as_entry(k, v, a) and self.same_as_entry(k, w, b):
            return k
        return super().jv(site, k, v, w, a, b)

    def keep(self, st):
        return (st.facet, self.load(FL, st)) + tuple(self.load(x, st) for x in self.sep)

    def on_store(self, loc, val, node, st, fr):
        if loc.op == "idx" and loc.a[0] is BASE:
            self.vals.append(val)
            if self.load(loc, st) is not val:
                st.facet = (True, st.facet[1])

    def feasible(self, c, st):
        tol = None
        if c.op == "==" and (self.melem(c.a[0]) or self.melem(c.a[1])):
            tol = 0
        elif c.op in ("<=", "<") and c.a[0].op == "call" and c.a[0].a[0] == "fabs" and c.a[0].a[1].op == "-" and num(c.a[1]) is not None:
            if any(self.melem(x) for x in c.a[0].a[1].a):
                tol = num(c.a[1])
        if tol is not None:
            st.facet = (st.facet[0], tol if st.facet[1] is None else max(tol, st.facet[1]))
        return True

    def melem(self, t):
        return t.op == "idx" and t.a[0] is BASE


def disjuncts(t):
    return disjuncts(t.a[0]) + disjuncts(t.a[1]) if t.op in ("||", "|") else [t]


def transposed(k):
    """the mirrored element of a 2x2 matrix"""
    n = num(k.a[1])
    return T("idx", k.a[0], C(3 - n)) if n in (1, 2) else k


def requested(fl, ch, an, st):
    """None when the flag term is true whenever a changed element really differs from its entry value,
    otherwise an element for which it is not"""
    if num(fl) == 1:
        return None
    ds = disjuncts(fl)
    for k, v in ch.items():
        if k.op != "idx":
            return k
        k2 = transposed(k)
        w2 = an.load(k2, st)
        if k2 is not k and k2 not in ch and (w2 is v or an.same_as_entry(k2, v, st)):
            continue            # symmetric matrix: the mirrored element already had this value
        alts = [(k, v)] + ([(k2, v)] if k2 is not k and w2 is v else [])
        want = [w for a, b in alts for w in (mk("!=", a, b), mk("<", C(0), T("call", "fabs", mk("-", a, b))),
                                             mk("<", C(0), T("call", "fabs", mk("-", b, a))))]
        if not any(d in want for d in ds):
            return k
    return None


def element(k):
    if k.op != "idx":
        return k.a[0].a[0].a[1]
    return "%s[%s]" % (k.a[0].a[0].a[1], show(k.a[1]) if k.a[1].op == "c" else "")


def fields_in(t, out):
    """entry values of plain fields a term is made of; None when it depends on anything else"""
    if t.op == "c":
        return out
    if t.op == "fld" and t.a[0] is THIS:
        out.add(t)
        return out
    if t.op in ("+", "-", "*.", "/", "neg"):
        for x in t.a:
            if fields_in(x, out) is None:
                return None
        return out
    return None


def subst(t, m):
    if t in m:
        return m[t]
    if t.op in ("+", "-", "*.", "/"):
        return mk(t.op, subst(t.a[0], m), subst(t.a[1], m))
    if t.op == "neg":
        return neg(subst(t.a[0], m))
    return t


def grounded(st):
    """the port is known to be on the ground node"""
    return any(v is True and c.op == "==" and ("GroundNodeIndex" in show(c)) for c, v in st.facts.items())


def entry_points(fx, cls, focus):
    seen = set()
    for b in [cls] + fx.all_bases(cls):
        for f in fx.methods_of.get(b, []):
            if f.kind in ("ctor", "dtor") or f.n.startswith(("initialize", "init", "allocate")) or f.d.get("static"):
                continue
            if f.acc not in ("pub", "public") and not f.d.get("virt"):
                continue
            fu = fx.final(cls, f.u) or f.u
            if fu not in seen and fu in fx.funcs:
                seen.add(fu)
                if focus is None or fu in focus:
                    yield fx.funcs[fu]


def link_class(fx, focus, cls, sep=()):
    """[(kind, method, where, ok, detail, path)] of one link class"""
    out = []
    runs = []
    for f in entry_points(fx, cls, focus):
        an = Fresh(fx, focus)
        an.sep = sep
        r, th = an.run(f, cls=cls, facet=(False, None))
        runs.append((f, an, [s for v, s in r], r))
    inert = all(num(v) == 0 for f, an, ss, r in runs for v in an.vals)
    for f, an, ss, r in runs:
        where = f.loc
        # --- request
        bad = None
        n = 0
        for s in ss:
            ch = an.changed(s)
            n += bool(ch)
            if inert:
                ch = {}
            fl = an.load(FL, s)
            miss = requested(fl, ch, an, s) if ch else None
            if miss is None:
                continue
            if grounded(s) and all(num(v) == 0 for v in ch.values()):
                continue        # contributions of a grounded port are not part of the system
            if all(k.op == "idx" and function_of(an, k, v, runs) for k, v in ch.items()):
                continue
            fs = set()
            if not sep and all(k.op == "idx" and fields_in(v, fs) for k, v in ch.items()):
                return link_class(fx, focus, cls, tuple(sorted(fs)))     # keep those fields' values apart
            bad = (s, miss, ch[miss], fl)
            break
        if n:
            out.append(("request", f.q, where, bad is None, "" if bad is None else
                        "returns with %s changed to %s and the update request %s" % (show(bad[1]), show(bad[2])[:120], show(bad[3])[:200]),
                        bad[0].path() if bad else None, "" if bad is None else ": " + element(bad[1])))
        # --- kept
        bad = None
        if f.n == "needAdmittanceUpdate":
            ok = r and all(v is FL and num(an.load(FL, s)) == 0 or num(v) == 1 or
                           an.truth(v, s) is not None and an.truth(v, s) == an.truth(FL, s) and num(an.load(FL, s)) == 0 for v, s in r)
            out.append(("collect", f.q, where, ok, "" if ok else "does not return the pending request and clear it", None))
        elif f.n not in ("restart", "initializeRestartCommonFunctions"):
            for s in ss:
                fl = an.load(FL, s)
                if not (fl is FL or num(fl) == 1 or FL in disjuncts(fl) or an.truth(FL, s) is False or inert):
                    bad = (s, fl)
            if any(an.load(FL, s) is not FL for s in ss):
                out.append(("kept", f.q, where, bad is None, "" if bad is None else
                            "a pending update request is overwritten with %s" % show(bad[1])[:160], bad[0].path() if bad else None))
        # --- tracking
        if any(v for v in an.vals) and f.n in ("step", "minorStep") and cls not in UNTRACKED:
            bad = None
            for s in ss:
                if not (s.facet[0] or s.facet[1] == 0 or grounded(s)):
                    bad = s
            out.append(("tracking", f.q, where, bad is None, "" if bad is None else
                        "returns on a path that neither updates the contributed admittance nor finds it exactly equal"
                        + (" (tolerance %g)" % bad.facet[1] if bad.facet[1] else ""), bad.path() if bad else None))
    return out, inert


def function_of(an, k, v, runs):
    """the element is the same function of fields at every exit that stores it, and those fields are unchanged here"""
    fs = fields_in(v, set())
    if not fs:
        return False
    for f, a, ss, r in runs:
        for s in ss:
            w = s.env.get(k)
            if w is None or w is k:
                # outside the steps, a pending request keeps the next step's change visible to the solver
                if any(a.load(x, s) is not x for x in fs) and (f.n in ("step", "minorStep") or num(a.load(FL, s)) != 1):
                    return False
                continue
            if subst(v, {x: a.load(x, s) for x in fs}) is not w:
                return False
    return True


# ------------------------------------------------------------------------------------------ solver
SOLVER = "Gunns"
A = T("fld", THIS, "mAdmittanceMatrix")
AI = T("fld", THIS, "mAdmittanceMatrixIsland")
AB, AIB = T("*", A), T("*", AI)
RB = T("fld", THIS, "mRebuild")
GPU = T("fld", THIS, "mGpuMode")


def mentions(t, base):
    if t.op == "idx" and t.a[0] is base:
        return True
    return any(isinstance(x, Term) and mentions(x, base) for x in t.a)


class Solver(Focus):
    """Facet (M, J, I, L, S): M system matrix 'D'ecomposed / 'B'uilt / 'X' mixed up; J the island being
    visited: None, '?', 'small' (at most one node), 'ok'; I island matrix: None, 'C'opied, 'D'ecomposed;
    L a link's request was collected since the last build; S a link was stepped and not asked."""

    def __init__(self, fx, focus):
        super().__init__(fx)
        self.focus = focus
        self.events = {}
        self.bad = {}
        self.solvers = {"CholeskyLdu"} | fx.all_derived("CholeskyLdu")

    def guarded(self, loc):
        return loc is RB or loc in (A, AI)

    def keep(self, st):
        return (st.facet, self.truth(self.load(RB, st), st))

    def load(self, loc, st):
        if loc.op == "idx" and loc.a[0] in (AB, AIB):
            return loc
        if loc is GPU:
            return C(0)
        return super().load(loc, st)

    def store(self, loc, val, st, node, fr):
        if loc.op == "idx" and loc.a[0] in (AB, AIB):
            self.on_elem(loc.a[0] is AB, val, st)
            return st
        return super().store(loc, val, st, node, fr)

    def on_elem(self, main, val, st):
        M, J, I, L, S = st.facet
        if not main:
            I = "C" if mentions(val, AB) else "X"
        elif num(val) == 0:
            M, J, I, L = "B", None, None, 0
        elif mentions(val, AIB):
            if I == "D" or (I == "C" and J == "small"):
                M, J = ("D" if M != "X" else "X"), (J if J == "small" else "ok")
            else:
                M = "X"
        else:
            M = "B" if M != "X" else "X"
        st.facet = (M, J, I, L, S)

    def exits_ok(self, st):
        M, J, I, L, S = st.facet
        if self.truth(self.load(RB, st), st) is True:
            return True
        return not L and (M == "D" and J != "?" or M == "B" and J == "small")

    def event(self, rule, e, fr, ok, why, st):
        k = (rule, fr.fn.q, e["l"])
        self.events[k] = self.events.get(k, True) and ok
        if not ok:
            self.bad[k] = (why, st.path())

    def on_call(self, e, fn, obj, ts, st, fr):
        n, c = e.get("n"), e.get("c")
        M, J, I, L, S = st.facet
        if c in self.solvers and n in ("Decompose", "Solve") and ts:
            main, isl = ts[0] is A, ts[0] is AI
            if not main and not isl:
                return None
            if n == "Decompose":
                ok = (M == "B" and L == 0 and S == 0) if main else (I == "C" and L == 0 and S == 0)
                self.event("decompose", e, fr, ok, self.why(st, "decomposed"), st)
                s2 = st.copy()
                if main:
                    s2.facet = ("X", J, I, L, S)
                self.pending.append((None, s2, e, fr))
                s3 = st.copy()
                s3.facet = ("D", None, I, L, S) if main and ok else (M, J, "D", L, S) if isl and ok else s3.facet
                return [(C(0), s3)]
            ok = L == 0 and S == 0 and (M == "D" and J != "?" or M == "B" and J == "small")
            self.event("solve", e, fr, ok, self.why(st, "used for a solution"), st)
            self.pending.append((None, st.copy(), e, fr))
            return [(C(0), st)]
        if c == "Sor" and n == "solve":
            ok = M == "B" and L == 0 and S == 0
            self.event("solve", e, fr, ok, self.why(st, "used for an iterative solution"), st)
            return [(T("ret", "Sor", fr.id, e["l"]), st)]
        if c in self.links:
            if n in ("step", "minorStep"):
                s2 = st.copy()
                s2.facet = (M, J, I, L, 1)
                self.pending.append((None, st.copy(), e, fr))
                return [(C(0), s2)]
            if n == "needAdmittanceUpdate":
                a, b = st.copy(), st.copy()
                a.facet, b.facet = (M, J, I, 1, 0), (M, J, I, L, 0)
                return [(TRUE, a), (FALSE, b)]
        if n == "size" and obj is not None and "mIslandVectors" in show(obj):
            out = []
            for v, j in ((C(0), "small"), (C(1), "small"), (T("sym", "island size"), "?")):
                s2 = st.copy()
                s2.facet = (M, j, None, L, S)
                if num(v) is None:
                    s2.iv[v] = Iv(2, False, INF, True)
                out.append((v, s2))
            return out
        return None

    def why(self, st, what):
        M, J, I, L, S = st.facet
        if S:
            return "the system matrix is %s before a stepped link was asked whether its admittance changed" % what
        if L:
            return "the system matrix is %s although a link requested an update since it was built" % what
        if J == "?":
            return "the system matrix is %s although an island was not decomposed" % what
        if M == "B":
            return "the system matrix is %s without being decomposed" % what
        if M == "D":
            return "the system matrix is %s without being rebuilt" % what
        return "the system matrix is %s in an undefined state" % what


def solver_entries(fx):
    for f in fx.methods_of[SOLVER]:
        if f.kind in ("ctor", "dtor") or f.d.get("static") or not f.body:
            continue
        if f.acc in ("pub", "public") or f.d.get("virt"):
            yield f


def run(ctx):
    fx = ctx.fx
    ctx.rule("request", "a run-time link method that may change a contributed matrix element or the port map leaves the update request set", 400)
    ctx.rule("kept", "no run-time link method withdraws an update request that is still pending", 310)
    ctx.rule("collect", "needAdmittanceUpdate() returns the pending request and clears it", 80)
    ctx.rule("tracking", "every step updates the contribution or finds it exactly equal to the current value", 75)
    ctx.rule("shared", "no run-time link method re-allocates an array shared with the solver", 80)
    ctx.rule("solve", "every solution uses a decomposed matrix built after all link requests", 2)
    ctx.rule("decompose", "only a freshly built, not yet decomposed matrix is decomposed", 1)
    ctx.rule("exit", "when a solver method ends, the matrix is decomposed or a rebuild is pending", 55)
    ctx.rule("force", "solver initialization and restart leave a rebuild pending", 2)
    ctx.assume += ["the network has at least one node; island vectors partition the nodes", "GPU solver modes are off",
                   "a link's methods are called with the arrays set up by its initialization"]
    focus = reaching(fx, mentions_fields(MFIELDS))
    classes = sorted(c for c in {LINK} | fx.all_derived(LINK) if not fx.classes[c].abstract)
    seen = {}
    for cls, (obs, inert) in zip(classes, pmap(lambda c: link_class(fx, focus, c), classes)):
        ctx.count("link classes")
        if inert:
            ctx.count("link classes that never contribute an admittance")
        for kind, q, where, ok, detail, path, *what in obs:
            ctx.ob(kind, "%s on %s%s" % (q, cls, what[0] if what else ""), ok, where, detail, path)
    for c in sorted(UNTRACKED):
        ctx.skip("tracking on %s" % c, "contribution computed in a loop over inputs")
    # ---- arrays shared with the solver
    seat = {}
    for f in fx.funcs.values():
        if f.c in fx.classes and (f.c == LINK or fx.is_a(f.c, LINK)):
            for n in walk([f.body, f.inits]):
                t = n["x"] if n.get("k") == "asg" else n.get("e") if n.get("k") == "del" else None
                if isinstance(t, dict) and t.get("k") == "fld" and t.get("n") in SHARED:
                    seat[f.u] = (f, n)
    danger = reaching(fx, lambda f: f.u in seat)
    for cls in classes:
        hit = [f for f in entry_points(fx, cls, danger)]
        for f in hit:
            g, n = next(seat[u] for u in seat if u == f.u or u in closure(fx, f.u))
            ctx.ob("shared", "%s on %s" % (f.q, cls), False, "%s:%s" % (g.file, n["l"]), "%s re-seats or frees %s" % (g.q, (n.get("x") or n.get("e"))["n"]))
        if not hit:
            ctx.ob("shared", cls, True, fx.classes[cls].file if hasattr(fx.classes[cls], "file") else "")
    # ---- solver
    evf = reaching(fx, lambda f: mentions_fields({"mAdmittanceMatrix", "mRebuild", "mAdmittanceMatrixIsland"})(f) or any(
        n.get("k") == "call" and n.get("n") in ("Decompose", "Solve", "needAdmittanceUpdate", "step", "minorStep") for n in walk(f.body)))
    sfocus = {f.u for f in fx.methods_of[SOLVER] if f.u in evf}
    Solver.links = {LINK} | fx.all_derived(LINK)
    ev, bad = {}, {}
    jobs = [(f, label, facet, rb) for f in solver_entries(fx)
            for label, facet, rb in (("decomposed", ("D", None, None, 0, 0), None), ("rebuild pending", ("X", None, None, 0, 0), 1))]

    def solver(job):
        f, label, facet, rb = job
        an = Solver(fx, sfocus)
        st = State(facet=facet)
        if rb:
            st.env[RB] = C(rb)
        st.iv[T("fld", THIS, "mNetworkSize")] = Iv(1, False, INF, True)
        r, th = an.run(f, cls=SOLVER, st=st)
        res = []
        for kind, sts in (("returns", [s for v, s in r]), ("throws", [s for t, s, e, fr in th])):
            if sts:
                b = [s for s in sts if not an.exits_ok(s)]
                res.append((kind, not b, b[0].path() if b else None))
        return res, an.events, an.bad
    for (f, label, facet, rb), (res, events, bd) in zip(jobs, pmap(solver, jobs)):
        for k, ok in events.items():
            ev[k] = ev.get(k, True) and ok
            if not ok:
                bad[k] = bd[k]
        for kind, ok, path in res:
            ctx.ob("exit", "%s %s (entered with the matrix %s)" % (f.q, kind, label), ok, f.loc,
                   "" if ok else "a matrix that was not decomposed after the last change can be used by the next step", path)
    for k in sorted(ev, key=str):
        rule, q, line = k
        b = bad.get(k)
        ctx.ob(rule, "%s:%s" % (q, line) if b else q, ev[k], "core/Gunns.cpp:%s" % line, b[0] if b else "", b[1] if b else None)
    for nm in ("initialize", "restart"):
        for f in fx.methods_of[SOLVER]:
            if f.n == nm and f.body:
                an = Solver(fx, sfocus)
                st = State(facet=("X", None, None, 0, 0))
                st.env[RB] = C(0)
                r, th = an.run(f, cls=SOLVER, st=st)
                b = [s for v, s in r if an.truth(an.load(RB, s), s) is not True]
                ctx.ob("force", f.q, not b, f.loc, "returns without a rebuild pending" if b else "", b[0].path() if b else None)


def closure(fx, u):
    seen, work = {u}, [u]
    while work:
        f = fx.funcs.get(work.pop())
        if f:
            for c in callees(fx, f):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
    return seen
