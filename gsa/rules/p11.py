"""Malfunctions: a malfunction takes part exactly while its flag is set."""
import json, os, re
from ..facts import VERIF
from ..focus import *
from ..par import pmap
from .p05 import LINK

PROP = {
    "title": "A malfunction acts exactly while its flag is set",
    "statement": "For every malfunction (an mMalf... flag with its values, and the manual, temperature and magic power overrides) of every model: while the flag is clear, its values are not used by any run-time call (values may only be cached or limited, without effect on anything else; full cavitation also uses the values of the partial cavitation). While the flag is set (and no other malfunction of the object), every function that applies the malfunction unconditionally in the released models applies it on every call that returns: it is not made dependent on another state, input or the malfunction's own value. Every setter stores each of its arguments - flag and values - in the attributes of that malfunction, and, besides setters, construction and initialization, nothing changes a malfunction's flag or values, except the fire source (which extinguishes itself), the flow tuning (which cancels the blockage), the limiting of a value in place, and user configuration tools.",
    "over": ["inputs", "histories"],
    "quant": "every malfunction flag and value of every library class, every function reading, applying or writing them, and every path of it",
    "why": "Malfunctions are independent switches on top of every other state; tests set one at one nominal state and rarely check that a cleared malfunction's value is inert or that the malfunction acts in every mode.",
    "files": ["core", "aspects", "gunns-ts-models"],
    "mech": [("malfunction flags, values and setters", "mMalf... attributes and setMalf... methods of links, sensors, controllers, loads and switches")],
    "technique": "flow-sensitive guard and effect analysis of each flag (abstract interpretation with the flag assumed set or clear, helpers inlined)",
    "note": "Each flag is analysed with the other malfunctions of the object clear; the order of precedence between simultaneous malfunctions is not decided. Functions in which other conditions legitimately take precedence (connected sockets, caches of unchanged values, loops over segments) are outside the table of unconditional applications, as is the physical effect of an applied value.",
}
TABLE = os.path.join(VERIF, "gsa/tables/malf.json")
# values that are read while the flag is clear without any effect
CACHED = {("GunnsFluidJumper", "mMalfLeakRateValue"): {"mLeakConductivity", "mPreviousLeakRate"},
          ("GunnsFluidSocket", "mMalfLeakRateValue"): {"mLeakConductivity", "mPreviousLeakRate"},
          ("GunnsThermalPhaseChangeBattery", "mMalfHotPhaseLeakRate"): {"mMalfHotPhaseLeakRate"}}
# full cavitation shows the partial cavitation as well
ALSO = {("GunnsPumpCavitation", "mMalfPartialCavitationFlag"): ("mMalfFullCavitationFlag",)}
# (class, attribute) that the model itself changes at run time
SELF = {("GunnsElectPvString", "mMalfCellGroupValue"): "limited to the number of groups",
        ("GunnsElectSwitchUtil", "mMalfFailResistPercent"): "limited to 0-100", ("Switch", "mMalfFailResistPercent"): "limited to 0-100",
        ("GunnsThermalPhaseChangeBattery", "mMalfHotPhaseLeakRate"): "limited to positive",
        ("GunnsFluidFireSource", "mMalfFireFlag"): "extinguishes itself", ("GunnsBasicLink", "mMalfBlockageFlag"): "cancelled by flow tuning"}
VAL = ("double", "float", "int")
INIT = ("init", "valid", "restart", "operator")
PHASES = ("step", "minorStep", "update", "updateState", "computeFlows", "sense", "process")


def malf(n):
    return n.startswith("mMalf") or n in ("mManualPositionFlag", "mTemperatureOverrideFlag", "mMagicPowerFlag")


def pairs(fx):
    """{(class, flag): [values]}: a bool field and the numeric fields named after it"""
    out = {}
    for c in fx.classes.values():
        if not c.methods or c.q.endswith(("InputData", "ConfigData")):
            continue
        for f in c.fields:
            if f["t"] == "bool" and malf(f["n"]):
                p = f["n"][:-4] if f["n"].endswith("Flag") else f["n"]
                out[(c.q, f["n"])] = [g["n"] for g in c.fields if g["n"].startswith(p) and g["n"] != f["n"]
                                      and g["t"].rstrip("*").strip() in VAL]
    return out


class Malf(Focus):
    """one flag, set (want=True) or not, all other flags clear.  facet: (applied, failed)"""
    max_states = 60
    top = None

    def __init__(self, fx, focus, c, fl, vals, flags):
        super().__init__(fx)
        self.focus, self.c, self.fl, self.vals, self.flags = focus, c, fl, vals, flags
        self.floc = T("fld", THIS, fl)

    def guarded(self, loc):
        while loc.op in ("idx", "*"):
            loc = loc.a[0]
        return loc.op == "fld" and loc.a[1] in self.flags

    def polarity(self, e):
        """True/False: sign of the flag's only occurrence in a condition; None when it has none"""
        k = e.get("k")
        if k == "fld":
            return True if e["n"] == self.fl and e.get("c") == self.c else None
        if k == "un" and e["op"] == "!":
            p = self.polarity(e["e"])
            return None if p is None else not p
        if k in ("cast", "conv", "paren"):
            return self.polarity(e["e"])
        if k == "bin" and e["op"] in ("&&", "||"):
            p = self.polarity(e["x"])
            return self.polarity(e["y"]) if p is None else p
        return None

    def cond(self, e, st, fr):
        if self.top is not None:
            return super().cond(e, st, fr)
        self.top = e
        try:
            t, f = super().cond(e, st, fr)
        finally:
            self.top = None
        p = None if self.vals or self.quiet else self.polarity(e)
        if p is not None and st.env.get(self.floc) is TRUE:
            for s in (t if p else f):
                s.facet = (True, s.facet[1])
            for s in (f if p else t):
                s.facet = (s.facet[0], True)
        return t, f

    def ev(self, e, st, fr):
        if not self.quiet and e.get("k") == "fld" and self.top is None:
            hit = e["n"] in self.vals if self.vals else e["n"] == self.fl
            if hit and (e.get("c") == self.c or e["n"] in self.vals):
                for loc, s in self.lv(e, st.copy(), fr):
                    if loc.op == "fld" and loc.a[0] is THIS:
                        st.facet = (True, st.facet[1])
        return super().ev(e, st, fr)


class Inert(Focus):
    """the flag is clear: records every effect (store outside the frame, branch, call, result) of the value"""
    max_states = 40

    def __init__(self, fx, focus, fl, vals, flags, may):
        super().__init__(fx)
        self.focus, self.vals, self.flags, self.may = focus, vals, flags | vals, may
        self.locs = {T("fld", THIS, v) for v in vals}
        self.memo, self.dirty, self.used = {}, set(), {}

    guarded = Malf.guarded

    def taint(self, t):
        if not isinstance(t, Term):
            return False
        if t in self.locs or t in self.dirty:
            return True
        if t.op in ("addr", "objval", "phi"):
            return False
        r = self.memo.get(t)
        if r is None or self.memo.get("n") != len(self.dirty):
            self.memo = self.memo if self.memo.get("n") == len(self.dirty) else {"n": len(self.dirty)}
            r = self.memo[t] = any(self.taint(a) for a in t.a)
        return r

    def jv(self, site, k, v, w, a, b):
        r = super().jv(site, k, v, w, a, b)
        if v is not w and (self.taint(v) or self.taint(w)):
            self.dirty.add(r)
        return r

    def use(self, node, fr, what):
        if not self.quiet:
            self.used.setdefault((fr.fn.file, node.get("l") if node else fr.fn.l), what)

    def names(self, loc):
        while loc.op in ("idx", "*"):
            loc = loc.a[0]
        return loc.a[1] if loc.op == "fld" else None

    def store(self, loc, val, st, node, fr):
        r = loc
        while r.op in ("fld", "idx"):
            r = r.a[0]
        tainted = self.taint(val)
        if tainted and r.op not in ("v", "tmp") and self.names(loc) not in self.may:
            self.use(node, fr, "is stored in %s" % show(loc))
        s = super().store(loc, val, st, node, fr)
        if tainted and not self.taint(s.env.get(loc, val)):
            self.dirty.add(s.env.get(loc))
        return s

    def cond(self, e, st, fr):
        t, f = super().cond(e, st, fr)
        if e.get("k") == "bin" and e["op"] in ("&&", "||") or e.get("k") == "un" and e["op"] == "!":
            return t, f
        if t and f:
            for v, s in self.quiet_ev(e, st.copy(), fr):
                if self.taint(v) and not self.cachecheck(v):
                    self.use(e, fr, "decides a branch")
        return t, f

    def cachecheck(self, v):
        """a comparison of the value with the attribute that holds its last value"""
        return v.op in ("==", "!=", "<", "<=") and all(self.names(x) in self.may | self.vals or num(x) is not None for x in v.a)

    def opaque(self, e, fn, obj, ts, s, fr):
        if obj is not None and not e.get("cm") and any(self.taint(t) for t in ts):
            self.use(e, fr, "is given to %s" % e.get("n"))
        return super().opaque(e, fn, obj, ts, s, fr)


def inert_work(fx, f, cls, c, fl, ps):
    vals = set(ps[(c, fl)])
    foc = reaching(fx, lambda g: any(n.get("k") == "fld" and n.get("n") in vals | {fl} for n in walk([g.body])))
    may = set()
    for v in vals:
        may |= CACHED.get((c, v), set()) | ({v} if (c, v) in SELF else set())
    an = Inert(fx, foc, fl, vals, {b for a, b in ps}, may)
    st = State()
    st.facet = 0
    for n in (fl,) + ALSO.get((c, fl), ()):
        st.env[T("fld", THIS, n)] = FALSE
    out, thr = an.run(f, cls=cls, st=st)
    for r, s in out:
        if r is not None and an.taint(r):
            an.used.setdefault((f.file, f.l), "is returned")
    return sorted(an.used.items())


def work(fx, f, cls, c, fl, ps, want, given=None, alt=()):
    vals = set(ps[(c, fl)]) | set(alt)
    names = vals | {fl}
    foc = reaching(fx, lambda g: any(n.get("k") == "fld" and n.get("n") in names for n in walk([g.body])))
    flags = {b for a, b in ps}
    an = Malf(fx, foc, c, fl, vals, flags)
    st = State()
    st.facet = (False, False)
    mine = [cls] + fx.all_bases(cls)
    for a, b in ps:
        if a in mine and b != fl:
            st.env[T("fld", THIS, b)] = FALSE
    st.env[an.floc] = TRUE if want else FALSE
    for n, v in (given or {}).items():
        st.env[T("fld", THIS, n)] = C(v)
        an.flags = an.flags | {n}
    out, thr = an.run(f, cls=cls, st=st)
    return [s.facet + (s.path()[-6:],) for r, s in out]


# unconditional applications under an assumption on other attributes, or through an attribute that caches the value
MORE = [
    ("GunnsFluidConductor::step", "GunnsBasicLink", "mMalfBlockageFlag", {"mTuneMode": 0}, ()),
    ("GunnsFluidPressureSensitiveValve::step", "GunnsBasicLink", "mMalfBlockageFlag", {"mTuneMode": 0}, ()),
    ("GunnsFluidPressureSensitiveValve::updateState", "GunnsFluidPressureSensitiveValve", "mMalfLeakThruFlag", {}, ("mLeakConductivity",)),
    ("GunnsFluidHiFiValve::getEffectiveArea", "GunnsFluidHiFiValve", "mMalfLeakThruFlag", {}, ("mLeakArea",)),
    ("GunnsFluidSocket::updateState", "GunnsFluidSocket", "mMalfLeakRateFlag", {"mSelfSealing": 1}, ("mLeakConductivity",)),
    ("GunnsPumpCavitation::update", "GunnsPumpCavitation", "mMalfPartialCavitationFlag", {"mEnableAutoCavitation": 0}, ()),
]
SETTER = re.compile("(set|fault|fail|force)")


def setter(f):
    return f.c and f.body and f.kind == "method" and SETTER.match(f.n) and f.ps and not f.c.endswith(("ConfigData", "InputData"))


class Plain(Analysis):
    def inline(self, fn, fr, node):
        return True


def stored(fx, f, names):
    """{attribute: index of the argument it holds on every normal exit}, or None where it holds something else"""
    an = Plain(fx)
    out, thr = an.run(f, cls=f.c)
    res = {}
    args = {}
    for i, p in enumerate(f.ps):
        for op in ("sym", "obj"):
            args[T(op, p["n"] or "arg%d" % i)] = i
    for r, s in out:
        for n in names:
            v = an.load(T("fld", THIS, n), s)
            a = args.get(v)
            res[n] = a if res.get(n, a) == a else None
    return res


def callers(fx, f):
    reaching(fx, lambda g: False)
    us = {f.u} | {b for b in fx.funcs if False}
    out = set(fx._rcg.get(f.u, ()))
    return [fx.funcs[u] for u in out if u in fx.funcs and u != f.u and fx.funcs[u].c and fx.funcs[u].body]


def is_public(f):
    return f.acc in ("pub", "public")


def run(ctx):
    fx = ctx.fx
    ctx.rule("inert", "a malfunction's value is not used while its flag is clear", 90)
    ctx.rule("active", "a set malfunction is applied on every normal exit of the functions that apply it unconditionally", 60)
    ctx.rule("stored", "a malfunction setter stores every argument in its attribute", 50)
    ctx.rule("kept", "only setters and initialization write a malfunction's flag and values", 90)
    tab = json.load(open(TABLE))
    ps = pairs(fx)
    flags = {(c, fl) for c, fl in ps}
    vals = {(c, v): fl for (c, fl), vs in ps.items() for v in vs}
    attrs = set(vals) | flags
    skip = lambda f: not f.c or not f.body or f.kind in ("ctor", "dtor") or f.n.startswith(INIT) or f.c.endswith(("ConfigData", "InputData"))
    funcs = [f for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u) if not skip(f)]
    reads = {f.u: {(n["c"], n["n"]) for n in walk([f.body]) if n.get("k") == "fld" and (n.get("c"), n.get("n")) in attrs} for f in funcs}

    # (a) inert
    queue, seen = [], set()
    for (c, fl), vs in sorted(ps.items()):
        for f in funcs:
            if vs and fx.is_a(f.c, c) and any((c, v) in reads[f.u] for v in vs) and not accessor(f):
                queue.append((f, f.c, c, fl))
    while queue:
        nxt = []
        for (f, cls, c, fl), bad in zip(queue, pmap(lambda t: inert_work(fx, t[0], t[1], t[2], t[3], ps), queue)):
            cs = [g for g in callers(fx, f) if fx.is_a(g.c, c)] if bad and not is_public(f) else []
            if cs:
                for g in cs:
                    k = (g.u, c, fl)
                    if k not in seen:
                        seen.add(k)
                        nxt.append((g, g.c, c, fl))
                continue
            ctx.ob("inert", "%s: %s clear" % (f.q, fl), not bad, "%s:%s" % bad[0][0] if bad else "%s:%s" % (f.file, f.l),
                   "a value of the malfunction %s although its flag %s is clear" % (bad[0][1], fl) if bad else "")
        queue = nxt

    # (b) active
    act = []
    for q, c, fl, given, alt in [x + [None, ()] for x in tab["active"]] + [list(x) for x in MORE]:
        for f in funcs:
            if f.q == q and (c, fl) in ps:
                act.append((f, f.c, c, fl, True, given, alt))
    for t, ex in zip(act, pmap(lambda t: work(fx, t[0], t[1], t[2], t[3], ps, *t[4:]), act)):
        f, c, fl = t[0], t[2], t[3]
        bad = [x for x in ex if not x[0] or x[1]]
        ctx.ob("active", "%s: %s set" % (f.q, fl), not bad, "%s:%s" % (f.file, f.l),
               "returns without applying the malfunction although its flag is set" if bad else "", bad[0][2] if bad else None)

    # (c) stored
    for f in funcs:
        if f.q in tab["stored"] and setter(f):
            want = tab["stored"][f.q]
            got = stored(fx, f, list(want))
            for n, i in want.items():
                ok = got.get(n, i) == i
                ctx.ob("stored", "%s: %s" % (f.q, n), ok, "%s:%s" % (f.file, f.l),
                       "" if ok else "does not hold the %s argument on every return" % ("first second third fourth fifth".split()[i]))

    # (d) kept
    for f in funcs:
        w = {}
        for n in walk([f.body]):
            if n.get("k") in ("asg", "inc"):
                x = n["x"] if n["k"] == "asg" else n["e"]
                while isinstance(x, dict) and x.get("k") in ("cast", "conv", "paren", "idx"):
                    x = x["b"] if x["k"] == "idx" else x["e"]
                if x.get("k") == "fld" and (x.get("c"), x["n"]) in attrs:
                    w[(x["c"], x["n"])] = n.get("l")
        for k, line in sorted(w.items()):
            ok = bool(setter(f)) or k in SELF or f.n in ("cleanup", "cleanUp", "allocate", "allocateArrays")
            ctx.ob("kept", "%s writes %s::%s" % ((f.q,) + k), ok, "%s:%s" % (f.file, line), "" if ok else "a run-time function changes the malfunction itself")
    ctx.count("malfunction flags", len(ps))
    ctx.count("values", len(vals))
    ctx.count("functions reading malfunctions", sum(1 for f in funcs if reads[f.u]))


def accessor(f):
    """a function that only returns an attribute"""
    b = [n for n in f.body.get("b", f.body.get("s", [])) if n.get("k") not in ("null", "empty")] if isinstance(f.body, dict) else f.body
    return len(b) == 1 and b[0].get("k") == "ret" and not any(n.get("k") in ("call", "cond", "bin") for n in walk(b))


def learn(fx):
    """development aid: proposes gsa/tables/malf.json from the current tree (to be reviewed)"""
    ps = pairs(fx)
    act, sto = [], {}
    todo = []
    for (c, fl), vs in sorted(ps.items()):
        for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
            if not f.c or not f.body or f.kind in ("ctor", "dtor") or f.n.startswith(INIT) or not fx.is_a(f.c, c) or setter(f) or accessor(f):
                continue
            if any(n.get("k") == "fld" and n.get("c") == c and n.get("n") == fl for n in walk([f.body])):
                todo.append((f, f.c, c, fl, True))
    for t, ex in zip(todo, pmap(lambda t: work(fx, t[0], t[1], t[2], t[3], ps, t[4]), todo)):
        if ex and all(x[0] and not x[1] for x in ex):
            act.append([t[0].q, t[2], t[3]])
    names = {n for c, n in ps} | {v for vs in ps.values() for v in vs}
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if setter(f):
            w = {n["x"]["n"] for n in walk([f.body]) if n.get("k") == "asg" and n["x"].get("k") == "fld" and n["x"]["n"] in names}
            if w:
                r = {k: v for k, v in stored(fx, f, sorted(w)).items() if v is not None}
                if r:
                    sto[f.q] = r
    return {"active": act, "stored": sto}
