"""P19: flags, trips, states and other discrete attributes change only by their causes."""
import json, os, time
from itertools import combinations
from ..absint import *
from ..par import pmap
from ..facts import VERIF, Broken
from . import p04, p14, p16, p18
from .p16 import locof, enc, dec, leaf, says, timed, entries
from .p18 import modes, kinds, chosen, resolve, name, path_type

PROP = {
    "title": "Flags, trips, states and latches change only by their causes",
    "statement": "Discrete attributes of a model (flags, trip states, latches, one-shot commands, switch and regulator states, modes, selections, integer counters and indices) and discrete results change only by their causes. At every return of every run-time function such an attribute is unchanged or has one of the values (constants or other attributes) that the released code gives it there, and while another flag, mode or state (or two of them) has a given value, only those that the released code gives it in this situation: a tripped device stays tripped until it is reset, an edit or reset command is cleared when it was executed and not before, states make only the transitions that exist, a flag that reports a condition is not set or cleared in a mode that excludes it. In absence of malfunctions unless the malfunction flag is itself the given one.",
    "over": ["inputs", "histories"],
    "quant": "every run-time function of the core, aspects, ms-utils and TS models, every discrete attribute it writes and discrete result, every value of each flag, enumeration and mode argument it depends on, pairs of them, and every path",
    "why": "Latches and state machines go wrong in histories: a trip that clears itself, a command that is executed twice or lost, a transition out of a state that has none. Tests make the nominal transitions and check the state they expect.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("trip logic, switches, regulator and converter states, solver and islanding modes, edit and reset commands", "attributes of type bool, enumerations and integers of every model class")],
    "technique": "abstract interpretation of each function with up to two modes fixed at entry, with the set of constants and entry values each discrete attribute may hold at the returns (sets joined over paths, helpers inlined), against a reviewed table of allowed outcomes",
    "note": "The table (gsa/tables/states.json) holds the outcomes in the reviewed tree; an attribute that may get a computed value is not decided, nor are numeric conditions for a transition (thresholds). Numeric outputs determined by a mode are P18.",
}
TABLE = os.path.join(VERIF, "gsa", "tables", "states.json")
SLOW = ("Gunns::step", "GunnsDynSingleRigidStateDeriv::update", "GunnsDynSingleRigidEom::update")
INTS = ("int", "unsigned int", "long", "short", "unsigned long", "unsigned short", "unsigned char")


BOOL = ("<", "<=", "==", "!=", "!", "&&", "||")
UNKNOWN = frozenset([frozenset()])
EITHER = frozenset([frozenset(["0"]), frozenset(["1"])])


def dump(e):
    def f(e):
        return int(e) if isinstance(e, float) and e == int(e) else [f(x) for x in e] if isinstance(e, (list, tuple)) else e
    return json.dumps(f(e))


def norm(v):
    return json.dumps(int(v) if v == int(v) else v)


class Src(p18.Mode):
    """keeps the entry values and constants that a merged value may be"""

    def __init__(self, *a):
        super().__init__(*a)
        self.ops = {}
        self.syms = {}

    def sources(self, v, st):
        """alternatives: sets of names (JSON of a constant or entry location) of one value; empty when it has none"""
        o = self.ops.get(v)
        if o is not None:
            return o
        if v.op in BOOL:
            return self.truths(v, st)
        i = self.interval(v, st)
        alt = set()
        if i.lo == i.hi and abs(i.lo) < INF:
            alt |= self.consts(i.lo, st)
        e = enc(v, self.syms) if v.op != "c" and v.op != "phi" else None
        if e and leaf(e):
            alt.add(dump(e))
        if v.op in ("fld", "*", "idx", "sym"):
            for t, x in st.facts.items():
                if x is True and t.op == "==" and (t.a[0] is v or t.a[1] is v):
                    e = enc(t.a[1] if t.a[0] is v else t.a[0], self.syms)
                    if e and leaf(e):
                        alt.add(dump(e))
        return frozenset([frozenset(alt)])

    def consts(self, c, st):
        """the constant and the flags known to have this value"""
        alt = {norm(c)}
        if c in (0, 1):
            for t, x in st.facts.items():
                if t.op == "fld" and isinstance(x, bool) and x == bool(c):
                    e = enc(t, self.syms)
                    if e:
                        alt.add(dump(e))
        for t, x in st.iv.items():
            if t.op == "fld" and x.lo == c == x.hi:
                e = enc(t, self.syms)
                if e:
                    alt.add(dump(e))
        return alt

    def operands(self, v, op):
        return [o for x in v.a for o in self.operands(x, op)] if v.op == op else [v]

    def truths(self, v, st):
        x = self.truth(v, st)
        if x is None and v.op in ("&&", "||"):
            # false when all operands of || are, true when all operands of && are
            c = norm(v.op == "&&")
            same = {dump(e) for e in (enc(o, self.syms) for o in self.operands(v, v.op)) if e}
            return frozenset([frozenset([c]) | same, frozenset([norm(v.op == "||")])])
        return EITHER if x is None else frozenset([frozenset(self.consts(int(x), st))])

    def join(self, a, b, site):
        s = super().join(a, b, site)
        if s is a or s is b:
            return s
        for k, v in s.env.items():
            if v.op != "phi" or v.a[0] != site or v.a[1] is not k:
                continue
            n = self.ops.get(v, frozenset())
            for x in (a, b):
                w = x.env.get(k)
                w = self.initial(k, x) if w is None else w
                if w is not v:
                    n = n | self.sources(w, x)
            if len(n) > 16:
                n = UNKNOWN
            self.ops[v] = n
        return s

    def stale(self, s, new, site):
        old = dict(s.env)
        super().stale(s, new, site)
        for k, v in s.env.items():
            w = old.get(k)
            if w is not None and w is not v and v.op == "phi":
                self.ops[v] = self.ops.get(v, frozenset()) | self.ops.get(w, UNKNOWN)


def attribute(fx, loc, cls):
    """path of a discrete attribute of the object, else None"""
    ch = []
    while loc.op in ("fld", "idx", "*"):
        ch.append(loc)
        loc = loc.a[0]
    if loc is not THIS:
        return None
    c, t, out = cls, None, []
    for n in reversed(ch):
        if n.op == "fld":
            if c is None:
                return None
            own, fd = fx.field(c, n.a[1])
            if fd is None:
                return None
            t = fd["t"].replace("const ", "").split("[")[0].strip()
            out.append(n.a[1])
        elif n.op == "*":
            if not t.endswith("*"):
                return None
            t = t[:-1].strip()
            out.append("*")
        else:
            i = n.a[1]
            if num(i) is None and not (i.op == "sym" and str(i.a[0]).startswith("p#")):
                return None
            out.append("[%s]" % (i.a[0] if i.op == "sym" else int(num(i))))
        c = t if t in fx.classes else None
    return ".".join(out) if state_type(fx, t) else None


def state_type(fx, t):
    t = t.replace("const ", "").strip()
    return t == "bool" or t in fx.enums or t in INTS


def run1(fx, f, inv, fix=None):
    an = Src(fx, inv, True)
    an.nominal, an.cand = True, {}
    st = State()
    args = []
    for i, p in enumerate(f.ps):
        a = None if p.get("ref") or p["tk"] == "r" else T("sym", "p#%d" % i)
        args.append(a)
        if a is not None:
            an.syms[a] = i
        if p["n"].lower() in ("dt", "timestep", "time_step", "steptime"):
            st.iv[T("sym", "p#%d" % i)] = Iv(0, False, INF, True)
    for l, v in (fix or {}).items():
        st.iv[l] = v if isinstance(v, Iv) else point(v)
    an.cls0 = f.c or ""
    rets, _ = an.run(f, cls=f.c, args=args, st=st)
    out = []
    for v, s in rets:
        d = {}
        for k in list(s.env):
            if k.op in ("fld", "idx"):
                n = attribute(fx, k, f.c)
                if n and s.env[k] is not k:
                    d[n] = s.env[k]
        if isinstance(v, Term) and f.rt and state_type(fx, f.rt):
            d["return"] = v
        out.append((d, s))
    return an, out, args


def outcomes(an, outs, names):
    """{attribute: set of alternatives}; an alternative is the set of its names ("same", a constant, an entry value)"""
    res = {}
    for n in names:
        own = dump(enc(locof(n), an.syms)) if n != "return" else None
        alts = set()
        for d, s in outs:
            v = d.get(n)
            if v is None and n != "return":
                v = an.load(locof(n), s)
            for alt in an.sources(v, s) if v is not None else UNKNOWN:
                alts.add(frozenset("same" if x == own else x for x in alt))
        res[n] = alts
    return res


def table(alts):
    """the least set of names that covers the alternatives, None when one has no name"""
    if not all(alts):
        return None
    out = set()
    for a in sorted(alts, key=lambda a: (len(a), sorted(a))):
        if not a & out:
            out.add(sorted(a, key=lambda x: (not numeric(x), x))[0])
    return sorted(out) if len(out) <= 8 else None


def numeric(x):
    return x not in ("same",) and x[:1] in "-0123456789"


def vacuous(fx, f, n, w):
    """every value of the type is among them"""
    t = f.rt if n == "return" else path_type(fx, n, f.c)
    ks = kinds(fx, t or "")
    return ks is not None and all(norm(v) in w for v in ks.values())


def flags(fx, an, f, args):
    out = []
    for t in an.seen:
        if t.op == "fld" and modes(fx, t, f.c):
            out.append((name(t), t, modes(fx, t, f.c)))
    for i, p in enumerate(f.ps):
        if args[i] is not None and args[i] in an.seen and kinds(fx, p["t"]):
            out.append(("p%d" % i, args[i], kinds(fx, p["t"])))
    return sorted((x for x in out if chosen(x[0])), key=lambda x: x[0])


def better(w, base):
    """w says more than each of the base sets"""
    return w is not None and all(b is None or set(w) < set(b) for b in base)


def p18s(fx, f, n, w):
    """decided in P18"""
    return len(w) == 1 and (f.rt if n == "return" else path_type(fx, n, f.c)) in p16.NUMBER


def entailed(w, base, own, v):
    return own and base is not None and set(w) >= {norm(v) if x == "same" else x for x in base}


def learn1(fx, f, inv):
    t0 = time.time()
    an, outs, args = run1(fx, f, inv)
    t0 = time.time() - t0
    names = sorted(set().union(*[d for d, s in outs])) if outs else []
    names = [n for n in names if chosen(n)]
    if not names:
        return None
    base = {n: table(a) for n, a in outcomes(an, outs, names).items()}
    res = {"": {n: w for n, w in base.items() if w and not vacuous(fx, f, n, w)}}
    fl = [x for x in flags(fx, an, f, args) if not (x[0] == "mUserPortSetControl" and f.c != "GunnsBasicLink")]
    one = {}
    for n, t, ms in fl:
        for m, v in sorted(ms.items()):
            a2, o2, g2 = run1(fx, f, inv, {t: v})
            if not o2:
                one[n, m] = None
                continue
            r = {k: table(a) for k, a in outcomes(a2, o2, names).items()}
            one[n, m] = r
            d = {k: w for k, w in r.items() if better(w, [base[k]]) and not entailed(w, base[k], k == n, v) and not vacuous(fx, f, k, w) and not p18s(fx, f, k, w)}
            if d:
                res["%s=%s" % (n, m)] = d
    for n, t, ms in p18.ranges(fx, an, f, args) if t0 < 2 else ():
        for m, v in sorted(ms.items()):
            a2, o2, g2 = run1(fx, f, inv, {t: v})
            if not o2:
                continue
            r = {k: table(a) for k, a in outcomes(a2, o2, names).items()}
            d = {k: w for k, w in r.items() if better(w, [base[k]]) and k != n and not vacuous(fx, f, k, w)}
            if d:
                res["%s:%s" % (n, m)] = d
    if len(fl) >= 2 and sum(len(ms) for n, t, ms in fl) ** 2 / 2 * t0 < 150:
        for (n1, t1, m1), (n2, t2, m2) in combinations(fl, 2):
            for k1, v1 in sorted(m1.items()):
                for k2, v2 in sorted(m2.items()):
                    r1, r2 = one[n1, k1], one[n2, k2]
                    if r1 is None or r2 is None:
                        continue
                    if all(x is not None and len(x) <= 1 for r in (r1, r2) for x in r.values()):
                        continue
                    a2, o2, g2 = run1(fx, f, inv, {t1: v1, t2: v2})
                    if not o2:
                        continue
                    r = {k: table(a) for k, a in outcomes(a2, o2, names).items()}
                    d = {k: w for k, w in r.items() if better(w, [base[k], r1[k], r2[k]]) and not vacuous(fx, f, k, w)}
                    if d:
                        res["%s=%s & %s=%s" % (n1, k1, n2, k2)] = d
    return {k: v for k, v in res.items() if v}


def learn(fx):
    inv = p14.config_invariants(fx)
    tab = {}
    fs = [f for f in entries(fx) if f.q not in SLOW and "xml" not in f.file]
    pub = set()
    for f, r in zip(fs, pmap(lambda f: timed(lambda: learn1(fx, f, inv), 600), fs)):
        if r:
            tab[p04.key(f)] = r
            if f.acc == "pub":
                for m, d in r.items():
                    for a, x in d.items():
                        pub.add((f.c, m, a, str(x)))
    for f in fs:
        k = p04.key(f)
        if k in tab and f.acc != "pub":
            tab[k] = {m: {a: x for a, x in d.items() if a == "return" or (f.c, m, a, str(x)) not in pub} for m, d in tab[k].items()}
            tab[k] = {m: d for m, d in tab[k].items() if d}
            if not tab[k]:
                del tab[k]
    return tab


def pretty(a):
    return "unchanged" if a == "same" else "%g" % json.loads(a) if numeric(a) else says(json.loads(a))


def check(fx, f, tab, inv):
    out = []
    for m, want in sorted(tab.items()):
        fix = p18.situation(fx, f, m)
        if fix is None:
            continue
        an, outs, args = run1(fx, f, inv, fix)
        if not outs:
            continue
        got = outcomes(an, outs, sorted(want))
        for a, x in sorted(want.items()):
            bad = [g for g in got[a] if not g & set(x)]
            now = "" if not bad else "may also be " + ", ".join(sorted(" = ".join(sorted(pretty(y) for y in g)) if g else "some other value" for g in bad)[:3])
            what = "the result" if a == "return" else a
            out.append(("%s is %s%s" % (what, " or ".join(pretty(y) for y in x), " while " + m.replace("=", " is ").replace(":", " ").replace(" & ", " and ") if m else ""), not bad, now))
    return out


def run(ctx):
    fx = ctx.fx
    ctx.rule("state", "at every return the flag, state or counter (or discrete result) has one of the tabled values for this mode", 300)
    tab = json.load(open(TABLE))
    inv = p14.config_invariants(fx)
    fs = [f for f in entries(fx) if p04.key(f) in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d tabled functions exist" % (len(fs), len(tab)))
    for f, res in zip(fs, pmap(lambda f: timed(lambda: check(fx, f, tab[p04.key(f)], inv)), fs)):
        ctx.count("functions")
        if res is None:
            ctx.skip(f.q, "analysis took too long")
            continue
        for what, ok, why in res:
            ctx.ob("state", "%s: %s" % (f.q, what), ok, "%s:%d" % (f.file, f.l), "" if ok else why)
