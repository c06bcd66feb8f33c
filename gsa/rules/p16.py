"""P16: quantities that the code keeps inside limits are inside them whenever the limiting function returns."""
import json, os, signal
from ..absint import *
from ..par import pmap
from ..facts import VERIF, Broken
from . import p04, p12, p13, p14

PROP = {
    "title": "Limited quantities stay within their limits",
    "statement": "Every attribute that the released code keeps within limits (positions, fractions, efficiencies and pulse widths in 0 to 1; conductances, conductivities and resistances not negative and not above the conductance limit; currents, command positions, bellows volumes, sensor and controller outputs between their configured limits; masses, areas, temperatures, pressures and rates not negative ...) is within these limits whenever the function that limits it returns, for every input, history and state of the object; the same holds for the limited results that functions return. No limit is dropped, widened, exchanged with another, applied before the last change of the value, or applied only under a condition. Where a malfunction may drive a quantity out of its limits, they hold while no malfunction is set.",
    "over": ["inputs", "histories", "configurations"],
    "quant": "every function that limits an attribute or its result, every numeric attribute (array elements with fixed index included) it writes, every normal return and every value of inputs and attributes",
    "why": "A limit acts only for extreme inputs, transient overshoots and rare combinations of states; the tests drive the models with nominal values, and many of them still pass with a limit removed.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("limitRange, innerLimit, std::min/max and if-clamps", "ms-utils/math/MsMath.hh and every model")],
    "technique": "interprocedural interval and symbolic upper/lower-bound dataflow of every attribute and result to the normal returns, against a reviewed table of limits",
    "note": "The limits are the reviewed table (gsa/tables/limits.json). Assumed: lower limits not above upper ones (P04); for limits that hold only in nominal conditions: no malfunction set, non-negative time step, positive fluid properties. Local values that are limited on the way to an unlimited quantity, and elements of arrays written in loops, are not covered.",
}
TABLE = os.path.join(VERIF, "gsa", "tables", "limits.json")
DIRS = ("core", "aspects", "gunns-ts", "ms-utils")
NUMOPS = {"fld", "idx", "call", "+", "-", "*.", "/", "neg", "phi", "sym", "c", "ret", "*", "h"}
INITS = ("initialize", "init", "restart", "restartModel", "validate")


class Lim(p14.Div):
    cand = None
    nominal = False     # all malfunction flags are clear

    def interval(self, t, st):
        if self.nominal and t.op == "fld" and t.a[1].startswith("mMalf") and t.a[1].endswith("Flag") and t not in st.iv:
            return point(0)
        i = super().interval(t, st)
        if t.op == "call" and t.a[0] in ("min", "max") and len(t.a) == 3:
            # limitRange(lower, value, upper): lower <= upper is assumed
            for u in t.a[1:]:
                if isinstance(u, Term) and u.op == "call" and u.a[0] != t.a[0] and u.a[0] in ("min", "max") and len(u.a) == 3:
                    j = self.interval(u, st)
                    if t.a[0] == "max" and (j.hi, not j.hi_o) < (i.hi, not i.hi_o) and j.hi >= i.lo:
                        i = Iv(i.lo, i.lo_o, j.hi, j.hi_o)
                    elif t.a[0] == "min" and (j.lo, j.lo_o) > (i.lo, i.lo_o) and j.lo <= i.hi:
                        i = Iv(j.lo, j.lo_o, i.hi, i.hi_o)
        return i

    def le(self, x, y, st, d=4):
        """x <= y is provable in the state"""
        if x is y or self.truth(mk("<=", x, y), st):
            return True
        if d == 0:
            return False
        if x.op == "call" and x.a[0] in ("min", "max") and len(x.a) == 3:
            p, q = self.le(x.a[1], y, st, d - 1), self.le(x.a[2], y, st, d - 1)
            if x.a[0] == "min" and (p or q) or p and q:
                return True
            if x.a[0] == "max":
                # limitRange(lower, value, upper): lower <= upper is assumed
                for u, r in ((x.a[1], p), (x.a[2], q)):
                    if r and u.op == "call" and u.a[0] == "min" and (u.a[1] is y or u.a[2] is y):
                        return True
        if y.op == "call" and y.a[0] in ("min", "max") and len(y.a) == 3:
            p, q = self.le(x, y.a[1], st, d - 1), self.le(x, y.a[2], st, d - 1)
            if y.a[0] == "max" and (p or q) or p and q:
                return True
        if x.op == "neg" and y.op == "neg":
            return self.le(y.a[0], x.a[0], st, d - 1)
        if x.op == "neg" and self.interval(x.a[0], st).lo >= 0 and self.interval(y, st).lo >= 0:
            return True
        if x.op == "*.":
            for p, q in (x.a, x.a[::-1]):
                i = self.interval(p, st)
                if 0 <= i.lo and i.hi <= 1 and self.interval(q, st).lo >= 0 and self.le(q, y, st, d - 1):
                    return True
        if x.op == "-" and self.interval(x.a[1], st).lo >= 0 and self.le(x.a[0], y, st, d - 1):
            return True
        if x.op == "fld" and y.op == "fld" and x.a[0] is y.a[0] and (x.a[1].replace("Min", "Max") == y.a[1] or x.a[1].replace("Low", "High") == y.a[1]):
            return True     # validated order of the limits
        if y.op == "fld" and ("Max" in y.a[1] or "Limit" in y.a[1] or "Default" in y.a[1]) and self.interval(x, st).hi <= 0:
            return True     # limits are not negative
        if d == 4:
            for c in st.facts:
                if c.op in ("<", "<=") and c.a[0] is x and st.facts[c] is True and c.a[1].op != "c" and self.le(c.a[1], y, st, 1):
                    return True
        return False

    def bounds(self, t, st, up, d=4):
        """terms that t is known not to exceed (up) or not to fall below"""
        out = set()
        if d == 0 or t.op == "c":
            return out
        if t.op == "call" and t.a[0] in ("min", "max") and len(t.a) == 3:
            p, q = t.a[1:]
            bp, bq = self.bounds(p, st, up, d - 1) | {p}, self.bounds(q, st, up, d - 1) | {q}
            if (t.a[0] == "min") == up:
                out = bp | bq
            else:
                out = {b for b in bp if self.cmp(q, b, st, up)} | {b for b in bq if self.cmp(p, b, st, up)}
                for u, o in ((p, q), (q, p)):
                    if u.op == "call" and u.a[0] in ("min", "max") and u.a[0] != t.a[0]:
                        out |= {b for b in u.a[1:] if b.op != "c"} & (bp | bq)
        elif t.op == "neg":
            out = {neg(b) for b in self.bounds(t.a[0], st, not up, d - 1)}
        elif t.op == "*." and up:
            for p, q in (t.a, t.a[::-1]):
                i = self.interval(p, st)
                if 0 <= i.lo and i.hi <= 1 and self.interval(q, st).lo >= 0:
                    out |= self.bounds(q, st, up, d - 1) | {q}
        elif t.op == "-" and up and self.interval(t.a[1], st).lo >= 0:
            out = self.bounds(t.a[0], st, up, d - 1) | {t.a[0]}
        elif t.op in ("phi", "fld", "ret", "idx"):
            for c in st.facts:
                if c.op in ("<", "<=") and st.facts[c] is True and c.a[0 if up else 1] is t:
                    out.add(c.a[1 if up else 0])
        return {b for b in out if b.op != "c"}

    def cmp(self, x, b, st, up):
        return self.le(x, b, st) if up else self.le(b, x, st)

    def join(self, a, b, site):
        s = super().join(a, b, site)
        if s is a or s is b:
            return s
        for k, v in s.env.items():
            if v.op != "phi" or v.a[0] != site or v.a[1] is not k or k.op not in ("fld", "v", "idx", "tv"):
                continue
            va, vb = a.env.get(k), b.env.get(k)
            ia, ib = va is None or va is k, vb is None or vb is k
            va = self.initial(k, a) if va is None else va
            vb = self.initial(k, b) if vb is None else vb
            if va.op not in NUMOPS or vb.op not in NUMOPS:
                continue
            if self.cand is not None and ia != ib and k.op == "fld":
                x, sx = (vb, b) if ia else (va, a)
                self.cand.setdefault(k, []).append((self.interval(x, sx), self.bounds(x, sx, True) | {x}, self.bounds(x, sx, False) | {x}))
            for up in (True, False):
                ca, cb = self.bounds(va, a, up) | {va}, self.bounds(vb, b, up) | {vb}
                for t in ca | cb:
                    if t.op == "c" or t is v or t.vol and v in t.vol or t.op not in NUMOPS:
                        continue
                    if (t in ca or self.cmp(va, t, a, up)) and (t in cb or self.cmp(vb, t, b, up)):
                        s.facts[T("<=", v, t) if up else T("<=", t, v)] = True
        return s


NUMBER = ("double", "float", "int", "unsigned int", "long", "short", "unsigned long")


def attribute(fx, loc, cls):
    """path of a numeric attribute (or element of one) of the object, else None"""
    ch = []
    while loc.op in ("fld", "idx", "*"):
        ch.append(loc)
        loc = loc.a[0]
    if loc is not THIS:
        return None
    c, t, out = cls, None, []
    for n in reversed(ch):
        if n.op == "fld":
            if c is None:
                return None
            own, fd = fx.field(c, n.a[1])
            if fd is None:
                return None
            t = fd["t"].replace("const ", "").split("[")[0].strip()
            out.append(n.a[1])
        elif n.op == "*":
            if not t.endswith("*"):
                return None
            t = t[:-1].strip()
            out.append("*")
        else:
            i = n.a[1]
            if num(i) is None and not (i.op == "sym" and str(i.a[0]).startswith("p#")):
                return None
            out.append("[%s]" % (i.a[0] if i.op == "sym" else int(num(i))))
        c = t if t in fx.classes else None
    return ".".join(out) if t in NUMBER else None


def locof(n):
    t = THIS
    for x in n.split("."):
        if x == "*":
            t = T("*", t)
        elif x[0] == "[":
            t = T("idx", t, T("sym", x[1:-1]) if x[1] == "p" else C(int(x[1:-1])))
        else:
            t = T("fld", t, x)
    return t


def pack(i):
    return [None if i.lo == -INF else i.lo, None if i.hi == INF else i.hi]


def entries(fx):
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if not f.body or f.kind in ("ctor", "dtor") or f.n.startswith("operator") or f.n.startswith("init") or f.n in INITS or f.q in p12.SLOW or not f.file.startswith(DIRS):
            continue
        yield f


def token(b, s, an, syms):
    """name of a bound: an expression over entry values, or a location holding it at exit"""
    e = enc(b, syms)
    if e is not None:
        return ["in", e]
    for k, v in s.env.items():
        if v is b and k.op in ("fld", "idx"):
            e = enc(k, syms)
            if e is not None:
                return ["at", e]
    return None


def leaf(e):
    return e[0] in ("T", "p") or e[0] in ("fld", "*") and leaf(e[1]) or e[0] == "idx" and leaf(e[1]) and e[2][0] in ("c", "p")


def enc(t, syms):
    e = enc_(t, syms)
    return e if e is not None and (leaf(e) or e[0] == "neg" and leaf(e[1])) else None


def enc_(t, syms):
    if t is THIS:
        return ["T"]
    if t.op == "c":
        return ["c", t.a[0]]
    if t.op == "sym" and t in syms:
        return ["p", syms[t]]
    if t.op not in ("fld", "*", "idx", "+", "-", "*.", "/", "neg"):
        return None
    out = [t.op]
    for x in t.a:
        e = enc_(x, syms) if isinstance(x, Term) else ["s", x]
        if e is None:
            return None
        out.append(e)
    return out


def dec(e):
    if e[0] == "T":
        return THIS
    if e[0] == "c":
        return C(e[1])
    if e[0] == "p":
        return T("sym", "p#%d" % e[1])
    a = [x[1] if x[0] == "s" else dec(x) for x in e[1:]]
    if e[0] == "neg":
        return neg(a[0])
    return mk(e[0], *a) if e[0] in ("+", "-", "*.", "/") else T(e[0], *a)


class Slow(Exception):
    pass


def values(fx, an, f, st=None):
    """exit states with {attribute or "return": value}, and the parameter terms"""
    args = []
    for i, p in enumerate(f.ps):
        args.append(None if p.get("ref") or p["tk"] == "r" else T("sym", "p#%d" % i))
    an.cls0 = f.c or ""
    rets, _ = an.run(f, cls=f.c, args=args, st=st)
    out = []
    for v, s in rets:
        d = {}
        for k in list(s.env):
            if k.op in ("fld", "idx"):
                n = attribute(fx, k, f.c)
                if n and s.env[k] is not k:
                    d[n] = s.env[k]
        if isinstance(v, Term) and f.rt in ("double", "float", "int"):
            d["return"] = v
        out.append((d, s))
    return out, args


def exits(fx, f, inv, nominal, assume=None, cand=None):
    """{attribute: (interval hull, [values and states])}"""
    an = Lim(fx, inv, nominal)
    an.nominal, an.cand = nominal, cand
    st = State()
    for n, (i, ups, los) in (assume or {}).items():
        l = locof(n)
        if i is not None:
            st.iv[l] = i
        for e in ups:
            st.facts[T("<=", l, dec(e))] = True
        for e in los:
            st.facts[T("<=", dec(e), l)] = True
    if nominal:
        for i, p in enumerate(f.ps):
            if p["n"].lower() in ("dt", "timestep", "time_step", "steptime"):
                st.iv[T("sym", "p#%d" % i)] = Iv(0, False, INF, True)
    outs, args = values(fx, an, f, st)
    return an, outs, args


def timed(g, t=200):
    def h(*a):
        raise Slow
    Iv.WATCH = frozenset([0])
    signal.signal(signal.SIGALRM, h)
    signal.alarm(t)
    try:
        return g()
    except Slow:
        return None
    finally:
        signal.alarm(0)


def hulls(an, outs, points=False):
    res = {}
    names = set().union(*[d for d, s in outs]) if outs else set()
    for n in names:
        h = None
        for d, s in outs:
            v = d[n] if n in d else None if n == "return" else an.load(locof(n), s)
            i = Iv() if v is None else an.interval(v, s)
            h = i if h is None else h.hull(i)
        if points or h.lo != h.hi:
            res[n] = h
    return res


def finite(h):
    return h.lo > -INF or h.hi < INF


def unpack(p):
    return Iv(-INF if p[0] is None else p[0], p[0] is None, INF if p[1] is None else p[1], p[1] is None)


def within(h, i):
    return h.lo >= i.lo and h.hi <= i.hi


def says(e):
    if e[0] == "T":
        return ""
    if e[0] == "fld":
        b = says(e[1])
        return b + ("." if b else "") + e[2][1]
    if e[0] == "c":
        return str(e[1])
    if e[0] == "p":
        return "argument %d" % e[1]
    return e[0] + "(" + ", ".join(says(x) if x[0] != "s" else str(x[1]) for x in e[1:]) + ")"


def check(fx, f, tab, inv):
    """[(obligation, holds, explanation)]; None if the analysis takes too long"""
    out = []
    for mode, attrs in tab.items():
        when = " when no malfunction is set" if mode else ""
        an, outs, args = exits(fx, f, inv, bool(mode))
        names = set().union(*[d for d, s in outs]) if outs else set()
        hu = hulls(an, outs, True)
        val = lambda n, d, s: d[n] if n in d else None if n == "return" else an.load(locof(n), s)
        keep = {}
        for n, r in attrs.items():
            if "iv" in r and outs:
                i, h = unpack(r["iv"]), hu.get(n)
                if h is None and n != "return":
                    h = None
                    for d, s in outs:
                        x = an.interval(an.load(locof(n), s), s)
                        h = x if h is None else h.hull(x)
                if h is not None:
                    out.append(("%s in %s%s" % (n, i, when), within(h, i), "may be in %s" % h))
            for x in ("up", "lo"):
                for t in r.get(x, []):
                    kind, e = json.loads(t)
                    ok = True
                    for d, s in outs:
                        v = val(n, d, s)
                        if v is None:
                            continue
                        b = dec(e)
                        if kind == "at":
                            b = an.load(b, s)
                        if not an.cmp(v, b, s, x == "up"):
                            ok = False
                    out.append(("%s %s %s%s" % (n, "<=" if x == "up" else ">=", says(e), when), ok, "not shown on some path"))
            if "keep" in r:
                k = r["keep"]
                keep[n] = (unpack(k[0]) if k[0] else None, k[1], k[2])
        if keep:
            an, outs, args = exits(fx, f, inv, bool(mode), keep)
            hu = hulls(an, outs, True)
            for n, (i, ups, los) in keep.items():
                if n in hu and i is not None:
                    out.append(("%s stays in %s%s" % (n, i, when), within(hu[n], i), "may be in %s" % hu[n]))
                for es, up in ((ups, True), (los, False)):
                    for e in es:
                        ok = all(an.cmp(an.load(locof(n), s), dec(e), s, up) for d, s in outs)
                        out.append(("%s stays %s %s%s" % (n, "<=" if up else ">=", says(e), when), ok, "not shown on some path"))
    return out


def run(ctx):
    fx = ctx.fx
    ctx.rule("limit", "the value of the attribute (or the result) at every normal return is within the limit", 1000)
    tab = json.load(open(TABLE))
    inv = p14.config_invariants(fx)
    fs = [f for f in entries(fx) if p04.key(f) in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d tabled functions exist" % (len(fs), len(tab)))
    for f, res in zip(fs, pmap(lambda f: timed(lambda: check(fx, f, tab[p04.key(f)], inv)), fs)):
        ctx.count("functions")
        if res is None:
            ctx.skip(f.q, "analysis took too long")
            continue
        for what, ok, why in res:
            ctx.ob("limit", "%s: %s" % (f.q, what), ok, "%s:%d" % (f.file, f.l), "" if ok else why)


def learn1(fx, f, inv):
    base = learn_mode(fx, f, inv, False)
    res = {"": base} if base else {}
    nom = learn_mode(fx, f, inv, True)
    more = {}
    for n, r in nom.items():
        o = base.get(n, {})
        k = {}
        if "iv" in r and r["iv"] != o.get("iv"):
            k["iv"] = r["iv"]
        for x in ("up", "lo"):
            if set(r.get(x, [])) - set(o.get(x, [])):
                k[x] = sorted(set(r[x]) - set(o.get(x, [])))
        if "keep" in r and r["keep"] != o.get("keep"):
            k["keep"] = r["keep"]
        if k:
            more[n] = k
    if more:
        res["nominal"] = more
    return res


def learn_mode(fx, f, inv, nominal):
    an, outs, args = exits(fx, f, inv, nominal, cand={})
    syms = {a: i for i, a in enumerate(args) if a is not None}
    tab = {}
    hu = hulls(an, outs)
    for n, h in hu.items():
        if finite(h):
            tab.setdefault(n, {})["iv"] = pack(h)
    names = set().union(*[d for d, s in outs]) if outs else set()
    for n in names:
        for up in (True, False):
            toks = None
            for d, s in outs:
                v = d[n] if n in d else None if n == "return" else an.load(locof(n), s)
                ts = set()
                if v is not None:
                    for b in an.bounds(v, s, up):
                        t = token(b, s, an, syms)
                        if t is not None and t[1] != enc(locof(n), syms) if n != "return" else t is not None:
                            ts.add(json.dumps(t))
                toks = ts if toks is None else toks & ts
            if toks:
                tab.setdefault(n, {})["up" if up else "lo"] = sorted(toks)
    # attributes that keep a range they already had
    cand = {}
    for k, ivs in an.cand.items():
        n = attribute(fx, k, f.c)
        if not n or n not in names:
            continue
        h = ups = los = None
        for i, u, l in ivs:
            h = i if h is None else h.hull(i)
            u, l = [[e for e in (enc(b, syms) for b in x) if e and e[0] != "c" and e != enc(k, syms)] for x in (u, l)]
            ups = u if ups is None else [e for e in ups if e in u]
            los = l if los is None else [e for e in los if e in l]
        r = tab.get(n, {})
        if "iv" in r or not finite(h) or h.lo == h.hi:
            h = None
        ups, los = [] if "up" in r else ups, [] if "lo" in r else los
        if h is not None or ups or los:
            cand[n] = (h, ups, los)
    for _ in range(5):
        if not cand:
            break
        an, outs, args = exits(fx, f, inv, nominal, cand)
        new, hu = {}, hulls(an, outs)
        for n, (h, ups, los) in cand.items():
            if n not in hu and not any(n in d for d, s in outs):
                continue
            g = hu.get(n, h)
            if h is not None and (g.lo < h.lo or g.hi > h.hi):
                lo, hi = (h.lo, h.lo_o) if g.lo >= h.lo else (-INF, True), (h.hi, h.hi_o) if g.hi <= h.hi else (INF, True)
                h = Iv(lo[0], lo[1], hi[0], hi[1])
                h = h if finite(h) else None
            ups = [e for e in ups if all(an.le(an.load(locof(n), s), dec(e), s) for d, s in outs)]
            los = [e for e in los if all(an.le(dec(e), an.load(locof(n), s), s) for d, s in outs)]
            if h is not None or ups or los:
                new[n] = (h, ups, los)
        done = new == cand
        cand = new
        if done:
            for n, (h, ups, los) in cand.items():
                tab.setdefault(n, {})["keep"] = [pack(h) if h is not None else None, ups, los]
            break
    return tab


def learn(fx):
    inv = p14.config_invariants(fx)
    fs = list(entries(fx))
    tab = {}
    for f, r in zip(fs, pmap(lambda f: timed(lambda: learn1(fx, f, inv)), fs)):
        if r is None:
            print("slow", f.q)
        elif r:
            tab[p04.key(f)] = r
    return tab
