"""P15: every allocation has one owner that releases it once, with the right form."""
import json, os
from ..absint import *
from ..par import pmap
from ..facts import VERIF, Broken

PROP = {
    "title": "Allocated memory is released exactly once, by its owner",
    "statement": "Memory that a GUNNS or ms-utils object allocates dynamically is released exactly once, in the form it was allocated (delete for new, delete[] for new[]). For every history of construction, initialization (also repeated or failed), use and destruction: the destructor releases, on every path, each attribute that the class allocates, and every element (from the first to the last) of the arrays and vectors whose elements it allocates; an attribute that was released outside the destructor is reset or allocated again before the method returns, so that it is neither released twice nor used afterwards; an attribute that may already hold an allocation, as when an object is initialized again, is released before it is overwritten; memory is not used after it was released; and a local allocation is released, returned or handed over on every path, also one that throws. An array attribute that initialization releases and allocates with the current extent never keeps its old extent when the object is initialized again.",
    "over": ["histories", "inputs"],
    "quant": "every class that allocates memory itself, every method of it that allocates or releases, in any order of calls, every path",
    "why": "Leaks, double releases and mismatched forms are invisible to the assertions of the unit tests (no sanitizer is enabled) and depend on the order of initialization, failure, restart and destruction.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("destructors and cleanup methods", "core/Gunns.cpp, core/GunnsBasicLink.cpp, core/GunnsFluidNode.cpp, every model with arrays"), ("allocation macros", "ms-utils/software/SimCompatibility/TsSimCompatibility.hh")],
    "technique": "interprocedural typestate dataflow (allocated, released, escaped) over every allocation and every owning attribute, with the set of owning attributes inferred from the allocations",
    "note": "Exceptional exits are only covered as far as they leave attributes behind: a throw out of initialize may leave an attribute allocated, which the destructor must then release. Memory owned through the Trick memory manager (TS_NEW macros in Trick builds) and the HsMsg plug-ins are out of scope.",
}

TABLE = os.path.join(VERIF, "gsa", "tables", "ownership.json")
DIRS = ("core", "aspects", "gunns-ts", "ms-utils")
ONE = C(1)


def bodies(f):
    return [f.body] + [i.get("e") for i in f.inits or [] if i]


def attr(t, home={}):
    """name of the attribute of this object that the term denotes; '[]' appended for (the value of) an element of it"""
    if t.op == "idx":
        b = attr(t.a[0], home) if t.a[0].op in ("fld", "*", "new") else None
        return b and b + "[]"
    if t.op == "*":
        return attr(t.a[0], home)
    if t.op == "ret" and len(t.a) == 4 and t.a[0].split("::")[-1] in ("operator[]", "at"):
        b = attr(t.a[2], home)
        return b and b + "[]"
    if t.op == "fld":
        b = t.a[0] is not THIS and attr(t.a[0], home)
        return t.a[1] if t.a[0] is THIS else b + "." + t.a[1] if b and "[]" not in b and t.a[0].op == "fld" else None
    return home.get(t)


def is_array(e):
    """allocation of an array of variable extent"""
    while e and e.get("k") in ("cast", "conv"):
        e = e.get("e")
    return e and e.get("k") == "new" and e.get("n") and e["n"].get("k") not in ("lit", "int")


def loc_of(a):
    t = THIS
    for x in a.split("."):
        t = T("fld", t, x)
    return t


def owner(fx, c, a):
    """class that declares the attribute"""
    return fx.field(c, a.replace("[]", "").split(".")[0])[0]


_t = {}


def TOUCH(fx):
    """functions that, themselves or through methods of the same class family, allocate or release memory"""
    if "t" not in _t:
        base, calls = set(), {}
        for f in fx.funcs.values():
            cs = calls[f] = set()
            for n in walk(bodies(f)):
                if n.get("k") in ("new", "del"):
                    base.add(f)
                elif n.get("k") in ("call", "ctor") and n.get("u") in fx.funcs:
                    g = fx.funcs[n["u"]]
                    if g.c and f.c and (fx.is_a(f.c, g.c) or fx.is_a(g.c, f.c)) or not g.c or g.acc == "priv":
                        cs.add(g)
        ch = True
        while ch:
            ch = False
            for f in calls:
                if f not in base and calls[f] & base:
                    base.add(f)
                    ch = True
        _t["t"] = base
    return _t["t"]


_s = {}


def escapes(fx, fn, n):
    """may the function keep or release the pointer that is its n-th parameter?"""
    k = fn.u, n
    if k not in _s:
        _s[k] = False       # a recursive call keeps it only if another use does
        _s[k] = not fn.body or n >= len(fn.ps) or keeps_var(fx, bodies(fn), fn.ps[n]["id"])
    return _s[k]


def keeps_var(fx, e, v, safe=False):
    """is there an occurrence of the variable other than an access to the memory or a comparison? (safe: context of e is one)"""
    if isinstance(e, list):
        return any(keeps_var(fx, x, v) for x in e)
    if not isinstance(e, dict):
        return False
    k = e.get("k")
    if k == "var":
        return e.get("id") == v and not safe
    if k in ("cast", "conv"):
        return keeps_var(fx, e.get("e"), v, safe)
    if k == "call" or k == "ctor":
        g = fx.funcs.get(e.get("u"))
        if any(keeps_var(fx, a, v, g is not None and not escapes(fx, g, i)) for i, a in enumerate(e.get("a") or [])):
            return True
        return any(keeps_var(fx, x, v) for n, x in e.items() if n != "a")
    ok = {"idx": "b", "fld": "b"}.get(k)
    cmp = k == "bin" and e.get("op") in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or k == "un" and e.get("op") in ("*", "!")
    return any(keeps_var(fx, x, v, cmp or n == ok or k in ("if", "while", "for", "expr") and n in ("c", "e")) for n, x in e.items())


class Own(Analysis):
    """Ghost state of every allocation: life$ (0: none, 1: released, 2: held), own$ (released), esc$ (reachable from outside)."""
    max_depth = 8

    def __init__(self, fx, f, own):
        super().__init__(fx)
        self.f, self.own = f, own
        self.form = {}
        self.blurred = set()
        self.home = {}      # allocation -> attribute it was stored to
        self.node = {}
        self.out = {}       # (rule, what) -> (ok, place, why)
        self.stores = set()
        self.elems = {}
        self.spans = {}    # element attribute -> upper bounds of the index (allocations, releases)
        self.ptrs = [loc_of(a) for a in sorted(own) if "[]" not in a]

    def inline(self, fn, fr, node):
        return fn.file.startswith(DIRS) and bool(fn.body) and fn in TOUCH(self.fx)

    def on_opaque(self, node, fn, obj, args, st, fr):
        a = obj is not None and obj.op == "fld" and attr(obj)
        if a and node.get("u", "").startswith("_ZNSt") or a and fn is None:
            for v in args:
                if v in self.form and not self.form[v]:
                    self.stores.add((a + "[]", False))
        for n, t in enumerate(args):
            if fn is not None and not escapes(self.fx, fn, n):
                continue
            for v in [t] + ([self.load(t.a[0], st)] if t.op == "addr" else []):
                if v in self.form:
                    st.env[T("esc$", v)] = ONE
        return False

    def havoc(self, loc, st, site):
        # methods that do not touch memory leave the owning pointers alone
        keep = [(p, self.load(p, st)) for p in self.ptrs] if loc is THIS else ()
        super().havoc(loc, st, site)
        for p, v in keep:
            st.env[p] = v

    def span(self, a, kind, i, st):
        """upper bound of the index of an element that is stored (kind 0) or released (kind 1)"""
        up = [c.a[1] for c, v in st.facts.items() if v is True and c.op in ("<", "!=") and c.a[0] is i and i.op != "c"]
        if i.op == "+" and not up:      # first round of a descending loop
            up = [mk("+", i, C(1))]
        self.spans.setdefault(a, (set(), set()))[kind].update(up)

    def freed(self, v, st):
        """True: released on all paths, False: on none, None: on some"""
        x = st.env.get(T("own$", v))
        return False if x is None or x.op == "own$" else True if num(x) == 1 else None

    def note(self, rule, what, ok, node, fn, why=""):
        k = (rule, what)
        o = self.out.get(k)
        if o is None or o[0] and not ok:
            self.out[k] = (ok, "%s:%s" % (fn.file, node.get("l")), why)

    def ev(self, e, st, fr):
        out = super().ev(e, st, fr)
        if e.get("k") == "new":     # nothing to release when the constructor throws
            for t, s in out:
                s.env[T("life$", t)] = C(2)
        return out

    def initial(self, loc, st):
        return C(0) if loc.op == "life$" else super().initial(loc, st)

    def jv(self, site, k, v, w, a, b):
        if v is not w and k.op in ("v", "fld", "idx", "*"):     # a merged pointer stands for either allocation
            self.blurred |= {x for x in (v, w) if x in self.form}
        return super().jv(site, k, v, w, a, b)

    def lost(self, t, st):
        """the allocation may be held by nothing any more"""
        x = st.env.get(T("life$", t))
        return x is not None and t not in self.blurred and st.env.get(T("esc$", t)) is None and self.interval(x, st).has(2)

    def on_branch(self, n, t, f, fr):
        # allocation "if (null)": the array keeps its extent when it is not null
        for x in walk(n.get("t")) if fr.this is THIS else ():
            if x.get("k") == "asg" and x["x"].get("k") == "fld" and is_array(x["y"]):
                a = x["x"]["n"]
                if any(y.get("k") == "fld" and y["n"] == a for y in walk(n.get("c"))):
                    keep = [s for s in f if self.load(loc_of(a), s) not in self.form and self.truth(mk("==", self.load(loc_of(a), s), C(0)), s) is not True]
                    self.note("resize", "%s in %s" % (a, fr.fn.q), not keep, n, fr.fn, "keeps its old extent when it is already allocated")

    def alive(self, loc, node, st, fr):
        for p in list(self.prefixes(loc)) + [loc]:
            if p.op == "*" and self.freed(p.a[0], st) is True:
                self.note("use", "%s in %s" % (attr(p.a[0], self.home) or "memory", fr.fn.q), False, node, fr.fn, "used after it was released")

    def on_load(self, loc, node, st, fr):
        self.alive(loc, node, st, fr)

    def on_node(self, node, terms, st, fr):
        k = node.get("k")
        if k == "new":
            t = T("new", "%s:%s" % (fr.id, node["l"]), node["t"])
            self.form[t] = bool(node.get("n"))
            self.node[t] = node, fr.fn
            st.env.pop(T("own$", t), None)
            st.env.pop(T("esc$", t), None)
        elif k == "del":
            v = terms[0]
            if num(v) == 0:
                return
            arr = bool(node.get("arr"))
            a = attr(v, self.home)
            fs = set(self.own.get(a, ())) if a else set()
            if v in self.form:
                fs.add(self.form[v])
            if fs:
                self.note("form", "%s in %s" % (a or v.a[1], fr.fn.q), fs == {arr}, node, fr.fn,
                          "released with delete%s but allocated with new%s" % (("[]", "") if arr else ("", "[]")))
            if a and "[]" in a:
                i = v
                while i.op == "*":
                    i = i.a[0]
                i = i.a[1] if i.op == "idx" else i.a[3]
                x = self.interval(i, st)
                self.elems.setdefault(a, set()).add(x.lo if x.has(x.lo) else x.lo + 1)
                self.span(a, 1, i, st)
            r = self.freed(v, st)
            if a and "[]" not in a or r is True:
                self.note("once", "%s in %s" % (a or "memory", fr.fn.q), r is False, node, fr.fn, "may be released twice")
            st.env[T("own$", v)] = ONE
            if v in self.form:
                st.env[T("life$", v)] = C(1)

    def on_store(self, loc, val, node, st, fr):
        self.alive(loc, node or {}, st, fr)
        root = loc
        while root.op in ("fld", "idx"):
            root = root.a[0]
        if val in self.form and loc.op != "v":
            st.env[T("esc$", val)] = ONE
        a = attr(loc, self.home)
        if not a:
            return
        if val in self.form:
            if loc.op == "fld":
                self.home.setdefault(val, a)
            if self.home.get(val, a) == a:      # further pointers to it are not owners
                self.stores.add((a, self.form[val]))
            if loc.op == "idx":
                self.span(a, 0, loc.a[1], st)
        if a in self.own and loc.op == "fld":
            old = self.load(loc, st)
            if old is not val and num(old) != 0 and old.op != "undef" and not (self.f.kind == "ctor" and old is loc):
                lost = self.freed(old, st) is False and self.truth(mk("==", old, C(0)), st) is not True
                lost = lost and not any(v is old and k.op == "v" for k, v in st.env.items())     # moved to a local
                self.note("overwrite", "%s in %s" % (a, fr.fn.q), not lost, node or {}, fr.fn, "overwritten while it may hold an allocation")


_e = {}


def entries(fx):
    """methods that touch memory and can be entered from outside: helpers are analysed within their callers"""
    if "e" not in _e:
        called = set()
        for f in TOUCH(fx):
            for n in walk(bodies(f)):
                if n.get("k") in ("call", "ctor") and n.get("u") in fx.funcs:
                    called.add(n["u"])
        _e["e"] = sorted((f for f in TOUCH(fx) if f.c and f.file.startswith(DIRS) and f.body and "HsMsg" not in f.q
                          and (f.kind in ("ctor", "dtor") or f.acc == "pub" or f.u not in called)), key=lambda f: f.q + f.u)
    return _e["e"]


def named(x, states):
    """names of the attributes that hold the value x at the normal exits"""
    out = set()
    if x.op == "fld" and x.a[0] is THIS:
        out.add(x.a[1])
    for s in states:
        out |= {k.a[1] for k, v in s.env.items() if k.op == "fld" and k.a[0] is THIS and v is x}
    return out


def analyse(fx, f, own):
    an = Own(fx, f, own)
    st = State()
    mine = [a for a in own if "[]" not in a]
    if f.kind == "dtor":
        for a in mine:
            st = an.assume(mk("!=", loc_of(a), C(0)), True, st) or st
    ex, th = an.run(f, cls=f.c, st=st)
    an.released = set()
    for r, s in ex:
        for a in mine:
            v = an.load(loc_of(a), s)
            if f.kind == "dtor":
                if an.freed(loc_of(a), s) is True:
                    an.released.add(a)
            elif num(v) != 0:
                an.note("dangling", "%s after %s" % (a, f.q), an.freed(v, s) is False or an.truth(mk("==", v, C(0)), s) is True, {"l": f.l}, f, "may still point to released memory")
        for t in an.form:
            if T("life$", t) in s.env:
                n, g = an.node[t]
                an.note("leak", "%s in %s" % (t.a[1], g.q), r is t or not an.lost(t, s), n, g,
                        "neither released nor stored on a path to a normal return")
    for t in th:
        s = t[1] if isinstance(t, tuple) else t
        for a in mine:
            v = an.load(loc_of(a), s)
            if f.kind not in ("ctor", "dtor") and num(v) != 0:
                an.note("dangling", "%s after %s" % (a, f.q), an.freed(v, s) is False or an.truth(mk("==", v, C(0)), s) is True, {"l": f.l}, f, "may still point to released memory when it throws")
        for v in an.form:
            if T("life$", v) in s.env:
                n, g = an.node[v]
                an.note("leak", "%s in %s" % (v.a[1], g.q), not an.lost(v, s), n, g, "neither released nor stored on a path that throws")
    if f.kind == "dtor":
        for a in list(an.released):
            if any(an.freed(loc_of(a), s) is not True for r, s in ex):
                an.released.discard(a)
    sts = [s for r, s in ex]
    an.counts = {a: tuple({(show(x), tuple(sorted(named(x, sts))), tuple(sorted(attrs(x)))) for x in xs} for xs in b) for a, b in an.spans.items()}
    an.begin = {a: sorted(lo) for a, lo in an.elems.items()}
    return an


def attrs(t, out=None):
    out = set() if out is None else out
    if t.op == "fld" and t.a[0] is THIS:
        out.add(t.a[1])
    for x in t.a:
        if isinstance(x, Term):
            attrs(x, out)
    return out


def first(fx, f):
    an = analyse(fx, f, {})
    return sorted((f.c, a, form) for a, form in an.stores), an.counts


def keeps(fx, c, a):
    """the attribute is to be released by the class itself: not a part of a member with a destructor of its own"""
    if "d" not in _e:
        _e["d"] = {f.c for f in TOUCH(fx) if f.kind == "dtor"}
    dt = _e["d"]
    for x in a.replace("[]", "").split(".")[:-1]:
        fd = fx.field(c, x)[1]
        if not fd or fd["t"] not in fx.classes or any(fx.is_a(fd["t"], d) for d in dt):
            return False
        c = fd["t"]
    return True


def owned(fx):
    """{(class, attribute): {form of allocation: allocating classes}}, {(class, element attribute): bounds of the allocating loops}"""
    own, bnd = {}, {}
    fs = entries(fx)
    for f, (r, counts) in zip(fs, pmap(lambda f: first(fx, f), fs)):
        for c, a, form in r:
            if not keeps(fx, c, a):
                continue
            own.setdefault((owner(fx, c, a), a), {}).setdefault(form, set()).add(c)
        for a, (made, gone) in counts.items():
            if made:
                bnd.setdefault((owner(fx, f.c, a), a), set()).update(made)
    return own, bnd


def results(fx):
    own, bnd = owned(fx)

    def second(f):
        an = analyse(fx, f, {a: set(v) for (c, a), v in own.items() if fx.is_a(f.c, c)})
        return an.out, an.released, an.counts, an.begin
    fs = entries(fx)
    return own, bnd, list(zip(fs, pmap(second, fs)))


def run(ctx):
    fx = ctx.fx
    ctx.rule("destroyed", "the destructor releases the attribute on every path", 165)
    ctx.rule("elements", "the destructor releases all elements, from the first to the last", 18)
    ctx.rule("form", "delete for new, delete[] for new[]", 180)
    ctx.rule("once", "not released twice", 180)
    ctx.rule("dangling", "null or allocated again after a release outside the destructor", 800)
    ctx.rule("overwrite", "released before it is overwritten", 220)
    ctx.rule("use", "no access to released memory", 0)
    ctx.rule("leak", "released, stored or returned on every path", 50)
    ctx.rule("resize", "an array is allocated with its new extent when it is initialized again", 80)
    tab = json.load(open(TABLE))
    open_ = {tuple(x) for x in tab["open"]}
    own, bnd, res = results(fx)
    ctx.count("owning attributes", len(own))
    ctx.count("methods that allocate or release", len(res))
    rel, elems, counts = {}, {}, {}
    merged = {}
    for f, (out, released, cnt, begin) in res:
        for (rule, what), (ok, place, why) in out.items():
            a = what.split()[0]
            if (rule, owner(fx, f.c, a), a) in open_:
                continue
            k = rule, what, f.c if rule == "dangling" else ""
            m = merged.get(k)
            if m is None or m[0] and not ok:
                merged[k] = (ok, place, why)
        if f.kind == "dtor":
            rel.setdefault(f.c, set()).update(released)
            elems.setdefault(f.c, {}).update(begin)
        for a, (made, gone) in cnt.items():
            if gone:
                counts.setdefault((f.c, a), set()).update(gone)
    for (rule, what, _), (ok, place, why) in sorted(merged.items()):
        ctx.ob(rule, what, ok, place, "" if ok else why)

    def dtors(c, allocators):
        """classes whose destructor has to release: the declaring class itself or else all that allocate"""
        return [[c]] + [[b for b in rel if fx.is_a(a, b)] for a in sorted(allocators)]

    def released(c, a, allocators):
        own_, *rest = dtors(c, allocators)
        return a in rel.get(c, ()) or all(any(a in rel[b] for b in bs) for bs in rest) and bool(rest)
    for (c, a), forms in sorted(own.items()):
        if "[]" in a or ("destroyed", c, a) in open_:
            continue
        ok = released(c, a, {x for v in forms.values() for x in v})
        ctx.ob("destroyed", "%s::%s" % (c, a), ok, place_of(fx, c, a), "" if ok else "allocated, but not released on every path of the destructor")
    for c, a in sorted(set(map(tuple, tab["elements"])) | {k for k in own if "[]" in k[1]}):
        if c not in fx.classes or fx.field(c, a[:-2])[1] is None:
            ctx.skip("%s::%s" % (c, a), "no longer exists")
            continue
        lo = elems.get(c, {}).get(a)
        bad = None
        if lo is None:
            bad = "the destructor does not release the elements"
        elif lo != [0]:
            bad = "the destructor releases the elements from index %s" % lo
        else:
            made = {n for x, ns, at in bnd.get((c, a), ()) for n in ns}
            for x, ns, at in counts.get((c, a), ()):
                if x.startswith("("):
                    bad = "the elements are released up to %s" % x
                elif made and ns and not made & set(ns):
                    bad = "the elements are released up to %s but allocated up to %s" % (x, "/".join(sorted(made)))
        ctx.ob("elements", "%s::%s" % (c, a), bad is None, place_of(fx, c, a[:-2]), bad or "")


def place_of(fx, c, a):
    for f in fx.funcs.values():
        if f.c == c and f.kind == "dtor":
            return f.loc
    return fx.classes[c].get("file", c) if isinstance(fx.classes.get(c), dict) else c


def learn(fx):
    own, bnd, res = results(fx)
    el = sorted({(f.c, a) for f, r in res if f.kind == "dtor" for a, lo in r[3].items() if lo == [0]})
    bad = {("resize", owner(fx, f.c, w.split()[0]), w.split()[0]) for f, r in res for (rule, w), o in r[0].items() if rule == "resize" and not o[0]}
    return {"elements": el, "open": sorted(bad) + [["overwrite", "Gunns", "mSolverCpu"], ["destroyed", "Gunns", "mFlowOrchestrator"]]}
