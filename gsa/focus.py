"""Focused analysis: only functions that can reach a set of fields are followed; everything else is
opaque and cannot disturb the fields of interest (a mod/ref summary over the whole call graph)."""
from .absint import *
from .facts import walk


def callees(fx, f):
    """u of every function a body may call (virtual calls: every override)."""
    if f.u not in fx._cg:
        out = set()
        for n in walk([f.body, f.inits]):
            if n.get("u") and n.get("k") in ("call", "ctor"):
                if n.get("v"):
                    out.update(g.u for g in fx.overrides(n["u"]))
                out.add(n["u"])
        fx._cg[f.u] = out
    return fx._cg[f.u]


def reaching(fx, direct):
    """u of every function for which direct(f) holds or that may call one, transitively."""
    if not hasattr(fx, "_cg"):
        fx._cg = {}
        fx._rcg = {}
        for f in fx.funcs.values():
            for u in callees(fx, f):
                fx._rcg.setdefault(u, []).append(f.u)
    work = [f.u for f in fx.funcs.values() if direct(f)]
    seen = set(work)
    while work:
        for c in fx._rcg.get(work.pop(), ()):
            if c not in seen:
                seen.add(c)
                work.append(c)
    return seen


def mentions_fields(names):
    def d(f):
        return any(n.get("k") in ("fld", "minit") and n.get("n") in names for n in walk([f.body, f.inits]))
    return d


class Focus(Analysis):
    """Set `focus` (u of the functions to follow) and `guarded` (predicate on locations that only those
    functions can change)."""
    max_depth = 14
    focus = frozenset()

    def guarded(self, loc):
        return False

    def arg_focus(self, node):
        """calls that get a field of interest as an argument are followed as well"""
        return False

    def inline(self, fn, fr, node):
        return fn.u in self.focus or self.arg_focus(node)

    def load(self, loc, st):
        if self.guarded(loc):
            v = st.env.get(loc)
            if v is not None:
                return v
            b = loc.a[0] if loc.op == "idx" else None
            while b is not None:
                hv = st.env.get(T("hv", b)) if self.guarded(b) else None
                if hv is not None:
                    return T("h", hv, loc)
                rg = st.env.get(T("range", b))
                if rg is not None:
                    return T("relem", rg, loc.a[1])
                b = b.a[0] if b.op == "idx" else None
            return loc
        v = st.env.get(loc)
        if v is not None:
            return v
        ver = self.named_version(loc, st)
        if ver:
            for p in [loc] + list(self.prefixes(loc)):
                hv = st.env.get(T("hv", p))
                if hv is not None:
                    ver.append(hv)
                    break
            return T("h", T("ver", *sorted(ver)), loc)
        return super().load(loc, st)

    def named_version(self, loc, st):
        """sites of the opaque calls that may have written a field on the path of loc"""
        out = None
        names = set()
        p = loc
        while True:
            c = st.env.get(T("hvn", p))
            if c is not None and names:
                for site, ns in c.a[0]:
                    if names & ns:
                        out = out or []
                        if site not in out:
                            out.append(site)
            if p.op == "fld":
                names.add(p.a[1])
            if p.op not in ("fld", "idx", "*"):
                return out
            p = p.a[0]

    def jv(self, site, k, v, w, a, b):
        if k.op == "hvn":
            return T("hvs", v.a[0] | w.a[0])
        return super().jv(site, k, v, w, a, b)

    def havoc(self, loc, st, site):
        if self.guarded(loc):
            return super().havoc(loc, st, site)
        if self._names and self._names[0] is loc and self._names[1] is not None:
            ns = self._names[1]
            for k in [k for k in st.env if self.under(k, loc) and not self.guarded(k)]:
                if ns & set(path_names(k.a[0] if k.op in ("hv", "hvn", "range", "alias") else k)):
                    del st.env[k]
            old = st.env.get(T("hvn", loc))
            st.env[T("hvn", loc)] = T("hvs", (old.a[0] if old is not None else frozenset()) | {(T("site", site), ns)})
            return
        keep = {k: v for k, v in st.env.items() if self.guarded(k) or k.op in ("range", "hv") and self.guarded(k.a[0])}
        super().havoc(loc, st, site)
        st.env.update(keep)

    # ---- opaque calls only disturb what their bodies can modify -------
    _names = None

    def opaque(self, e, fn, obj, ts, s, fr):
        saved = self._names
        self._names = (obj, mods(self.fx, e, fn)) if obj is not None else None
        try:
            return super().opaque(e, fn, obj, ts, s, fr)
        finally:
            self._names = saved


def path_names(loc):
    while loc.op in ("fld", "idx", "*"):
        if loc.op == "fld":
            yield loc.a[1]
        loc = loc.a[0]


def lvalue_fields(e):
    """names of the fields an lvalue expression designates a part of"""
    out = set()
    while isinstance(e, dict):
        k = e.get("k")
        if k == "fld":
            out.add(e["n"])
            return out
        if k == "idx":
            e = e["b"]
        elif k in ("cast", "conv", "paren", "un"):
            e = e["e"]
        elif k == "cond":
            return lvalue_fields(e["x"]) | lvalue_fields(e["y"])
        elif k == "call" and e.get("o") is not None and not e.get("u") in ():
            e = e["o"]
        else:
            return out
    return out


def direct_mods(fx, f):
    out = set()
    for n in walk([f.body, f.inits]):
        k = n.get("k")
        if k == "asg":
            out |= lvalue_fields(n["x"])
        elif k == "inc":
            out |= lvalue_fields(n["e"])
        elif k == "del":
            out |= lvalue_fields(n.get("e"))
        elif k in ("call", "ctor"):
            out |= call_mods(fx, n)
    return out


def call_mods(fx, n):
    out = set()
    u = n.get("u")
    if n.get("o") is not None and not n.get("cm") and u not in fx.funcs:
        out |= lvalue_fields(n["o"])
    ps = None
    if u in fx.funcs:
        ps = [p["t"] for p in fx.funcs[u].ps]
    elif u in fx.mdecl:
        ps = [p["t"] for p in fx.mdecl[u][1]["ps"]]
    for i, a in enumerate(n.get("a", [])):
        t = ps[i] if ps and i < len(ps) else None
        if t is not None and (t.startswith("const ") or not t.endswith(("&", "*", "]"))):
            continue
        out |= lvalue_fields(a)
    return out


def mods(fx, node, fn):
    """names of the fields a call may modify, or None when unknown"""
    u = node.get("u")
    if u is None:
        return None
    if not hasattr(fx, "_mods"):
        fx._mods, fx._dmods = {}, {}
        reaching(fx, lambda f: False)
    if u not in fx._mods:
        if u in fx.funcs or node.get("v"):
            start = {u} | ({g.u for g in fx.overrides(u)} if node.get("v") else set())
            seen, work, out = set(start), list(start), set()
            while work:
                f = fx.funcs.get(work.pop())
                if f is None or not f.body and not f.inits:
                    continue
                if f.u not in fx._dmods:
                    fx._dmods[f.u] = direct_mods(fx, f)
                out |= fx._dmods[f.u]
                for c in callees(fx, f):
                    if c not in seen:
                        seen.add(c)
                        work.append(c)
            fx._mods[u] = frozenset(out) if any(x in fx.funcs for x in start) else None
        else:
            fx._mods[u] = None
    return fx._mods[u]
