"""Copy fidelity: user-written copy constructors and copy assignments copy every attribute."""
from ..absint import *

PROP = {
    "title": "Copying a data object preserves every attribute",
    "statement": "Copy-constructing or copy-assigning any library object that supports copying (configuration data, input data, network queue and link data, fluid property and table objects) yields an object whose every attribute, including every array element and every inherited attribute, equals the source's same attribute. The only exceptions are the partial copies that the class documents (const members under assignment, mixture arrays assigned up to the smaller of the two sizes, rebuilt run-time state of shallow-copied adsorption compounds, and exception text).",
    "over": ["inputs", "configurations"],
    "quant": "every user-written copy constructor and copy assignment in the library, for every source object value and every previous value of the destination",
    "why": "Unit tests copy one object with a handful of non-default values and often compare a few attributes; a dropped, swapped or truncated attribute shows only for the untested attribute or for arrays of another length.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("copy constructors' initialiser lists and assignment operators of all *ConfigData/*InputData and property classes", "core/GunnsBasicLink.cpp, core/GunnsElectDistributed2WayBus.cpp, ms-utils/properties/*.cpp")],
    "technique": "abstract interpretation with value numbering (symbolic copy equality per attribute, inlined bases, array loop summaries)",
    "note": "Decides every user-written copy constructor/assignment: each attribute's value number on every normal exit equals the source attribute's. Trusts library container copies; source and destination distinct.",
}

THAT = T("obj", "that")

# Documented exceptions: (class, field or None for all) -> reason.  The copy's contract (stated in the
# function's own documentation) excludes these; where it fixes a value instead, the value is checked.
CONST_ASSIGN = "assignment documented to leave the const members alone"
EXC = {
    ("operator=", "GunnsFluidSorptionBedSegmentConfigData", None): "all members are const; assignment documented as a no-op",
    ("operator=", "GunnsFluidSorptionBedSegmentInputData", None): "all members are const; assignment documented as a no-op",
    ("operator=", "GunnsElectPvCellEquivCircuit", "mName"): "documented: except for the instance name",
    ("operator=", "GunnsOptimGradientDescentState", "*mState"): "documented: only assigns the state vector",
    ("operator=", "GunnsOptimParticleSwarmState", "mVelocity"): "documented: velocity and acceleration are not copied",
    ("operator=", "GunnsOptimParticleSwarmState", "mAcceleration"): "documented: velocity and acceleration are not copied",
    ("ctor", "SorbantProperties", "mDefinedCompounds"): "every instance holds the same defined-compounds table",
}
# the fluid adsorption compound documents a shallow copy whose run-time state must be re-initialized
SHALLOW = {"GunnsFluidAdsorptionCompound": {"mAdsorptionRate", "mSorptionHeat", "mName", "mTraceCompound", "mIndex", "mMWeight", "mFluid", "mDependentCompound"}}
# arrays sized per object: documented element-wise assignment up to the smaller size, sizes kept
MIN_ARRAYS = {"mMoleFractions": "mNumFluid", "mTcMoleFractions": "mNumTc"}


def same(an, st, a, b, q, f, path, out):
    fx = an.fx
    tk = f["tk"]
    if f.get("ref"):
        return
    if tk == "r":
        al = st.env.get(T("alias", a))
        subs = [k for k in st.env if k is not a and an.under(k, a) and k.op in ("fld", "idx", "hv")]
        if al is b and not subs:
            return
        t = f["t"].replace("const ", "")
        if t in fx.classes:
            for o, g in fx.all_fields(t):
                same(an, st, T("fld", a, g["n"]), T("fld", b, g["n"]), t, g, path + "." + g["n"], out)
            return
        v = an.load(a, st)
        if al is b or (v.op == "copyof" and v.a[0] is b):
            return
        out.append((path, "is not copied (holds %s)" % show(v)))
        return
    if tk == "a":
        if st.env.get(T("alias", a)) is b:
            return
        rg = st.env.get(T("range", a))
        n = f.get("len")
        if rg is not None:
            i, lo, hi, v = rg.a
            if num(lo) == 0 and num(hi) == n and v is T("idx", b, i):
                return
            out.append((path, "elements %s up to %s of %s are set to %s" % (show(lo), show(hi), n, show(v))))
            return
        v = an.load(a, st)
        if v.op == "arrcopy" and v.a[0] is b:
            return
        if n and n <= 4096 and all(an.load(T("idx", a, C(i)), st) is T("idx", b, C(i)) for i in range(n)):
            return
        out.append((path, "array is not copied element by element"))
        return
    v = an.load(a, st)
    if v is b:
        return
    if tk == "p" and v.op in ("new", "phi"):
        # deep copy: a fresh array of the same length, filled element by element
        base = T("*", v)
        rg = st.env.get(T("range", base))
        if rg is not None:
            i, lo, hi, x = rg.a
            if num(lo) == 0 and x is T("idx", T("*", b), i):
                return
    out.append((path, "is %s, not the source's %s" % (show(v)[:120], path)))


class Copy(Analysis):
    pass


def run(ctx):
    fx = ctx.fx
    ctx.rule("copy-ctor", "a copy constructor leaves every attribute equal to the source's same attribute on every path", 150)
    ctx.rule("copy-assign", "a copy assignment leaves every attribute equal to the source's same attribute on every path, apart from documented exceptions", 35)
    ctx.assume += ["source and destination are distinct objects", "library containers and strings copy correctly",
                   "documented partial copies are exempt attribute by attribute (table in gsa/rules/p01.py)"]
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if not f.c or f.file.startswith("ms-utils/parsing"):
            continue
        if not (f.d.get("cp") or f.d.get("ca")):
            continue
        kind = "ctor" if f.kind == "ctor" else "operator="
        rule = "copy-ctor" if kind == "ctor" else "copy-assign"
        ctx.count(rule + "s")
        if f.d.get("ca") and f.acc == "priv" and not [s for s in (f.body or {}).get("s", []) if s and s["k"] != "ret"]:
            continue
        an = Copy(fx)
        rets, thr = an.run(f, cls=f.c, args=[T("addr", THAT)])
        fields = fx.all_fields(f.c)
        bad = {}
        for v, st in rets:
            for o, g in fields:
                out = []
                if g["n"] in MIN_ARRAYS and fx.is_a(f.c, "FluidDistributedMixtureData") and kind == "operator=":
                    n = T("fld", THIS, MIN_ARRAYS[g["n"]]), T("fld", THAT, MIN_ARRAYS[g["n"]])
                    base = T("*", T("fld", THIS, g["n"]))
                    rg = st.env.get(T("range", base))
                    ok = False
                    if rg is not None:
                        i, lo, hi, x = rg.a
                        ok = num(lo) == 0 and hi.op == "call" and hi.a[0] == "min" and set(hi.a[1:]) == set(n) and x is T("idx", T("*", T("fld", THAT, g["n"])), i)
                    if not ok:
                        bad[g["n"]] = "elements up to the smaller size are not copied"
                    continue
                if g["n"] in MIN_ARRAYS.values() and fx.is_a(f.c, "FluidDistributedMixtureData") and kind == "operator=":
                    if an.load(T("fld", THIS, g["n"]), st) is not T("fld", THIS, g["n"]):
                        bad[g["n"]] = "own array size is overwritten"
                    continue
                same(an, st, T("fld", THIS, g["n"]), T("fld", THAT, g["n"]), f.c, g, g["n"], out)
                for p, d in out:
                    bad.setdefault(p, d)
        for o, g in fields:
            ks = [p for p in bad if p == g["n"] or p.startswith(g["n"] + ".")]
            why = exempt(fx, kind, f.c, g)
            if why and ks:
                ctx.skip("%s %s.%s" % (kind, f.c, g["n"]), why)
                continue
            ctx.ob(rule, "%s(%s).%s" % (f.c, kind, g["n"]), not ks, f.loc, "; ".join("%s %s" % (p, bad[p]) for p in ks[:3]))


def exempt(fx, kind, c, g):
    if g.get("const") and kind == "operator=":
        return CONST_ASSIGN
    if fx.is_a(c, "TsBaseException"):
        return "exception text is rebuilt by the exception classes"
    if c in SHALLOW and g["n"] in SHALLOW[c]:
        return "documented shallow copy: run-time state is re-initialized"
    for (k, q, fld), why in EXC.items():
        if k == kind and q == c and (fld is None or fld == g["n"] or (fld[0] == "*" and g["n"] != fld[1:])):
            return why
    if c == "SorbantProperties" and g["n"] == "mDefinedCompounds":
        return "every instance holds the same defined-compounds table"
    if c == "PowerBusElectConfigData" and g["n"] == "mPorts" and kind == "ctor":
        return "scratch array each instance allocates for itself with the same fixed size; never read"
    return None
