"""P17: loops over collections process every element."""
import json, os
from ..facts import VERIF, Broken, walk
from . import p04

PROP = {
    "title": "Loops over collections process every element",
    "statement": "Every loop over a collection (network nodes, links, islands, fluid constituents, trace compounds, ports, loads, power sources, strings, segments, particles, table rows ...) goes through exactly the elements that the released code goes through: it starts at the same first element and ends after the same last one, skips none in between, counts with the number of elements of that same collection, leaves none of them out or treats it differently because of its position, and is not left before its last element after having processed some.",
    "over": ["inputs", "configurations"],
    "quant": "every loop with an index or iterator in every function of the core, aspects, ms-utils and TS models, every collection it indexes or passes its index for, and every number of elements",
    "why": "A loop that misses an element only shows in configurations with the right number of elements and different data in the missed one: the test articles have one or two constituents, loads or segments, often with equal or zero data, so many such loops pass the tests.",
    "files": ["core", "aspects", "gunns-ts-models", "ms-utils"],
    "mech": [("loops over mNumLinks, mNetworkSize, mNTypes, mNConstituents, mNumPorts ...", "core/network/Gunns.cpp and every model")],
    "technique": "traversal analysis of every loop in the syntax tree (first element, end, step, index shift, positional conditions, early exits, independent of the loop's form), against a reviewed table of traversals",
    "note": "The table (gsa/tables/loops.json) holds the traversals of the reviewed tree. Loops whose bounds do not resolve to attributes, parameters and constants, loops over local arrays, conditions on the element's data and loops that moved to a function that is not tabled are not decided.",
}
TABLE = os.path.join(VERIF, "gsa", "tables", "loops.json")
DIRS = ("core", "aspects", "gunns-ts", "ms-utils")
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "conv", "paren", "tmp"):
        e = e.get("e") or e.get("x")
    return e


class Fn:
    """the loops of one function"""
    def __init__(self, fx, f):
        self.fx, self.f = fx, f
        self.init, self.writes = {}, {}
        self.param = {p["id"]: i for i, p in enumerate(f.ps)}
        self.counted = {strip(n["e"]).get("id") for n in walk(f.body) if n.get("k") == "inc"}
        for n in walk(f.body):
            k = n.get("k")
            if k == "decl":
                for v in n["v"]:
                    if v.get("i") is not None:
                        self.init[v["id"]] = v["i"]
            x = n["x"] if k == "asg" else n["e"] if k == "inc" else n["e"] if k == "un" and n.get("op") == "&" else None
            x = strip(x)
            if x is not None and x.get("k") == "var":
                self.writes.setdefault(x["id"], []).append(n)
        self.extent = {}    # local arrays are known by their extent
        for v, i in list(self.init.items()):
            i = strip(i)
            if i.get("k") == "new" and i.get("n") is not None and v not in self.writes:
                l = self.lin(i["n"], ())
                if l and known(l[0]):
                    self.extent[v] = "array of " + show(l)
        self.out = []       # (thing, lo, hi, step, conditions, early)
        self.const = {}     # thing -> constant indices used
        for n in walk(f.body):
            b = self.index(n)
            if b:
                l = self.lin(b[1], ())
                if l and not l[0]:
                    self.const.setdefault(b[0], set()).add(l[1])
        self.scan(f.body, None)

    # ------------------------------------------------------------ expressions
    def lin(self, e, loop, d=0):
        """(sorted names, constant) of an integer expression; None when it has no such form"""
        e = strip(e)
        if e is None or d > 12:
            return None
        k = e.get("k")
        if k in ("lit", "enum", "int", "bool"):
            v = e.get("v")
            return ((), int(v)) if isinstance(v, (int, float)) and v == int(v) else None
        if k == "var":
            if e["id"] in loop:
                return (("loop",), 0)
            if e["id"] in self.param and e["id"] not in self.writes:
                return (("p%d" % self.param[e["id"]],), 0)
            if e.get("d") == "g":
                g = self.fx.vars.get(e.get("q") or e["n"], {})
                if g.get("const") and g.get("i") is not None:
                    r = self.lin(g["i"], loop, d + 1)
                    if r:
                        return r
                return ((e["n"],), 0)
            if e["id"] in self.init and e["id"] not in self.writes:
                return self.lin(self.init[e["id"]], loop, d + 1)
            return (("@i" if e["id"] in self.counted else "@",), 0)
        if k == "fld":
            return ((e["n"],), 0)
        if k == "bin" and e["op"] in ("+", "-"):
            a, b = self.lin(e["x"], loop, d + 1), self.lin(e["y"], loop, d + 1)
            if not a or not b:
                return None
            s = 1 if e["op"] == "+" else -1
            return (tuple(sorted(a[0] + tuple(n if s > 0 else "-" + n for n in b[0]))), a[1] + s * b[1])
        if k == "bin":
            a, b = self.lin(e["x"], loop, d + 1), self.lin(e["y"], loop, d + 1)
            if not a or not b:
                return None
            if not a[0] and not b[0]:
                v = {"*": lambda: a[1] * b[1], "/": lambda: a[1] // b[1] if b[1] else 0}.get(e["op"])
                return ((), v()) if v else None
            return ((e["op"] + "(" + ",".join(sorted(a[0] + b[0] + tuple(str(x) for x in (a[1], b[1]) if x))) + ")",), 0)
        if k == "call":
            t = self.fx.funcs.get(e.get("u"))
            b = t.body.get("s", []) if t is not None and t.body and not e.get("a") else []
            if len(b) == 1 and b[0].get("k") == "ret" and b[0].get("e") is not None:
                x = strip(b[0]["e"])
                if x.get("k") == "fld":
                    return ((x["n"],), 0)
                if x.get("k") == "call" and x.get("n") == "size" and x.get("o") is not None:
                    return ((self.base(x["o"]) + ".size",), 0)
            if e.get("n") in ("begin", "cbegin", "rbegin"):
                return ((), 0)
            if e.get("n") in ("end", "cend", "rend"):
                return ((self.base(e["o"]) + ".size" if e.get("o") is not None else "size",), 0)
            if e.get("n") == "size" and e.get("o") is not None:
                return ((self.base(e["o"]) + ".size",), 0)
            return ((e["n"],), 0)
        if k == "idx":
            return ((self.base(e["b"]) + "[]",), 0)
        if k in ("deref",) or k == "un" and e.get("op") == "*":
            return self.lin(e.get("e"), loop, d + 1)
        if k == "sizeof":
            return (("sizeof",), 0)
        return None

    def base(self, e, d=0):
        e = strip(e)
        k = e.get("k") if e else None
        if k == "fld":
            return e["n"]
        if k == "var":
            if d < 6 and e["id"] in self.init and e["id"] not in self.writes:
                return self.base(self.init[e["id"]], d + 1)
            return "param%d" % self.param[e["id"]] if e["id"] in self.param else self.extent.get(e["id"], "local")
        if k == "idx":
            return self.base(e["b"], d)
        if k == "un" or k == "deref":
            return self.base(e.get("e"), d)
        if k == "call":
            if e.get("opc") == "[]" or e.get("n") == "at":
                return self.base(e["o"], d)
            t = self.fx.funcs.get(e.get("u"))
            b = t.body.get("s", []) if t is not None and t.body and not e.get("a") else []
            if len(b) == 1 and b[0].get("k") == "ret" and b[0].get("e") is not None:
                x = strip(b[0]["e"])
                if x.get("k") == "un":
                    x = strip(x["e"])
                if x.get("k") == "fld":
                    return x["n"]
            if e.get("n") in ("begin", "end") and e.get("o"):
                return self.base(e["o"], d)
            return e["n"] + "()"
        if k == "new":
            l = self.lin(e["n"], ()) if e.get("n") is not None else None
            return "array of " + show(l) if l and known(l[0]) else "local"
        return "other"

    def index(self, n):
        """(collection, index expression) of an element access"""
        k = n.get("k")
        if k == "idx":
            return self.base(n["b"]), n["i"]
        if k == "call" and n.get("o") is not None and len(n.get("a", [])) == 1 and (n.get("opc") == "[]" or n.get("n") == "at"):
            return self.base(n["o"]), n["a"][0]
        return None

    def uses(self, e, v):
        return any(x.get("k") == "var" and x.get("id") == v for x in walk(e))

    # ------------------------------------------------------------ loops
    def scan(self, n, prev):
        if isinstance(n, list):
            for i, x in enumerate(n):
                self.scan(x, n[:i])
            return
        if not isinstance(n, dict):
            return
        if n.get("k") in ("for", "while", "rangefor", "do"):
            self.loop(n, prev or [])
        for k, x in n.items():
            if isinstance(x, (dict, list)):
                self.scan(x, prev if isinstance(x, dict) and n.get("k") != "block" else None)

    def starts(self, n, prev):
        out = {}
        for s in (prev or [])[-6:] + ([n["i"]] if isinstance(n.get("i"), dict) else n.get("i") or []):
            for x in walk(s):
                if x.get("k") == "decl":
                    for v in x["v"]:
                        if v.get("i") is not None:
                            out[v["id"]] = v["i"]
                elif x.get("k") == "asg" and x.get("op") == "=" and strip(x["x"]).get("k") == "var":
                    out[strip(x["x"])["id"]] = x["y"]
        return out

    def steps(self, n):
        out = {}
        src = [n["n"]] if n.get("n") else []
        if not src:
            b = n["b"]
            src = b.get("s", [b]) if isinstance(b, dict) else b
        for s in src:
            for x in walk(s) if n.get("n") else [s]:
                if x.get("k") == "inc":
                    e = strip(x["e"])
                    if e.get("k") == "var":
                        out[e["id"]] = 1 if x["op"] == "++" else -1
                elif x.get("k") == "asg" and x.get("op") in ("+=", "-="):
                    e, l = strip(x["x"]), self.lin(x["y"], ())
                    if e.get("k") == "var" and l and not l[0]:
                        out[e["id"]] = l[1] if x["op"] == "+=" else -l[1]
                elif x.get("k") == "call" and x.get("opc") in ("++", "--"):
                    e = strip(x.get("o") or x["a"][0])
                    if e is not None and e.get("k") == "var":
                        out[e["id"]] = 1 if x["opc"] == "++" else -1
        return out

    def conj(self, c):
        c = strip(c)
        if c is None:
            return []
        if c.get("k") == "bin" and c["op"] == "&&":
            return self.conj(c["x"]) + self.conj(c["y"])
        return [c]

    def compare(self, c, v):
        """(operator, other side) when c compares v with something"""
        if c.get("k") == "bin" and c["op"] in FLIP:
            x, y, op = strip(c["x"]), strip(c["y"]), c["op"]
        elif c.get("k") == "call" and c.get("opc") in FLIP:
            a = ([c["o"]] if c.get("o") is not None else []) + c["a"]
            if len(a) != 2:
                return None
            x, y, op = strip(a[0]), strip(a[1]), c["opc"]
        else:
            return None
        for l, r, o in ((x, y, op), (y, x, FLIP[op])):
            if l.get("k") == "var" and l["id"] == v:
                return o, r, 0
            if l.get("k") == "bin" and l["op"] in ("+", "-"):       # v + 1 < n
                p, q = strip(l["x"]), strip(l["y"])
                if l["op"] == "+" and q.get("k") == "var" and q["id"] == v:
                    p, q = q, p
                if p.get("k") == "var" and p["id"] == v:
                    return o, {"k": "bin", "op": "-" if l["op"] == "+" else "+", "x": r, "y": q}, 0
        if x.get("k") == "inc" and strip(x["e"]).get("id") == v and x.get("post"):
            return op, y, 1
        return None

    def loop(self, n, prev):
        st, sp = self.starts(n, prev), self.steps(n)
        cs = self.conj(n.get("c"))
        for v in list(sp) + [x["e"]["id"] for c in cs for x in [strip(c.get("x"))] if x and x.get("k") == "inc" and strip(x["e"]).get("k") == "var"]:
            self.variable(n, v, st, sp, cs)

    def variable(self, n, v, st, sp, cs):
        bound, extra = None, 0
        for c in cs:
            r = self.compare(c, v)
            if r and bound is None:
                bound = r
            else:
                extra += 1
        if bound is None or v not in st:
            return
        op, other, post = bound
        outer = ()
        start, lim = self.lin(st[v], outer), self.lin(other, outer)
        step = sp.get(v, -1 if post else 0)
        if not start or not lim or not step:
            return
        if step > 0:
            lo, hi = start, lim if op in ("<", "!=") else (lim[0], lim[1] + 1) if op == "<=" else None
        elif post:
            lo, hi = (lim if op in (">", "!=") else None), start
        else:
            hi = (start[0], start[1] + 1)
            lo = lim if op == ">=" else (lim[0], lim[1] + 1) if op in (">", "!=") else None
        if lo is None or hi is None:
            return
        body = n["b"]
        conds = set()
        for x in walk(body):
            if x.get("k") in ("bin", "call"):
                r = self.compare(x, v)
                if r:
                    l = self.lin(r[1], outer) or (("?",), 0)
                    o = r[0]
                    b = l[1] + 1 if o in ("<=", ">") else l[1]
                    kind = "=" if o in ("==", "!=") else "<"
                    if kind == "=" and step in (1, -1):     # the first and the last element
                        if (l[0], b) == tuple(lo):
                            kind, b = "<", b + 1
                        elif (l[0], b + 1) == tuple(hi):
                            kind = "<"
                    conds.add((kind, l[0], b))
        early = bool(extra) or self.leaves(body)
        things, shift = set(), {}
        for x in walk(body):
            b = self.index(x)
            if b:
                if self.uses(b[1], v):
                    l = self.lin(b[1], (v,))
                    if l and "-loop" in l[0]:
                        continue
                    shift.setdefault(b[0], set()).add(l[1] if l and l[0] == ("loop",) else 0)
            elif x.get("k") == "call" and x.get("n") == "push_back" and x.get("o") is not None:
                things.add(self.base(x["o"]) + ".push_back")
            elif x.get("k") == "call" and any(self.uses(a, v) for a in x.get("a", [])) and not x.get("opc"):
                if any(strip(a).get("k") == "var" and strip(a).get("id") == v for a in x["a"] if strip(a)):
                    things.add(x.get("n", "call") + "()")
        o = strip(st[v])
        if o.get("k") == "call" and o.get("n") in ("begin", "cbegin", "rbegin") and o.get("o") is not None:
            things.add(self.base(o["o"]))
        for t, k in [(t, 0) for t in things] + [(t, k) for t, v in shift.items() for k in v]:
            self.out.append((t, (lo[0], lo[1] + k), (hi[0], hi[1] + k), abs(step), tuple(sorted(conds)), early, n["l"], self.effect(body)))

    def leaves(self, b, inner=False):
        """the loop may be left before its last element"""
        if isinstance(b, list):
            return any(self.leaves(x, inner) for x in b)
        if not isinstance(b, dict):
            return False
        k = b.get("k")
        if k == "ret" or k == "break" and not inner:
            return True
        inner = inner or k in ("for", "while", "do", "switch", "rangefor")
        return any(self.leaves(x, inner) for x in b.values() if isinstance(x, (dict, list)))

    def effect(self, b):
        for x in walk(b):
            k = x.get("k")
            if k == "asg" and (x["op"] != "=" or any(self.index(y) for y in walk(x["x"]))):
                return True
            if k == "call" and not x.get("cm") and x.get("o") is not None and not x.get("opc"):
                return True
        return False


def rangefor(fn):
    for n in walk(fn.f.body):
        if n.get("k") == "rangefor":
            fn.out.append((fn.base(n["r"]), ((), 0), ((fn.base(n["r"]) + ".size",), 0), 1, (), fn.leaves(n["b"]), n["l"], fn.effect(n["b"])))


def entries(fx):
    for f in sorted(fx.funcs.values(), key=lambda f: f.q + f.u):
        if f.body and f.file.startswith(DIRS):
            yield f


def enc(t):
    return json.loads(json.dumps(t))


def named(t):
    """reported only for collections and operations that a change of local names leaves alone"""
    return not t.startswith(("local", "other", "param"))


def summary(fx, f):
    r = Fn(fx, f)
    rangefor(r)
    d = {}
    for t, lo, hi, step, conds, early, l, eff in r.out:
        if named(t):
            d.setdefault(t, []).append((enc([lo, hi, step, conds, early]), l, eff))
    return d, r.const


def learn(fx):
    tab = {}
    for f in entries(fx):
        d, const = summary(fx, f)
        e = {}
        for t, v in sorted(d.items()):
            u = []
            for x, l, eff in v:
                if x not in u:
                    u.append(x)
            e[t] = {"loops": sorted(u, key=json.dumps), "const": sorted(const.get(t, ()))}
        if e:
            tab[p04.key(f)] = e
    return tab


def known(names):
    return not any("@" in n or n.startswith(("local", "other", "param")) or "(" in n or "?" in n or "p" == n[:1] and n[1:].isdigit() for n in names)


def show(e):
    n = " + ".join(e[0])
    return str(e[1]) if not n else n if not e[1] else "%s %s %d" % (n, "+" if e[1] > 0 else "-", abs(e[1]))


def differs(a, b, counts, mine, thing):
    """True: a and b are certainly different, False: equal, None: undecided"""
    if a == b:
        return False
    if any(n == "@" or "?" in n for n in a[0] + b[0]):
        return None
    if a[0] == b[0]:
        return True
    if len(a[0]) <= 1 and len(b[0]) <= 1 and known(a[0]) and known(b[0]):
        # another attribute that counts something else
        if all(n in counts and n not in mine and n != thing + ".size" for n in a[0]):
            return True
    return None


def decide(thing, got, want, counts, mine, const):
    """None when the traversal is one of the tabled ones, or undecided; else what is wrong"""
    lo, hi, step, conds, early = got[0]
    why = []
    for wl, wh, ws, wc, we in want["loops"]:
        bad, open_ = [], False
        for x, y, t in ((lo, wl, "starts at %s instead of %s"), (hi, wh, "ends before %s instead of %s")):
            d = differs(x, y, counts, mine, thing)
            open_ = open_ or d is None
            if d:
                if not x[0] and not y[0] and any(i in const and i not in want["const"] for i in range(min(x[1], y[1]), max(x[1], y[1]))):
                    return None     # these elements are processed one by one
                bad.append(t % (show(x), show(y)))
        if step != ws:
            bad.append("steps by %d instead of %d" % (step, ws))
        new = [c for c in conds if c not in wc]
        if new and any(not known(c[1]) for c in conds):
            return None
        if new and any(i not in want["const"] for i in const):
            return None
        for c in new:
            bad.append("treats elements %s differently" % ("at " + show(c[1:]) if c[0] == "=" else "before and from " + show(c[1:])))
        if early and not we and got[2]:
            bad.append("may be left before its last element")
        if not bad and not open_:
            return None
        if not open_:
            why.append("; ".join(bad))
    return min(why, key=len) if why else None


def run(ctx):
    fx = ctx.fx
    ctx.rule("traversal", "the loop goes through exactly the tabled elements", 500)
    tab = json.load(open(TABLE))
    fs = [f for f in entries(fx) if p04.key(f) in tab]
    if len(fs) < 0.8 * len(tab):
        raise Broken("only %d of the %d tabled functions exist" % (len(fs), len(tab)))
    counts, mine = {}, {}
    for d in tab.values():
        for t, e in d.items():
            for l in e["loops"]:
                for n in l[1][0]:
                    counts[n] = counts.get(n, 0) + 1
                    mine.setdefault(t, set()).add(n)
    for f in fs:
        ctx.count("functions with loops over collections")
        d, const = summary(fx, f)
        for t, want in sorted(tab[p04.key(f)].items()):
            if t not in d:
                ctx.skip(f.q, "no recognised loop over %s" % t)
                continue
            for got in d[t]:
                bad = decide(t, got, want, counts, mine.get(t, ()), const.get(t, ()))
                ctx.ob("traversal", "%s: loop over %s" % (f.q, t), bad is None, "%s:%s" % (f.file, got[1]),
                       "" if bad is None else "the loop over %s %s" % (t, bad))
