"""Distinguished-element analysis: loops over an array of objects are followed for one arbitrary element.

`watch` is a list of index terms (the distinguished indices).  Wherever a value is joined, the order
between the joined value and each watched index is kept, so that 'the loop has (not yet) passed the
distinguished element' is known in each state; calls and stores on an element are split into the case
of the distinguished element and the case of any other."""
from .focus import *


AT = T("g", "@element")


class Elem(Focus):
    watch = ()
    remerge = True

    def bounds(self):
        """(index, size) pairs: 0 <= index < size"""
        return ()

    def start(self, st):
        for i, n in self.bounds():
            for c in (mk("<=", C(0), i), mk("<", i, n), mk("<", C(0), n)):
                st = self.assume(c, True, st)
        return st

    def split_index(self, i, w, st):
        """[(is the watched element, state)]"""
        if i is w:
            return [(True, st)]
        out = []
        c = mk("==", i, w)
        for want in (True, False):
            tr = self.truth(c, st)
            if tr is not None and tr is not want or tr is None and want is not None and self.impossible(i, w, want, st):
                continue
            s = self.assume(c, want, st.copy())
            if s is not None:
                if not want:
                    s.facts[mk("!=", i, w)] = True
                    if self.rel("<=", i, w, st):
                        s.facts[mk("<", i, w)] = True
                    elif self.rel(">=", i, w, st):
                        s.facts[mk("<", w, i)] = True
                out.append((want, s))
        return out

    def impossible(self, i, w, eq, st):
        if eq:
            return self.rel("<", i, w, st) or self.rel(">", i, w, st)
        return self.rel("<=", i, w, st) and self.rel(">=", i, w, st)

    def rel(self, op, x, w, st):
        """x op w is known (integers)"""
        if self.atom(op, x, w, st):
            return True
        s = -1 if op[0] == ">" else 1
        if op in (">", "<"):
            return x.op in ("+", "c") and self.atom(op + "=", mk("+", x, C(s), "i"), w, st)
        if self.atom(op[0], x, w, st):
            return True
        return x.op in ("+", "c") and (self.atom(op[0], mk("+", x, C(-s), "i"), w, st) or self.atom(op, mk("+", x, C(s), "i"), w, st))

    def atom(self, op, x, w, st):
        if x is w:
            return op in ("<=", ">=")
        a, b = (x, w) if op in ("<", "<=") else (w, x)
        o = op.replace(">", "<")
        if self.truth(mk(o, a, b), st) is True:
            return True
        if o == "<=" and (self.truth(mk("<", a, b), st) is True or self.truth(mk("==", a, b), st) is True):
            return True
        if o == "<" and self.truth(mk("!=", a, b), st) is True and self.atom(op + "=", x, w, st):
            return True
        # through the sizes
        for i, n in self.bounds():
            if w is not i:
                continue
            if op in (">", ">=") and (st.facts.get(mk("<=", n, x)) is True or st.facts.get(mk("==", x, n)) is True or x is n):
                return True
            if op == ">=" and x is mk("-", n, C(1), "i"):
                return True
            if op in ("<", "<="):
                y = self.interval(x, st)
                if y.hi < 0:
                    return True
        return False

    def feasible(self, c, st):
        """contradictions with the order of the watched indices"""
        for i, n in self.bounds():
            x = None
            if c.op in ("<=", "<", "==") and (c.a[0] is n or c.op == "==" and c.a[1] is n):
                x = c.a[1] if c.a[0] is n else c.a[0]
                if self.rel("<=", x, i, st):
                    return False
            elif c.op in ("<", "<=", "==") and (num(c.a[1]) is not None or c.op == "==" and num(c.a[0]) is not None):
                x, k = (c.a[0], num(c.a[1])) if num(c.a[1]) is not None else (c.a[1], num(c.a[0]))
                u = k - 1 if c.op == "<" else k
                if u < 0 and self.known(">=", x, i, st) or u < 1 and self.known(">", x, i, st):
                    return False
            elif c.op == "<" and c.a[1] is i and st.facts.get(mk("<=", i, c.a[0])) is True:
                return False
        return True

    # ---- one iteration is the one of the distinguished element
    def on_iterate(self, n, site, states, fr):
        cmps = [(x, y) for x, y in self.comparisons(n.get("c"))]
        again = any(x.get("k") == "idx" for x in walk(n.get("c"))) and not any(x.get("k") in ("inc", "asg", "call", "ctor") for x in walk(n.get("c")))
        for w, size in self.bounds():
            out = []
            for st in states:
                var = None
                for x, y in cmps:
                    if var is not None:
                        break
                    var = self.loop_var(x, y, w, size, st, fr)
                if var is None:
                    out.append(st)
                    continue
                k, v = var
                for eq, s in self.split_index(v, w, st):
                    s = s.copy()
                    if eq:
                        s.env[k] = w
                        old = s.env.get(AT)
                        s.env[AT] = T("at", (old.a[0] if old is not None else ()) + ((site, w, "at"),)) if not (old is not None and (site, w, "at") in old.a[0]) else old
                        if again:
                            # what the condition says about this element
                            out += self.cond(n["c"], s, fr)[0]
                            continue
                    out.append(s)
            states = out
        return states

    def comparisons(self, c):
        """(variable, other operand) pairs of the comparisons in a loop condition"""
        for x in walk(c):
            if x.get("k") == "bin" and x.get("op") in ("<", "<=", ">", ">=", "!="):
                for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                    a = strip_ops(a)
                    if a.get("k") == "var":
                        yield a, b
        if c and strip_ops(c).get("k") == "var":
            yield strip_ops(c), {"k": "int", "v": 0}

    def loop_var(self, x, y, w, size, st, fr):
        """the variable x of the comparison with y runs over the range of the distinguished index w"""
        for k, v in st.env.items():
            if k.op == "v" and k.a[0] == fr.id and k.a[1] == x.get("id") and isinstance(v, Term) and v is not w and v is not size:
                if self.rel("<", v, w, st) or self.rel(">", v, w, st):
                    return None
                o = self.operand(y, st, fr)
                if o is not None and num(o) is None:
                    if o in (size, mk("-", size, C(1), "i")) and self.below(v, size, st) and (self.rel("<=", v, w, st) or self.rel(">=", v, w, st)):
                        return k, v
                elif o is not None and self.nonneg(v, st) and self.rel(">=", v, w, st):
                    return k, v
                return None
        return None

    def operand(self, y, st, fr):
        if y.get("k") == "int":
            return C(y["v"])
        r = self.quiet_ev(y, st.copy(), fr)
        vs = {v for v, s in r}
        return vs.pop() if len(vs) == 1 else None

    def interval(self, t, st):
        y = super().interval(t, st)
        if t.op == "+" and num(t.a[1]) is None:
            p, q = self.interval(t.a[0], st), self.interval(t.a[1], st)
            lo, hi = p.lo > -INF and q.lo > -INF, p.hi < INF and q.hi < INF
            if lo or hi:
                y = y.meet(Iv(p.lo + q.lo if lo else -INF, p.lo_o or q.lo_o if lo else True, p.hi + q.hi if hi else INF, p.hi_o or q.hi_o if hi else True))
        return y

    def nonneg(self, v, st):
        x = self.interval(v, st)
        return x.lo > -1 or x.lo == -1 and x.lo_o

    def bulk_copy(self, e, args, st):
        """(destination, source, number of elements) of a block copy"""
        n = e.get("n")
        if n in ("memcpy", "memmove") and len(args) == 3:
            c = args[2]
            for s, size in self.bounds():
                if c in (mk("*", size, C(8), "i"), mk("*", C(8), size, "i")):
                    return args[0], args[1], size
        if n in ("copy", "copy_n") and len(args) == 3:
            for s, size in self.bounds():
                if n == "copy" and args[1] is mk("+", args[0], size, "i") or n == "copy_n" and args[1] is size:
                    return args[2], args[0], size
        return None

    def below(self, v, size, st):
        for c in (mk("<", v, size), mk("!=", v, size), mk("<=", v, mk("-", size, C(1), "i"))):
            if self.truth(c, st) is True:
                return True
        return False

    def on_iterated(self, n, site, out, fr):
        """the iteration of the distinguished element is over: remember that it was passed"""
        for lst in (out.n, out.b, out.c):
            for s in lst:
                old = s.env.get(AT)
                if old is not None and any(x[0] == site for x in old.a[0]):
                    s.env = dict(s.env)
                    s.env[AT] = T("at", tuple((site, x[1], "past") if x[0] == site else x for x in old.a[0]))
        for v, s in out.r:
            self.leave(s, site)
        return out

    def leave(self, s, site):
        old = s.env.get(AT)
        if old is not None and any(x[0] == site for x in old.a[0]):
            left = tuple(x for x in old.a[0] if x[0] != site)
            s.env = dict(s.env)
            if left:
                s.env[AT] = T("at", left)
            else:
                del s.env[AT]

    def on_loop_done(self, n, site, states, fr):
        out = []
        for s in states:
            s = s.copy()
            self.leave(s, site)
            out.append(s)
        return out

    # stores to one element leave the distinguished one alone when they are known to differ
    def same_index(self, loc, st):
        """element i of an array is the distinguished one when i is known to be its index"""
        if loc.op == "idx" and loc.a[1].op not in ("c", "sym") and loc.a[1] not in self.watch:
            for w in self.watch:
                if st.facts.get(mk("==", loc.a[1], w)) is True:
                    return T("idx", loc.a[0], w)
        return loc

    def load(self, loc, st):
        if loc.op == "idx" and loc not in st.env:
            loc = self.same_index(loc, st)
        return super().load(loc, st)

    def store(self, loc, val, st, node, fr):
        saved = []
        loc = self.same_index(loc, st)
        if loc.op == "idx":
            for w in self.watch:
                k = T("idx", loc.a[0], w)
                if k is not loc and k in st.env and (self.rel("<", loc.a[1], w, st) or self.rel(">", loc.a[1], w, st) or self.truth(mk("!=", loc.a[1], w), st) is True):
                    saved.append((k, st.env[k]))
        r = super().store(loc, val, st, node, fr)
        for k, v in saved:
            r.env[k] = v
        return r

    def forget_elements(self, p, s, site):
        # explicit entries of the distinguished elements already account for every earlier store
        saved = [(k, v) for k, v in s.env.items() if k.op == "idx" and k.a[0] is p and k.a[1] in self.watch]
        super().forget_elements(p, s, site)
        for k, v in saved:
            s.env[k] = v

    def keep(self, st):
        return (st.facet, st.env.get(AT))

    def known(self, op, x, i, st):
        """x op i by a recorded order (not by the interval of x)"""
        if x.op in ("c", "fld"):
            return False
        return st.facts.get(mk("<", i, x)) is True or op == ">=" and (st.facts.get(mk("<=", i, x)) is True or st.facts.get(mk("==", i, x)) is True)

    def join(self, a, b, site):
        s = super().join(a, b, site)
        if s is a:
            return s
        if a.facts != b.facts:
            # different from the distinguished index on both sides, below on one and above on the other
            for c, tv in a.facts.items():
                if tv is True and c.op == "<" and c not in s.facts:
                    for x, w in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                        if w in self.watch and x.op == "phi" and self.apart(x, w, b):
                            s.facts[mk("!=", x, w)] = True
        if s.env is a.env:
            return s
        for k, v in s.env.items():
            if k.op in ("v", "tv") and v.op == "phi" and v.a[1] is k and v.a[0] == site:
                va, vb = a.env.get(k), b.env.get(k)
                if va is None or vb is None:
                    continue
                for w in self.watch:
                    for op in ("<", "<=", ">", ">="):
                        if self.rel(op, va, w, a) and self.rel(op, vb, w, b):
                            c = mk(op, v, w) if op in ("<", "<=") else mk(op.replace(">", "<"), w, v)
                            s.facts[c] = True
                    if k.op == "tv" and self.apart(va, w, a) and self.apart(vb, w, b):
                        s.facts[mk("!=", v, w)] = True
        return s

    def apart(self, x, w, st):
        return self.rel("<", x, w, st) or self.rel(">", x, w, st) or self.truth(mk("!=", x, w), st) is True

    def index_of(self, obj, array):
        """i when obj is element i of the array of pointers in field `array`"""
        if isinstance(obj, Term) and obj.op == "*" and obj.a[0].op == "idx":
            b = obj.a[0].a[0]
            while isinstance(b, Term) and b.op in ("*", "h"):
                b = b.a[1] if b.op == "h" else b.a[0]
            if b.op == "fld" and b.a[1] == array:
                return obj.a[0].a[1]
        return None


def strip_ops(x):
    while True:
        k = x.get("k")
        if k in ("inc", "cast", "conv", "paren"):
            x = x["e"]
        else:
            return x


class Ghost(Elem):
    """The facet is a ghost protocol state: a sorted tuple of (name, value)."""

    def __init__(self, fx):
        super().__init__(fx)
        self.bad = {}
        self.events = {}

    def g(self, st, k):
        return dict(st.facet)[k]

    def set(self, st, **kw):
        d = dict(st.facet)
        ch = ["%s=%s" % x for x in kw.items() if d[x[0]] != x[1]]
        if ch:
            st.note(" ".join(ch))
        d.update(kw)
        st.facet = tuple(sorted(d.items(), key=lambda x: x[0]))

    def viol(self, rule, what, node, st, fr):
        k = (rule, what)
        if k not in self.bad:
            self.bad[k] = ("%s:%s" % (fr.fn.file if fr else "core/Gunns.cpp", node.get("l", 0) if node else 0), st.path() + ["protocol state: " + ", ".join("%s=%s" % x for x in st.facet)])

    def need(self, rule, ok, what, node, st, fr):
        self.events[rule] = self.events.get(rule, 0) + 1
        if not ok:
            self.viol(rule, what, node, st, fr)

    def report(self, ctx, name, loc, rules):
        for rule in rules:
            if self.events.get(rule):
                ctx.count("protocol events checked", self.events[rule])
                b = [(w, x) for (ru, w), x in self.bad.items() if ru == rule]
                if not b:
                    ctx.ob(rule, name, True, loc)
                for w, (where, path) in b:
                    ctx.ob(rule, "%s: %s" % (name, w), False, where, w, path)


def ghost(d):
    return tuple(sorted(d.items(), key=lambda x: x[0]))
