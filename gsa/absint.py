"""Abstract interpreter over the structured syntax trees.

Domain: a Herbrand (value-numbering) store - locations to hash-consed terms - with interval and truth
facts about terms, plus an analysis-specific facet.  States that agree on the facet are joined at
every merge point (property simulation); states that differ on it are kept apart.  Loops run to a
fixpoint by joining with the loop head.  Calls with a known body are inlined when the analysis asks
for it (virtual calls through the dynamic class of the receiver), other calls are opaque and havoc
what they can reach through their receiver and reference/pointer arguments.
"""
import math
from .facts import walk, Broken

INF = math.inf


class Term:
    __slots__ = ("op", "a", "size", "_id", "vol")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self._id < o._id


_tab = {}
_cnt = [0]
VOLATILE = ("phi", "ret", "site", "elem", "big")


def T(op, *a):
    if op == "c" and isinstance(a[0], bool):
        a = (int(a[0]),)
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a = op, a
        t.size = 1 + sum(x.size for x in a if isinstance(x, Term))
        # names that are bound again each time their program point is reached
        vol = None
        for x in a:
            if isinstance(x, Term) and x.vol:
                vol = x.vol if vol is None or vol is x.vol else vol | x.vol
        if op in VOLATILE:
            vol = frozenset((t,)) | (vol or frozenset())
        t.vol = vol
        _cnt[0] += 1
        t._id = _cnt[0]
        _tab[k] = t
    return t


def C(v):
    return T("c", v)


THIS = T("obj", "this")
TRUE, FALSE = C(1), C(0)


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    o, a = t.op, t.a
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    if o == "c":
        return "%g" % a[0] if isinstance(a[0], (int, float)) else repr(a[0])
    if o == "obj":
        return str(a[0])
    if o == "sym":
        return str(a[0])
    if o in ("fld", "h"):
        if o == "h":
            return s(a[1]) + "'"
        b = s(a[0])
        return a[1] if b == "this" else b + "." + a[1]
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "*":
        return "*" + s(a[0])
    if o == "addr":
        return "&" + s(a[0])
    if o == "v":
        return "%s" % (a[2],)
    if o == "g":
        return a[0]
    if o == "phi":
        return "phi(%s)" % (s(a[1]) if isinstance(a[1], Term) else a[1])
    if o in ("+", "-", "*.", "/", "<", "<=", "==", "!=", "&&", "||", "%"):
        if len(a) == 2:
            return "(%s %s %s)" % (s(a[0]), o.strip("."), s(a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ---------------------------------------------------------------------- intervals
class Iv:
    """Interval with open/closed ends, plus a finite set of excluded points."""
    __slots__ = ("lo", "lo_o", "hi", "hi_o", "ne")
    WATCH = frozenset()         # points whose exclusion by both sides of a join is remembered

    def __init__(self, lo=-INF, lo_o=True, hi=INF, hi_o=True, ne=frozenset()):
        self.lo, self.lo_o, self.hi, self.hi_o, self.ne = lo, lo_o, hi, hi_o, ne

    def key(self):
        return (self.lo, self.lo_o, self.hi, self.hi_o, self.ne)

    def __eq__(self, o):
        return isinstance(o, Iv) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.lo_o or self.hi_o or self.lo in self.ne))

    def top(self):
        return self.lo == -INF and self.hi == INF and not self.ne

    def meet(self, o):
        lo, lo_o = max((self.lo, self.lo_o), (o.lo, o.lo_o))
        hi, nh = min((self.hi, not self.hi_o), (o.hi, not o.hi_o))
        ne = frozenset(x for x in self.ne | o.ne if lo <= x <= hi)
        hi_o = not nh
        if lo in ne and not lo_o:
            lo_o = True
        if hi in ne and not hi_o:
            hi_o = True
        ne = frozenset(x for x in ne if lo < x < hi)
        return Iv(lo, lo_o, hi, hi_o, ne)

    def hull(self, o):
        lo, lo_o = min((self.lo, self.lo_o), (o.lo, o.lo_o))
        hi, nh = max((self.hi, not self.hi_o), (o.hi, not o.hi_o))
        ne = frozenset(x for x in self.ne | o.ne | Iv.WATCH if not self.has(x) and not o.has(x) and lo < x < hi)
        return Iv(lo, lo_o, hi, not nh, ne)

    def has(self, x):
        if x in self.ne:
            return False
        return (self.lo < x or (self.lo == x and not self.lo_o)) and (x < self.hi or (x == self.hi and not self.hi_o))

    def __repr__(self):
        return "%s%g, %g%s%s" % ("(" if self.lo_o else "[", self.lo, self.hi, ")" if self.hi_o else "]",
                                 "".join(" \\{%g}" % x for x in sorted(self.ne)))


TOPIV = Iv()


def point(v):
    return Iv(v, False, v, False)


# ---------------------------------------------------------------------- states
class State:
    __slots__ = ("env", "iv", "facts", "facet", "trace")

    def __init__(self, env=None, iv=None, facts=None, facet=None, trace=None):
        self.env = {} if env is None else env
        self.iv = {} if iv is None else iv
        self.facts = {} if facts is None else facts
        self.facet = facet
        self.trace = trace          # linked list (parent, text), witness only

    def copy(self):
        return State(dict(self.env), dict(self.iv), dict(self.facts), self.facet, self.trace)

    def note(self, txt):
        self.trace = (self.trace, txt)

    def path(self):
        out, t = [], self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Out:
    __slots__ = ("n", "b", "c", "r", "t")

    def __init__(self, n=None):
        self.n = n if n is not None else []
        self.b, self.c, self.r, self.t = [], [], [], []

    def add(self, o):
        self.b += o.b
        self.c += o.c
        self.r += o.r
        self.t += o.t


class Frame:
    __slots__ = ("fn", "id", "this", "parent", "line", "cls", "depth")

    def __init__(self, fn, this, parent, line, cls):
        self.fn, self.this, self.parent, self.line, self.cls = fn, this, parent, line, cls
        self.depth = parent.depth + 1 if parent else 0
        self.id = "%s|%s:%s" % (parent.id, fn.u, line) if parent else fn.u

    def chain(self):
        f, out = self, []
        while f:
            out.append("%s (%s)" % (f.fn.q, f.fn.loc if not f.parent else "called at line %s" % f.line))
            f = f.parent
        return out[::-1]


PURE = {"fabs", "abs", "sqrt", "exp", "log", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "log10", "floor", "ceil",
        "max", "min", "fmod", "isnan", "isinf", "tanh", "cosh", "sinh", "cbrt", "hypot"}
CMP_NEG = {"<": "<=", "<=": "<"}
COMM = {"+", "*.", "==", "!=", "&", "|", "^"}


def num(t):
    return t.a[0] if t.op == "c" and isinstance(t.a[0], (int, float)) else None


def mk(op, x, y, tk="f"):
    """Binary operator on terms, canonicalised."""
    if op == "*":
        op = "*."
    if op == ">":
        op, x, y = "<", y, x
    elif op == ">=":
        op, x, y = "<=", y, x
    a, b = num(x), num(y)
    if a is not None and b is not None:
        try:
            if op == "+":
                return C(a + b)
            if op == "-":
                return C(a - b)
            if op == "*.":
                return C(a * b)
            if op == "/" and b != 0:
                return C(a / b) if tk == "f" else C(int(a / b))
            if op == "%" and b != 0 and isinstance(a, int) and isinstance(b, int):
                return C(int(math.fmod(a, b)))
            if op == "<":
                return C(int(a < b))
            if op == "<=":
                return C(int(a <= b))
            if op == "==":
                return C(int(a == b))
            if op == "!=":
                return C(int(a != b))
        except (OverflowError, ValueError):
            pass
    if op == "+":
        if a == 0:
            return y
        if b == 0:
            return x
        if b is not None and x.op == "+" and num(x.a[1]) is not None:
            return mk("+", x.a[0], C(num(x.a[1]) + b), tk)
        if a is not None:
            return mk("+", y, x, tk)
    if op == "-":
        if b is not None:
            return mk("+", x, C(-b), tk)
        if x is y:
            return C(0)
        if a == 0:
            return neg(y)
    if op == "*.":
        if a == 1:
            return y
        if b == 1:
            return x
        if a == 0 or b == 0:
            return C(0)
        if a == -1:
            return neg(y)
        if b == -1:
            return neg(x)
        if x.op == "neg":
            return neg(mk("*.", x.a[0], y, tk))
        if y.op == "neg":
            return neg(mk("*.", x, y.a[0], tk))
    if op == "/":
        if b == 1:
            return x
        if a == 0:
            return C(0)
    if op in ("==", "<=") and x is y:
        return TRUE
    if op in ("!=", "<") and x is y:
        return FALSE
    if op in COMM and b is None and (a is not None or y._id < x._id):
        x, y = y, x
    return T(op, x, y)


def neg(x):
    v = num(x)
    if v is not None:
        return C(-v)
    if x.op == "neg":
        return x.a[0]
    if x.op == "-":
        return mk("-", x.a[1], x.a[0])
    return T("neg", x)


def negate(c):
    """Logical negation of a condition term."""
    if c.op == "c":
        return C(0 if c.a[0] else 1)
    if c.op == "!":
        return c.a[0]
    if c.op == "<":
        return mk("<=", c.a[1], c.a[0])
    if c.op == "<=":
        return mk("<", c.a[1], c.a[0])
    if c.op == "==":
        return T("!=", *c.a)
    if c.op == "!=":
        return T("==", *c.a)
    return T("!", c)


MAXSIZE = 400


class Analysis:
    """Base class: override the hooks."""
    max_depth = 12
    remerge = False     # join states whose keys became equal by a join
    max_states = 24
    max_iter = 16

    fold_globals = False    # evaluate constant global initializers
    unroll = 0              # follow counted loops with constant bounds up to this many iterations

    def __init__(self, fx):
        self.fx = fx
        self.bound = set()
        self.steps = 0
        self.calls_seen = 0

    # ---- hooks -------------------------------------------------------
    def inline(self, fn, fr, node):
        """Whether to inline fn at this call."""
        return True

    def on_call(self, node, fn, obj, args, st, fr):
        """Called before inlining/opaque treatment. Return None for default, or [(value term, state)]."""
        return None

    def on_enter(self, fn, fr, st):
        pass

    def on_exit_call(self, fn, fr, st, ret):
        pass

    def on_store(self, loc, val, node, st, fr):
        pass

    def on_load(self, loc, node, st, fr):
        pass

    def on_node(self, node, terms, st, fr):
        """new/del/idx/bin nodes, with evaluated operand terms."""
        pass

    def on_throw(self, node, st, fr):
        pass

    def on_catch(self, h, st, fr):
        pass

    def on_opaque(self, node, fn, obj, args, st, fr):
        """An opaque call is about to havoc. Return True when the call may also throw."""
        return False

    def dyncls(self, obj, static, st):
        """Dynamic class of an object term (default: only exact for the analysed object and value members)."""
        return None

    def keep(self, st):
        """Extra join key."""
        return st.facet

    def feasible(self, cond, st):
        return True

    def split(self, term):
        """Condition terms whose truth must survive joins (kept apart)."""
        return False

    # ---- joins -------------------------------------------------------
    def key(self, st):
        return self.keep(st)

    def merge(self, states, site):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.key(s), []).append(s)
        out = []
        for k, g in groups.items():
            r = g[0]
            for s in g[1:]:
                r = self.join(r, s, site)
            out.append(r)
        if len(out) > 2000:
            raise Broken("state explosion at %s" % (site,))
        if self.remerge and 1 < len(out) < len(states) and len({self.key(s) for s in out}) < len(out):
            return self.merge(out, site)
        return out

    def join(self, a, b, site):
        if a is b:
            return a
        env = {}
        ea, eb = a.env, b.env
        if ea == eb:
            env = ea
        else:
            for k, v in ea.items():
                w = eb.get(k)
                if w is v:
                    env[k] = v
                    continue
                if w is None:
                    if k.op in ("v", "hv", "hvn", "alias", "dead"):
                        if k.op in ("hv", "hvn"):
                            env[k] = v
                        elif k.op == "v":
                            pass
                        continue
                    w = self.initial(k, b)
                    if w is v:
                        env[k] = v
                        continue
                    # the entry has its initial value on the other side
                env[k] = self.jv(site, k, v, w, a, b)
            for k, w in eb.items():
                if k in ea:
                    continue
                if k.op in ("v", "alias", "dead"):
                    continue
                if k.op in ("hv", "hvn"):
                    env[k] = w
                    continue
                v = self.initial(k, a)
                env[k] = w if v is w else self.jv(site, k, v, w, a, b)
        iv = {}
        for t, x in a.iv.items():
            y = b.iv.get(t)
            if y is None:
                continue
            h = x if x == y else x.hull(y)
            if not h.top():
                iv[t] = h
        facts = a.facts if a.facts == b.facts else {t: v for t, v in a.facts.items() if b.facts.get(t) is v}
        s = State(env, iv, facts, a.facet, a.trace)
        if env is not ea:
            # names bound again by this join: older uses of them are stale
            new = set()
            for k, v in env.items():
                if v.op == "phi" and v.a[0] == site and v.a[1] is k and not (ea.get(k) is v and eb.get(k) is v):
                    if v in self.bound:
                        new.add(v)
                    else:
                        self.bound.add(v)
            if new:
                self.stale(s, new, site)
        # intervals of the phi terms
        if env is not ea:
            for k, v in env.items():
                if v.op == "phi" and v.a[1] is k and v.a[0] == site:
                    va, vb = ea.get(k), eb.get(k)
                    if va is None:
                        va = self.initial(k, a)
                    if vb is None:
                        vb = self.initial(k, b)
                    if va is v or vb is v:
                        o = vb if va is v else va
                        so = b if va is v else a
                        sv = a if va is v else b
                        x = self.interval(v, sv).hull(self.interval(o, so))
                    else:
                        x = self.interval(va, a).hull(self.interval(vb, b))
                    if not x.top():
                        s.iv[v] = x
                    else:
                        s.iv.pop(v, None)
        return s

    def stale(self, s, new, site):
        """The names `new` are bound again: whatever still refers to their former meaning loses its value."""
        own = set(new)
        s.facts = {t: v for t, v in s.facts.items() if not (t.vol and t.vol & new)}
        s.iv = {t: v for t, v in s.iv.items() if not (t.vol and t.vol & new)}
        while new:
            more = set()
            for k, v in list(s.env.items()):
                if k.vol and k.vol & new:
                    s.env.pop(k, None)
                    p = k
                    if p.op in ("hv", "hvn", "range", "alias", "ref"):
                        p = p.a[0]
                    while p.vol and p.vol & new and p.op in ("fld", "idx"):
                        p = p.a[0]
                    if k.op != "ref" and not (p.vol and p.vol & new) and p.op != "v":
                        self.forget_elements(p, s, site)
                elif v.vol and v.vol & new and not (v in own and v.a[-1] is k):
                    if k.op in ("ref", "alias"):
                        del s.env[k]
                        continue
                    if k.op in ("hv", "hvn", "range"):
                        continue
                    n = T("phi", site, k)
                    s.env[k] = n
                    if n not in own:
                        own.add(n)
                        if n in self.bound:
                            more.add(n)
                        self.bound.add(n)
            if more:
                s.facts = {t: v for t, v in s.facts.items() if not (t.vol and t.vol & more)}
                s.iv = {t: v for t, v in s.iv.items() if not (t.vol and t.vol & more)}
            new = more

    def forget_elements(self, p, s, site):
        """An unknown part of the object at p was written."""
        for q in [q for q in s.env if q is not p and q.op in ("fld", "idx") and self.under(q, p)]:
            del s.env[q]
        s.env[T("hv", p)] = T("site", site)

    def fresh(self, t, s, site):
        """Bind a volatile name produced at this point."""
        if t in self.bound:
            self.stale(s, {t}, site)
        else:
            self.bound.add(t)

    def jv(self, site, k, v, w, a, b):
        if v is w:
            return v
        return T("phi", site, k)

    def initial(self, loc, st):
        """Value of a location with no entry in the store."""
        return self.load(loc, st)

    # ---- store -------------------------------------------------------
    def prefixes(self, loc):
        while isinstance(loc, Term) and loc.op in ("fld", "idx"):
            loc = loc.a[0]
            yield loc

    def load(self, loc, st):
        env = st.env
        v = env.get(loc)
        if v is not None:
            return v
        if loc.op == "g":
            gv = self.fx.vars.get(loc.a[0])
            if gv and gv.get("const"):
                if gv.get("v") is not None:
                    return C(gv["v"])
                if gv.get("i") and gv["i"].get("k") == "lit":
                    return C(gv["i"]["v"])
                if self.fold_globals and gv.get("i"):
                    v = self.fx.const_value(loc.a[0])
                    if v is not None:
                        return C(v)
        for p in self.prefixes(loc):
            al = env.get(T("alias", p))
            if al is not None:
                return self.rebase(loc, p, al)
            hv = env.get(T("hv", p))
            if hv is not None:
                return T("h", hv, loc)
            rg = env.get(T("range", p))
            if rg is not None and loc.op == "idx" and loc.a[0] is p:
                return T("relem", rg, loc.a[1])
        hv = env.get(T("hv", loc))
        if hv is not None:
            return T("h", hv, loc)
        al = env.get(T("alias", loc))
        if al is not None:
            return al
        return loc

    def rebase(self, loc, p, al):
        if loc is p:
            return al
        return T(loc.op, self.rebase(loc.a[0], p, al), *loc.a[1:])

    def store(self, loc, val, st, node, fr):
        if val.size > MAXSIZE:
            val = T("big", "%s:%s" % (fr.id, node.get("l") if node else 0), loc)
        self.on_store(loc, val, node, st, fr)
        env = st.env
        if loc.op == "idx":
            # other elements of the same array may be the same element
            base, i = loc.a
            ci = num(i)
            for k in [k for k in env if k.op == "idx" and k.a[0] is base and k is not loc]:
                if ci is not None and num(k.a[1]) is not None:
                    continue
                if not self.distinct(i, k.a[1]):
                    env[k] = T("phi", "%s:%s" % (fr.id, node.get("l") if node else 0), k)
            if T("range", base) in env:
                rg = env.pop(T("range", base))
                env[T("hv", base)] = T("over", rg, i)
        env[loc] = val
        if loc.op == "v" and st.iv:
            pass
        return st

    def distinct(self, i, j):
        d = mk("-", i, j, "i")
        v = num(d)
        if v is None and i.op == "+" and i.a[0] is j and num(i.a[1]):
            v = num(i.a[1])
        if v is None and j.op == "+" and j.a[0] is i and num(j.a[1]):
            v = num(j.a[1])
        return v is not None and v != 0

    def under(self, loc, root):
        while True:
            if loc is root:
                return True
            if loc.op in ("fld", "idx", "hv", "hvn", "alias", "range"):
                loc = loc.a[0]
            else:
                return False

    def havoc(self, loc, st, site):
        """Forget everything stored at or below an object."""
        env = st.env
        for k in [k for k in env if self.under(k, loc)]:
            del env[k]
        env[T("hv", loc)] = T("site", site)
        if loc.op in ("v",):
            env[loc] = T("h", T("site", site), loc)

    def havoc_ptr(self, t, st, site):
        """Forget what a pointer argument may have been used to write."""
        if t.op == "addr":
            o = t.a[0]
            if o.op == "idx":
                o = o.a[0]
            self.havoc(o, st, site)
        else:
            self.havoc(T("*", t), st, site)

    # ---- conditions --------------------------------------------------
    def interval(self, t, st):
        v = num(t)
        if v is not None:
            return point(v)
        x = st.iv.get(t)
        y = None
        if t.op == "+" and num(t.a[1]) is not None:
            y = self.shift(self.interval(t.a[0], st), num(t.a[1]))
        elif t.op == "neg":
            z = self.interval(t.a[0], st)
            y = Iv(-z.hi, z.hi_o, -z.lo, z.lo_o, frozenset(-p for p in z.ne))
        elif t.op == "call" and t.a[0] in ("fabs", "abs"):
            y = Iv(0, False, INF, True)
        elif t.op in ("<", "<=", "==", "!=", "!", "&&", "||"):
            y = Iv(0, False, 1, False)
        elif t.op == "*." and num(t.a[1]) is not None:
            k = num(t.a[1])
            z = self.interval(t.a[0], st)
            if k > 0:
                y = Iv(z.lo * k, z.lo_o, z.hi * k, z.hi_o)
        elif t.op == "*.":
            p, q = self.interval(t.a[0], st), self.interval(t.a[1], st)
            if p.lo >= 0 and q.lo >= 0:
                y = Iv(p.lo * q.lo, p.lo_o or q.lo_o, INF, True)
            elif t.a[0] is t.a[1]:
                y = Iv(0, False, INF, True)
        elif t.op == "call" and t.a[0] in ("max", "min") and len(t.a) == 3:
            p, q = self.interval(t.a[1], st), self.interval(t.a[2], st)
            if t.a[0] == "max":
                lo = max((p.lo, p.lo_o), (q.lo, q.lo_o))
                hi = max((p.hi, not p.hi_o), (q.hi, not q.hi_o))
            else:
                lo = min((p.lo, p.lo_o), (q.lo, q.lo_o))
                hi = min((p.hi, not p.hi_o), (q.hi, not q.hi_o))
            y = Iv(lo[0], lo[1], hi[0], not hi[1])
        if x is None:
            return y if y is not None else TOPIV
        return x if y is None else x.meet(y)

    def shift(self, x, k):
        return Iv(x.lo + k, x.lo_o, x.hi + k, x.hi_o, frozenset(p + k for p in x.ne))

    def truth(self, c, st):
        """True/False/None: the truth of a condition term in a state."""
        v = num(c)
        if v is not None:
            return v != 0
        f = st.facts.get(c)
        if f is not None:
            return f is True
        n = negate(c)
        f = st.facts.get(n)
        if f is not None:
            return not (f is True)
        if c.op == "!":
            r = self.truth(c.a[0], st)
            return None if r is None else not r
        if c.op in ("==", "!="):
            d = self.same_addr(c.a[0], c.a[1])
            if d is not None:
                return d if c.op == "==" else not d
        if c.op in ("<", "<=", "==", "!="):
            x, y = self.interval(c.a[0], st), self.interval(c.a[1], st)
            if c.op == "<":
                if x.hi < y.lo or (x.hi == y.lo and (x.hi_o or y.lo_o) and abs(x.hi) != INF):
                    return True
                if x.lo >= y.hi and (x.lo > y.hi or not (abs(x.lo) == INF)):
                    return False
                if st.facts.get(T("<=", c.a[1], c.a[0])):
                    return False
            elif c.op == "<=":
                if x.hi <= y.lo and abs(x.hi) != INF:
                    return True
                if x.lo > y.hi or (x.lo == y.hi and (x.lo_o or y.hi_o) and abs(x.lo) != INF):
                    return False
                if st.facts.get(mk("==", c.a[0], c.a[1])) or st.facts.get(T("<", c.a[0], c.a[1])):
                    return True
            else:
                r = None
                if x.meet(y).empty():
                    r = False
                elif x.lo == x.hi == y.lo == y.hi:
                    r = True
                if r is not None:
                    return r if c.op == "==" else not r
        else:
            if c.op in ("addr", "new"):
                return True
            x = self.interval(c, st)
            if not x.has(0):
                return True
            if x.lo == 0 == x.hi:
                return False
            if c.op in ("&&", "||"):
                p, q = self.truth(c.a[0], st), self.truth(c.a[1], st)
                if c.op == "&&":
                    return False if p is False or q is False else True if p and q else None
                return True if p or q else False if p is False and q is False else None
        return None

    def root(self, loc):
        """The named object a location lies in without following pointers, or None."""
        while loc.op in ("fld", "idx"):
            loc = loc.a[0]
        return loc if loc.op == "obj" else None

    def same_addr(self, x, y):
        """Whether two pointer terms are equal, when that is known (addresses of distinct objects, null)."""
        if x.op == "addr" and y.op == "addr":
            rx, ry = x.a[0], y.a[0]
            if rx is ry:
                return True
            qx, qy = self.root(rx), self.root(ry)
            if qx is not None and qy is not None and qx is not qy:
                return False
            if rx.op == "v" or ry.op == "v":
                return False
            return None
        if x.op in ("addr", "new") and num(y) == 0 or y.op in ("addr", "new") and num(x) == 0:
            return False
        return None

    def assume(self, c, want, st):
        """State in which condition term c has the wanted truth, or None when that is infeasible."""
        if not want:
            c = negate(c)
        if c.op == "!" and c.a[0].op not in ("!",):
            inner = c.a[0]
            tr = self.truth(inner, st)
            if tr is True:
                return None
            st = st.copy()
            st.facts[inner] = False
            x = self.interval(inner, st).meet(point(0))
            if inner.op in ("fld", "h", "phi", "v", "g", "idx", "call", "sym", "*"):
                if x.empty():
                    return None
                st.iv[inner] = x
            return st
        tr = self.truth(c, st)
        if tr is False:
            return None
        if tr is True and c.op == "c":
            return st
        st = st.copy()
        st.facts[c] = True
        if c.op in ("<", "<=", "==", "!="):
            x, y = c.a
            ix, iy = self.interval(x, st), self.interval(y, st)
            nx = ny = None
            if c.op == "<":
                nx, ny = Iv(-INF, True, iy.hi, True), Iv(ix.lo, True, INF, True)
            elif c.op == "<=":
                nx, ny = Iv(-INF, True, iy.hi, iy.hi_o), Iv(ix.lo, ix.lo_o, INF, True)
            elif c.op == "==":
                nx, ny = iy, ix
            elif c.op == "!=":
                if iy.lo == iy.hi:
                    nx = Iv(ne=frozenset([iy.lo]))
                if ix.lo == ix.hi:
                    ny = Iv(ne=frozenset([ix.lo]))
            for t, n in ((x, nx), (y, ny)):
                if n is not None and t.op != "c":
                    if not self.refine(t, n, st):
                        return None
        elif c.op == "call" and c.a and isinstance(c.a[0], str):
            pass
        else:
            x = self.interval(c, st).meet(Iv(ne=frozenset([0])))
            if x.empty():
                return None
            if not x.top():
                st.iv[c] = x
        return st if self.feasible(c, st) else None

    def refine(self, t, n, st):
        m = self.interval(t, st).meet(n)
        if m.empty():
            return False
        if not m.top():
            st.iv[t] = m
        if t.op == "+" and num(t.a[1]) is not None and t.a[0].op != "c":
            return self.refine(t.a[0], self.shift(n, -num(t.a[1])), st)
        if t.op == "neg":
            return self.refine(t.a[0], Iv(-n.hi, n.hi_o, -n.lo, n.lo_o, frozenset(-p for p in n.ne)), st)
        return True

    # ---- expressions -------------------------------------------------
    def frame_loc(self, node, fr):
        return T("v", fr.id, node["id"], node["n"])

    def eval_list(self, nodes, sts, fr):
        """Evaluate expressions left to right: [(terms tuple, state)]."""
        cur = [((), s) for s in sts]
        for n in nodes:
            nxt = []
            for ts, s in cur:
                for v, s2 in self.ev(n, s, fr):
                    nxt.append((ts + (v,), s2))
            cur = nxt
        return cur

    def lv(self, e, st, fr):
        """[(location term, state)] of an lvalue expression."""
        k = e["k"]
        if k == "var":
            if e["d"] in ("g", "sl"):
                return [(T("g", e["q"] if e["d"] == "g" else fr.fn.q + "::" + e["q"]), st)]
            loc = self.frame_loc(e, fr)
            r = st.env.get(T("ref", loc))
            return [(r if r is not None else loc, st)]
        if k == "fld":
            if e.get("ar"):
                return [(T("fld", self.deref(v), e["n"]), s) for v, s in self.ev(e["b"], st, fr)]
            return [(T("fld", l, e["n"]), s) for l, s in self.lv(e["b"], st, fr)]
        if k == "idx":
            out = []
            for b, s in self.ev(e["b"], st, fr):
                for i, s2 in self.ev(e["i"], s, fr):
                    self.on_node(e, (b, i), s2, fr)
                    out.append((T("idx", self.deref(b), i), s2))
            return out
        if k == "un" and e["op"] == "*":
            return [(self.deref(v), s) for v, s in self.ev(e["e"], st, fr)]
        if k == "this":
            return [(fr.this, st)]
        if k in ("cast", "conv"):
            return self.lv(e["e"], st, fr)
        if k == "asg":
            out = []
            for _, s in self.ev(e, st, fr):
                out += self.lv(e["x"], s, fr)
            return out
        if k == "cond":
            t, f = self.cond(e["c"], st, fr)
            out = []
            for s in t:
                out += self.lv(e["x"], s, fr)
            for s in f:
                out += self.lv(e["y"], s, fr)
            return out
        if k == "inc":
            out = []
            for _, s in self.ev(e, st, fr):
                out += self.lv(e["e"], s, fr)
            return out
        # calls returning references or temporaries
        out = []
        for v, s in self.ev(e, st, fr):
            if v.op == "addr" and k == "call" and e.get("t", "").endswith("&"):
                out.append((v.a[0], s))
            elif v.op == "objval":
                out.append((v.a[0], s))
            else:
                out.append((T("tmp", v), s))
        return out

    def deref(self, p):
        if p.op == "addr":
            return p.a[0]
        if p.op == "+" and p.a[0].op == "addr":
            return T("idx", p.a[0].a[0], p.a[1])
        return T("*", p)

    def ev(self, e, st, fr):
        self.steps += 1
        k = e["k"]
        if k == "lit":
            return [(C(e["v"]), st)]
        if k == "var" or k == "fld" or k == "idx":
            tk = e.get("tk")
            out = []
            for loc, s in self.lv(e, st, fr):
                self.on_load(loc, e, s, fr)
                if tk == "a":
                    out.append((T("addr", loc), s))
                elif tk == "r":
                    out.append((T("objval", loc), s))
                else:
                    out.append((self.load(loc, s), s))
            return out
        if k == "this":
            return [(T("addr", fr.this), st)]
        if k == "enum":
            return [(C(e["v"]), st)]
        if k == "str":
            return [(T("c", '"' + str(e["v"])), st)]
        if k == "un":
            op = e["op"]
            if op == "&":
                if e["e"]["k"] in ("func", "mref"):
                    return [(T("fnptr", e["e"].get("q", e["e"].get("f", "?"))), st)]
                return [(T("addr", l), s) for l, s in self.lv(e["e"], st, fr)]
            if op == "*":
                out = []
                for l, s in self.lv(e, st, fr):
                    self.on_load(l, e, s, fr)
                    out.append((T("objval", l) if e.get("tk") == "r" else self.load(l, s), s))
                return out
            if op == "!":
                t, f = self.cond(e["e"], st, fr)
                return self.boolval(e, t, f, st, fr, True)
            out = []
            for v, s in self.ev(e["e"], st, fr):
                out.append((neg(v) if op == "-" else v if op == "+" else T("un" + op, v), s))
            return out
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                t, f = self.cond(e, st, fr)
                return self.boolval(e, t, f, st, fr)
            if op == ",":
                return [r for _, s in self.ev(e["x"], st, fr) for r in self.ev(e["y"], s, fr)]
            out = []
            for x, s in self.ev(e["x"], st, fr):
                for y, s2 in self.ev(e["y"], s, fr):
                    self.on_node(e, (x, y), s2, fr)
                    out.append((mk(op, x, y, e.get("tk", "f")), s2))
            return out
        if k == "asg":
            op = e["op"]
            out = []
            for y, s in self.ev(e["y"], st, fr):
                for loc, s2 in self.lv(e["x"], s, fr):
                    if op == "=":
                        if y.op == "objval":
                            s3 = s2.copy()
                            self.copyobj(loc, y.a[0], s3, e, fr)
                            out.append((y, s3))
                            continue
                        v = y
                    else:
                        old = self.load(loc, s2)
                        self.on_load(loc, e, s2, fr)
                        self.on_node(e, (old, y), s2, fr)
                        v = mk(op[:-1], old, y, e.get("tk", "f"))
                    s3 = s2.copy()
                    self.store(loc, v, s3, e, fr)
                    out.append((v, s3))
            return out
        if k == "inc":
            out = []
            for loc, s in self.lv(e["e"], st, fr):
                old = self.load(loc, s)
                new = mk("+", old, C(1 if e["op"] == "++" else -1), "i")
                s = s.copy()
                self.store(loc, new, s, e, fr)
                out.append((old if e.get("post") else new, s))
            return out
        if k == "cond":
            t, f = self.cond(e["c"], st, fr)
            out = []
            for s in t:
                out += self.ev(e["x"], s, fr)
            for s in f:
                out += self.ev(e["y"], s, fr)
            return self.merge_vals(out, "%s:%s:cond" % (fr.id, e["l"]))
        if k in ("cast", "conv"):
            ck = e.get("ck")
            out = []
            for v, s in self.ev(e["e"], st, fr):
                if ck == "FloatingToIntegral":
                    c = num(v)
                    v = C(int(c)) if c is not None and abs(c) < 1e18 else T("int", v)
                elif ck == "FloatingToBoolean":
                    v = mk("!=", v, C(0))
                elif ck == "IntegralToFloating":
                    c = num(v)
                    v = C(float(c)) if c is not None else v
                out.append((v, s))
            return out
        if k == "call":
            return self.call(e, st, fr)
        if k == "ctor":
            return self.construct(e, st, fr)
        if k == "new":
            kids = [x for x in (e.get("n"), e.get("i")) if isinstance(x, dict)]
            out = []
            for ts, s in self.eval_list(kids[:1] if e.get("n") else [], [st], fr):
                t = T("new", "%s:%s" % (fr.id, e["l"]), e["t"])
                s = s.copy()
                self.on_node(e, ts, s, fr)
                if e.get("i") and e["i"]["k"] == "ctor":
                    for v, s2 in self.construct(e["i"], s, fr, T("*", t)):
                        out.append((t, s2))
                else:
                    if e.get("i"):
                        for v, s2 in self.ev(e["i"], s, fr):
                            out.append((t, s2))
                    else:
                        out.append((t, s))
            return out
        if k == "del":
            out = []
            for v, s in self.ev(e["e"], st, fr):
                s = s.copy()
                self.on_node(e, (v,), s, fr)
                out.append((C(0), s))
            return out
        if k == "throw":
            # expression position: handled by stmt; here produce no normal successor
            sts = [s for _, s in self.ev(e["e"], st, fr)] if e.get("e") else [st]
            for s in sts:
                self.on_throw(e, s, fr)
                self.pending.append((e.get("t"), s, e, fr))
            return []
        if k == "zero":
            return [(C(0), st)]
        if k == "sizeof":
            return [(C(e["v"]) if "v" in e else T("sizeof", e["t"]), st)]
        if k in ("func", "mref"):
            return [(T("fnptr", e.get("f", e.get("n", "?"))), st)]
        if k == "ilist":
            return [(T("ilist", *ts) if len(ts) < 40 else T("ilist", "big", fr.id, e["l"]), s) for ts, s in self.eval_list(e["a"], [st], fr)]
        if k == "expr":
            return [(T("expr", e["cls"], fr.id, e["l"]), s) for _, s in self.eval_list(e["a"], [st], fr)]
        if k in ("typeid", "lambda", "dep"):
            return [(T("expr", k, fr.id, e["l"]), st)]
        if k == "arrcopy":
            return [(T("arrcopy", l), s) for l, s in self.lv(e["e"], st, fr)]
        if k == "null":
            return [(C(0), st)]
        raise Broken("expression kind %s" % k)

    def boolval(self, e, t, f, st, fr, inv=False):
        a, b = (FALSE, TRUE) if inv else (TRUE, FALSE)
        site = "%s:%s:b" % (fr.id, e["l"])
        ct = self.cterm(e, st, fr)
        if t and f and ct is not None:
            # keep the value symbolic: the condition term itself
            j = self.merge(t + f, site)
            return [(ct, s) for s in j]
        return self.merge_vals([(a, s) for s in t] + [(b, s) for s in f], site)

    def cterm(self, e, st, fr):
        """Side-effect-free condition as one term (for boolean values that are stored)."""
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            x, y = self.cterm(e["x"], st, fr), self.cterm(e["y"], st, fr)
            if x is None or y is None:
                return None
            cx, cy = num(x), num(y)
            if e["op"] == "&&":
                if cx is not None:
                    return y if cx else FALSE
                if cy is not None:
                    return x if cy else FALSE
            else:
                if cx is not None:
                    return TRUE if cx else y
                if cy is not None:
                    return TRUE if cy else x
            if y._id < x._id:
                x, y = y, x
            return T(e["op"], x, y)
        if k == "un" and e["op"] == "!":
            x = self.cterm(e["e"], st, fr)
            return None if x is None else negate(x)
        for n in walk(e):
            if n.get("k") in ("asg", "inc", "new", "del", "throw"):
                return None
            if n.get("k") == "call" and not (n.get("cm") or n.get("n") in PURE or "::" not in n.get("f", "")):
                pass
        n0 = len(self.pending)
        r = self.quiet_ev(e, st, fr)
        del self.pending[n0:]
        if len(r) == 1:
            return r[0][0]
        return None

    quiet = 0

    def quiet_ev(self, e, st, fr):
        for n in walk(e):
            if n.get("k") in ("call", "ctor") and not n.get("cm") and n.get("n") not in PURE:
                return []
        self.quiet += 1
        try:
            return self.ev(e, st, fr)
        finally:
            self.quiet -= 1

    def merge_vals(self, vals, site):
        """[(value, state)] joined per facet."""
        if len(vals) <= 1:
            return vals
        groups = {}
        for v, s in vals:
            groups.setdefault(self.key(s), []).append((v, s))
        out = []
        tl = T("tv", site)
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            same = all(v is g[0][0] for v, _ in g)
            ss = []
            for v, s in g:
                if not same:
                    s = s.copy()
                    s.env[tl] = v
                ss.append(s)
            r = ss[0]
            for s in ss[1:]:
                r = self.join(r, s, site)
            if same:
                out.append((g[0][0], r))
            else:
                if r.env is ss[0].env:
                    r = r.copy()
                v = r.env.pop(tl)
                out.append((v, r))
        return out

    def cond(self, e, st, fr):
        """([states where true], [states where false])."""
        k = e["k"]
        if k == "bin" and e["op"] == "&&":
            t1, f1 = self.cond(e["x"], st, fr)
            t, f = [], list(f1)
            for s in t1:
                a, b = self.cond(e["y"], s, fr)
                t += a
                f += b
            return t, self.merge(f, "%s:%s:f" % (fr.id, e["l"]))
        if k == "bin" and e["op"] == "||":
            t1, f1 = self.cond(e["x"], st, fr)
            t, f = list(t1), []
            for s in f1:
                a, b = self.cond(e["y"], s, fr)
                t += a
                f += b
            return self.merge(t, "%s:%s:t" % (fr.id, e["l"])), f
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["e"], st, fr)
            return f, t
        t, f = [], []
        for v, s in self.ev(e, st, fr):
            for want, lst in ((True, t), (False, f)):
                lst += self.assume_all(v, want, s)
        return t, f

    def assume_all(self, c, want, st):
        """assume() over boolean combinations (several states when a disjunction is assumed)."""
        if c.op == "!" and c.a[0].op in ("&&", "||", "!"):
            return self.assume_all(c.a[0], not want, st)
        if c.op in ("&&", "||"):
            both = (c.op == "&&") == want
            if both:
                out = []
                for s in self.assume_all(c.a[0], want, st):
                    out += self.assume_all(c.a[1], want, s)
                return out
            out = self.assume_all(c.a[0], want, st)
            for s in self.assume_all(c.a[0], not want, st):
                out = out + self.assume_all(c.a[1], want, s)
            return out
        r = self.assume(c, want, st)
        return [] if r is None else [r]

    # ---- objects and calls -------------------------------------------
    def copyobj(self, dst, src, st, node, fr):
        """Memberwise copy of an object."""
        if dst is src:
            return
        env = st.env
        ent = [(k, v) for k, v in env.items() if k.op in ("fld", "idx") and self.under(k, src)]
        hv = env.get(T("hv", src))
        al = env.get(T("alias", src))
        for k in [k for k in env if self.under(k, dst)]:
            del env[k]
        env.pop(T("hv", dst), None)
        if hv is not None:
            env[T("hv", dst)] = T("h", hv, src)
        else:
            env[T("alias", dst)] = al if al is not None else src
        for k, v in ent:
            env[self.rebase(k, src, dst)] = v
        self.on_store(dst, T("objval", src), node, st, fr)

    def construct(self, e, st, fr, obj=None):
        out = []
        if obj is None:
            obj = T("tmpobj", "%s:%s" % (fr.id, e["l"]), e["u"], e.get("_n", 0))
        if e.get("cp") and e["a"] and (e.get("imp") or e["u"] not in self.fx.funcs):
            for l, s in self.lv(e["a"][0], st, fr):
                s = s.copy()
                self.copyobj(obj, l, s, e, fr)
                out.append((T("objval", obj), s))
            return out
        fn = self.fx.funcs.get(e["u"])
        ps = fn.ps if fn else []
        for ts, s in self.args(e["a"], ps, st, fr):
            s = s.copy()
            if fn is not None and self.inline_ok(fn, fr, e):
                for v, s2 in self.run_inline(fn, obj, ts, s, fr, e, e["c"]):
                    out.append((T("objval", obj), s2))
            else:
                if not (e.get("imp") and not e["a"]):
                    r = self.on_opaque(e, fn, obj, ts, s, fr)
                    if r:
                        self.pending.append((None, s.copy(), e, fr))
                self.havoc_args(e, fn, ts, s, fr)
                self.havoc(obj, s, "%s:%s" % (fr.id, e["l"]))
                out.append((T("objval", obj), s))
        return out

    def args(self, nodes, ps, st, fr):
        """Evaluate call arguments; reference parameters are passed as locations."""
        cur = [((), st)]
        for i, n in enumerate(nodes):
            ref = i < len(ps) and ps[i].get("ref")
            nxt = []
            for ts, s in cur:
                if ref and self.is_lvalue(n):
                    for l, s2 in self.lv(n, s, fr):
                        nxt.append((ts + (T("addr", l),), s2))
                else:
                    for v, s2 in self.ev(n, s, fr):
                        nxt.append((ts + (v,), s2))
            cur = nxt
        return cur

    def is_lvalue(self, n):
        k = n["k"]
        if k in ("var", "fld", "idx", "this"):
            return True
        if k == "un" and n["op"] == "*":
            return True
        if k == "call":
            return n.get("t", "").endswith("&")
        if k == "cond":
            return self.is_lvalue(n["x"]) and self.is_lvalue(n["y"])
        if k == "cast" or k == "conv":
            return n.get("t", "").endswith("&")
        return False

    def opaque_refs(self, e, fn):
        """Which arguments of a body-less callee are passed by reference (unknown: none)."""
        return ()

    def target(self, e, obj, fr, st):
        """Func (or None) that the call node runs, and the receiver's dynamic class when known."""
        u = e.get("u")
        if u is None:
            return None, None
        if e.get("v"):
            dc = None
            if obj is fr.this:
                dc = fr.cls
            else:
                dc = self.dyncls(obj, e.get("oc"), st)
                if dc is None and e.get("o") is not None and not e.get("ar") and e["o"]["k"] in ("fld", "var", "idx"):
                    dc = e.get("oc", "").replace("const ", "")
            if dc:
                fu = self.fx.final(dc, u)
                if fu:
                    return self.fx.funcs.get(fu), dc
            ov = self.fx.overrides(u)
            if len(ov) == 1:
                return ov[0], ov[0].c
            return None, None
        dc = None
        if obj is fr.this:
            dc = fr.cls
        elif e.get("oc"):
            dc = self.dyncls(obj, e.get("oc"), st) or e["oc"].replace("const ", "")
        return self.fx.funcs.get(u), dc

    def inline_ok(self, fn, fr, node):
        if fr.depth >= self.max_depth:
            return False
        f = fr
        while f:
            if f.fn.u == fn.u and not fn.kind == "ctor":
                return False
            f = f.parent
        return self.inline(fn, fr, node)

    def call(self, e, st, fr):
        out = []
        if e.get("o") is not None:
            if e.get("ar"):
                recv = [(self.deref(v), s) for v, s in self.ev(e["o"], st, fr)]
            else:
                recv = self.lv(e["o"], st, fr)
        else:
            recv = [(None, st)]
        for obj, s0 in recv:
            fn, dc = self.target(e, obj, fr, s0)
            decl = fn
            if decl is None and e.get("u") in self.fx.mdecl:
                ps = [{"ref": 1 if p["t"].endswith("&") else 0} for p in self.fx.mdecl[e["u"]][1]["ps"]]
            else:
                ps = decl.ps if decl else []
            if e.get("opc") == "=" and fn is None and obj is not None and len(e["a"]) == 1:
                # implicit copy assignment
                for l, s in (self.lv(e["a"][0], s0, fr) if self.is_lvalue(e["a"][0]) else [(v.a[0] if v.op == "objval" else T("tmp", v), s) for v, s in self.ev(e["a"][0], s0, fr)]):
                    s = s.copy()
                    if e.get("c") in self.fx.classes or self.is_lvalue(e["a"][0]) and l.op != "tmp":
                        self.copyobj(obj, l, s, e, fr)
                    else:
                        self.havoc(obj, s, "%s:%s" % (fr.id, e["l"]))
                        v = T("copyof", l)
                        self.store(obj, v, s, e, fr)
                    out.append((T("addr", obj), s))
                continue
            for ts, s in self.args(e["a"], ps, s0, fr):
                self.calls_seen += 1
                r = self.on_call(e, fn, obj, ts, s, fr)
                if r is not None:
                    out += r
                    continue
                if fn is not None and self.inline_ok(fn, fr, e):
                    th = obj if obj is not None else fr.this
                    out += self.run_inline(fn, th, ts, s.copy(), fr, e, dc or fn.c)
                    continue
                out += self.opaque(e, fn, obj, ts, s, fr)
        return out

    def pure(self, e, fn):
        n = e.get("n", "")
        return n in PURE and (not e.get("c"))

    def opaque(self, e, fn, obj, ts, s, fr):
        site = "%s:%s" % (fr.id, e["l"])
        nm = e.get("f", "?")
        if self.pure(e, fn):
            vs = tuple(self.load(t.a[0], s) if t.op == "addr" else t for t in ts)
            n = e["n"]
            if n in ("max", "min") and vs and len(vs) == 2:
                if num(vs[0]) is not None and num(vs[1]) is not None:
                    return [(C(max(num(vs[0]), num(vs[1])) if n == "max" else min(num(vs[0]), num(vs[1]))), s)]
                if vs[1]._id < vs[0]._id:
                    vs = (vs[1], vs[0])
            if n in ("fabs", "abs") and len(vs) == 1 and num(vs[0]) is not None:
                return [(C(abs(num(vs[0]))), s)]
            return [(T("call", n, *vs), s)]
        s = s.copy()
        may = self.on_opaque(e, fn, obj, ts, s, fr)
        if may:
            self.pending.append((None, s.copy(), e, fr))
        ro = e.get("cm")
        self.fresh(T("site", site), s, site)
        if not ro and obj is not None:
            self.havoc(obj, s, site)
        self.havoc_args(e, fn, ts, s, fr)
        extra = (obj,) if obj is not None else ()
        if ro or not ts and obj is None:
            pass
        ver = ()
        if ro and obj is not None:
            hv = None
            for p in [obj] + list(self.prefixes(obj)):
                hv = s.env.get(T("hv", p))
                if hv is not None:
                    break
            ver = (hv,) if hv is not None else ()
            return [(T("call", nm, *(extra + ts + ver)), s)]
        r = T("ret", nm, site, *(extra + ts))
        self.fresh(r, s, site)
        return [(r, s)]

    def const_param(self, e, fn, i):
        t = None
        if fn is not None and i < len(fn.ps):
            t = fn.ps[i]["t"]
        elif e.get("u") in self.fx.mdecl:
            p = self.fx.mdecl[e["u"]][1]["ps"]
            if i < len(p):
                t = p[i]["t"]
        if t is None:
            return None
        return t.startswith("const ") or not (t.endswith("&") or t.endswith("*"))

    def havoc_args(self, e, fn, ts, s, fr):
        if str(e.get("c", "")).startswith(("std::vector", "std::map", "std::list", "std::deque", "std::set")) and e.get("n") != "swap":
            return      # containers store their arguments, they do not modify what those point to
        for i, t in enumerate(ts):
            if t.op == "addr" or (t.op in ("fld", "*", "new", "v", "h", "phi")):
                cp = self.const_param(e, fn, i)
                if cp is False or (cp is None and t.op == "addr"):
                    self.havoc_ptr(t, s, "%s:%s" % (fr.id, e["l"]))

    def bind(self, fn, ts, st, fr):
        for i, p in enumerate(fn.ps):
            loc = T("v", fr.id, p["id"], p["n"])
            if i >= len(ts):
                continue
            t = ts[i]
            if p.get("ref"):
                if t.op == "addr":
                    st.env[T("ref", loc)] = t.a[0]
                elif t.op == "objval":
                    st.env[T("ref", loc)] = t.a[0]
                else:
                    st.env[loc] = t
                    st.env.pop(T("ref", loc), None)
            elif t.op == "objval":
                self.copyobj(loc, t.a[0], st, None, fr)
            else:
                st.env[loc] = t

    def run_inline(self, fn, obj, ts, st, fr, node, cls):
        nf = Frame(fn, obj, fr, node.get("l", 0), cls if cls and fn.c and self.fx.is_a(cls, fn.c) else fn.c)
        self.bind(fn, ts, st, nf)
        self.on_enter(fn, nf, st)
        rets, thr = self.run_body(fn, st, nf)
        out = []
        for v, s in rets:
            self.on_exit_call(fn, nf, s, v)
            self.drop_frame(nf, s)
            out.append((v, s))
        self.pending += [(t, s, e, f) for t, s, e, f in thr]
        out = self.merge_vals(out, "%s:ret" % nf.id)
        return out

    def drop_frame(self, nf, s):
        i = nf.id
        dead = [k for k in s.env if (k.op == "v" and k.a[0] == i) or (k.op == "ref" and k.a[0].a[0] == i)]
        if dead:
            for k in dead:
                s.env.pop(k, None)

    def run_body(self, fn, st, fr):
        """([(return value, state)], [(type, state, node, frame)]) of running a function body."""
        saved, self.pending = getattr(self, "pending", []), []
        try:
            sts = [st]
            thr = []
            if fn.kind == "ctor":
                for it in fn.inits:
                    nxt = []
                    for s in sts:
                        nxt += self.ctor_init(it, s, fr)
                    sts = self.merge(nxt, "%s:%s:init" % (fr.id, it["l"]))
                    thr += self.pending
                    self.pending = []
            o = self.block(fn.body, sts, fr)
            rets = [(C(0), s) for s in o.n] + o.r
            rets = self.merge_vals(rets, "%s:end" % fr.id)
            return rets, self.merge_thrown(thr + o.t)
        finally:
            self.pending = saved

    def merge_thrown(self, thr):
        if len(thr) < 2:
            return thr
        groups = {}
        for x in thr:
            groups.setdefault((x[0], id(x[2]), x[3].id), []).append(x)
        if len(groups) == len(thr):
            return thr
        out = []
        for g in groups.values():
            t, _, e, fr = g[0]
            out += [(t, s, e, fr) for s in self.merge([x[1] for x in g], "%s:%s:thr" % (fr.id, e.get("l")))]
        return out

    def ctor_init(self, it, st, fr):
        out = []
        if "fld" in it:
            loc = T("fld", fr.this, it["fld"])
            out = self.init_obj(loc, it["e"], st, fr, None, it)
        elif "base" in it:
            e = it["e"]
            if e and e["k"] == "ctor":
                out = [s for _, s in self.construct_base(e, st, fr)]
            else:
                out = [st]
        else:
            if it["e"] and it["e"]["k"] == "ctor":
                out = [s for _, s in self.construct_base(it["e"], st, fr)]
            else:
                out = [st]
        return out

    def construct_base(self, e, st, fr):
        fn = self.fx.funcs.get(e["u"])
        if fn is not None and self.inline_ok(fn, fr, e):
            out = []
            for ts, s in self.args(e["a"], fn.ps, st, fr):
                out += self.run_inline(fn, fr.this, ts, s.copy(), fr, e, fr.cls)
            return out
        if e.get("cp") and e["a"]:
            out = []
            for l, s in self.lv(e["a"][0], st, fr):
                s = s.copy()
                self.base_copy(e["c"], fr.this, l, s, e, fr)
                out.append((C(0), s))
            return out
        out = []
        for ts, s in self.args(e["a"], [], st, fr):
            s = s.copy()
            r = self.on_opaque(e, fn, fr.this, ts, s, fr) if not e.get("imp") else False
            if r:
                self.pending.append((None, s.copy(), e, fr))
            out.append((C(0), s))
        return out

    def base_copy(self, cls, dst, src, st, node, fr):
        """Implicit copy constructor of a base class: all its fields are copied."""
        for _, f in self.fx.all_fields(cls) if cls in self.fx.classes else []:
            d, s = T("fld", dst, f["n"]), T("fld", src, f["n"])
            if f["tk"] in ("r", "a"):
                self.copyobj(d, s, st, node, fr)
            else:
                self.store(d, self.load(s, st), st, node, fr)

    def init_obj(self, loc, e, st, fr, var, node):
        """Initialise an object or scalar at loc with expression e: [states]."""
        out = []
        if e is None:
            return [st]
        if e["k"] == "ctor":
            for v, s in self.construct(e, st, fr, loc):
                s = s.copy() if s is st else s
                self.on_store(loc, T("constructed", e["u"], *[]), node, s, fr)
                out.append(s)
            return out
        if e["k"] in ("ilist",):
            for v, s in self.ev(e, st, fr):
                s = s.copy()
                self.store(loc, v, s, node, fr)
                if v.op == "ilist" and v.a and v.a[0] != "big":
                    for i, x in enumerate(v.a):
                        if isinstance(x, Term) and "[" in e.get("t", ""):
                            s.env[T("idx", loc, C(i))] = x
                out.append(s)
            return out
        for v, s in self.ev(e, st, fr):
            s = s.copy()
            if v.op == "objval":
                self.copyobj(loc, v.a[0], s, node, fr)
            else:
                self.store(loc, v, s, node, fr)
            out.append(s)
        return out

    # ---- statements --------------------------------------------------
    def flush(self, o, mark=None):
        """Move exceptions raised while evaluating expressions into an outcome."""
        if self.pending:
            o.t += self.pending
            self.pending = []

    def expr_stmt(self, e, sts, fr):
        o = Out()
        for s in sts:
            for _, s2 in self.ev(e, s, fr):
                o.n.append(s2)
        self.flush(o)
        o.n = self.merge(o.n, "%s:%s:s" % (fr.id, e["l"]))
        return o

    def block(self, b, sts, fr):
        if b is None:
            return Out(list(sts))
        if b["k"] != "block":
            return self.stmt(b, sts, fr)
        o = Out()
        cur = list(sts)
        for s in b["s"]:
            if not cur:
                break
            if s is None:
                continue
            x = self.stmt(s, cur, fr)
            o.add(x)
            cur = x.n
        o.n = cur
        self.on_scope_end(b, o, fr)
        return o

    def on_scope_end(self, b, o, fr):
        pass

    def cond_states(self, e, sts, fr):
        t, f = [], []
        for s in sts:
            a, b = self.cond(e, s, fr)
            t += a
            f += b
        return t, f

    def stmt(self, n, sts, fr):
        k = n["k"]
        self.steps += 1
        if k == "block":
            return self.block(n, sts, fr)
        if k == "null":
            return Out(list(sts))
        if k == "decl":
            o = Out()
            cur = list(sts)
            for v in n["v"]:
                nxt = []
                for s in cur:
                    nxt += self.declare(v, s, fr)
                cur = self.merge(nxt, "%s:%s:d" % (fr.id, v["l"]))
            o.n = cur
            self.flush(o)
            return o
        if k == "if":
            o = Out()
            cur = list(sts)
            for pre in ("init", "cv"):
                if n.get(pre):
                    x = self.stmt(n[pre], cur, fr)
                    o.add(x)
                    cur = x.n
            t, f = self.cond_states(n["c"], cur, fr)
            self.flush(o)
            site = "%s:%s:if" % (fr.id, n["l"])
            t, f = self.merge(t, site + "t"), self.merge(f, site + "f")
            self.on_branch(n, t, f, fr)
            if t:
                x = self.block(n["t"], t, fr)
                o.add(x)
                o.n += x.n
            if f:
                if n.get("e"):
                    x = self.block(n["e"], f, fr)
                    o.add(x)
                    o.n += x.n
                else:
                    o.n += f
            o.n = self.merge(o.n, site)
            return o
        if k in ("while", "for", "do"):
            return self.loop(n, sts, fr)
        if k == "rfor":
            return self.rangefor(n, sts, fr)
        if k == "switch":
            return self.switch(n, sts, fr)
        if k == "ret":
            o = Out()
            for s in sts:
                if n.get("e"):
                    isref = fr.fn.rt.endswith("&") and self.is_lvalue(n["e"])
                    if isref:
                        for l, s2 in self.lv(n["e"], s, fr):
                            o.r.append((T("addr", l), s2))
                    else:
                        for v, s2 in self.ev(n["e"], s, fr):
                            if v.op == "addr" and n["e"]["k"] == "call" and n["e"].get("t", "").endswith("&") and not fr.fn.rt.endswith("&"):
                                v = self.load(v.a[0], s2)
                            o.r.append((v, s2))
                else:
                    o.r.append((C(0), s))
            self.flush(o)
            for v, s in o.r:
                self.on_return(n, v, s, fr)
            return o
        if k == "break":
            o = Out()
            o.b = list(sts)
            return o
        if k == "cont":
            o = Out()
            o.c = list(sts)
            return o
        if k == "try":
            return self.trystmt(n, sts, fr)
        if k in ("case", "default", "label"):
            return self.block(n["s"], sts, fr)
        if k == "stmt":
            raise Broken("statement %s at %s:%s" % (n["cls"], fr.fn.file, n["l"]))
        return self.expr_stmt(n, sts, fr)

    def on_branch(self, n, t, f, fr):
        pass

    def on_return(self, n, v, s, fr):
        pass

    def declare(self, v, st, fr):
        loc = T("v", fr.id, v["id"], v["n"])
        if v.get("static"):
            return [st]
        if v.get("vla"):
            out = []
            for x, s in self.ev(v["vla"], st, fr):
                s = s.copy()
                self.on_node({"k": "vla", "l": v["l"], "n": v["n"]}, (x, loc), s, fr)
                out.append(s)
            return out
        st = st.copy()
        for k in [k for k in st.env if self.under(k, loc)]:
            del st.env[k]
        st.env.pop(T("ref", loc), None)
        st.env.pop(T("hv", loc), None)
        st.env.pop(T("alias", loc), None)
        if v.get("ref"):
            if v.get("i") is not None and self.is_lvalue(v["i"]):
                out = []
                for l, s in self.lv(v["i"], st, fr):
                    s = s.copy()
                    s.env[T("ref", loc)] = l
                    out.append(s)
                return out
        if v.get("i") is None:
            st.env[loc] = T("undef", loc)
            return [st]
        return self.init_obj(loc, v["i"], st, fr, v, v)

    # ---- loops -------------------------------------------------------
    def loop(self, n, sts, fr):
        o = Out()
        site = "%s:%s:%s" % (fr.id, n["l"], n["k"])
        cur = list(sts)
        if n["k"] == "for" and n.get("i"):
            x = self.block(n["i"], cur, fr)
            o.add(x)
            cur = x.n
        entry = cur
        head = cur
        if self.unroll and n["k"] == "for":
            u = self.unrolled(n, cur, site, fr)
            if u is not None:
                u.t += o.t
                u.r += o.r
                return u
        if n["k"] == "do":
            # first body run, then while
            x = self.block(n["b"], cur, fr)
            o.t += x.t
            o.r += x.r
            exits = list(x.b)
            head = self.merge(x.n + x.c, site + "0")
        else:
            exits = []
        seen = None
        final = None
        head = self.merge(head, site)
        for it in range(self.max_iter):
            self.loop_entry = entry
            t, f = ([], [])
            oo = Out()
            if n.get("c"):
                for s in head:
                    a, b = self.cond(n["c"], s, fr)
                    t += a
                    f += b
            else:
                t = head
            self.flush(oo)
            t = self.on_iterate(n, site, self.merge(t, site + "t"), fr)
            x = self.block(n["b"], t, fr) if t else Out()
            x = self.on_iterated(n, site, x, fr)
            oo.add(x)
            back = x.n + x.c
            back = self.merge(back, site + "c")
            if n["k"] == "for" and n.get("n") and back:
                y = self.expr_stmt(n["n"], back, fr)
                oo.t += y.t
                back = y.n
            final = (f, x.b, oo, head, back)
            new = self.widen(head, back, site, it)
            if self.same(new, head):
                break
            head = new
        else:
            raise Broken("no fixpoint at %s:%s" % (fr.fn.file, n["l"]))
        f, brk, oo, head, back = final
        o.t += oo.t
        o.r += oo.r
        f = self.loop_exit(n, site, entry, head, back, f, brk, fr)
        o.n = self.merge(self.on_loop_done(n, site, f + brk + exits, fr), site + "x")
        return o

    def unrolled(self, n, cur, site, fr):
        """A counted loop with constant bounds, iteration by iteration; None when it is not one."""
        o = Out()
        if not n.get("c"):
            return None
        cur = [s.copy() for s in cur]
        for it in range(self.unroll + 1):
            t = []
            for s in cur:
                a, b = self.cond(n["c"], s, fr)
                if len(a) + len(b) != 1:
                    return None
                t += a
                o.n += b
            if not t:
                o.n = self.merge(o.n, site + "x")
                return o
            x = self.block(n["b"], t, fr)
            o.t += x.t
            o.r += x.r
            o.n += x.b
            cur = self.merge(x.n + x.c, site + "c")
            if n.get("n") and cur:
                y = self.expr_stmt(n["n"], cur, fr)
                o.t += y.t
                cur = y.n
            cur = [s.copy() for s in cur]
        return None

    def widen(self, head, back, site, it):
        new = self.merge(head + back, site)
        if it >= 2:
            # widen intervals of this loop's phi terms
            old = {self.key(s): s for s in head}
            for s in new:
                p = old.get(self.key(s))
                if p is None:
                    continue
                for t, x in list(s.iv.items()):
                    y = p.iv.get(t)
                    if y is not None and x != y:
                        s.iv[t] = Iv(x.lo if x.lo == y.lo else -INF, x.lo_o if x.lo == y.lo else True,
                                     x.hi if x.hi == y.hi else INF, x.hi_o if x.hi == y.hi else True)
                        if s.iv[t].top():
                            del s.iv[t]
                if it >= 7:
                    # only weaken from here on
                    s.facts = {t: v for t, v in s.facts.items() if p.facts.get(t) is v}
                    s.iv = {t: v for t, v in s.iv.items() if p.iv.get(t) == v}
        return new

    def same(self, a, b):
        if len(a) != len(b):
            return False
        kb = {self.key(s): s for s in b}
        for s in a:
            r = kb.get(self.key(s))
            if r is None or r.env != s.env or r.facts != s.facts or r.iv != s.iv:
                return False
        return True

    def loop_exit(self, n, site, entry, head, back, f, brk, fr):
        """Summaries of counted loops over arrays: states after the loop."""
        if brk or len(head) != 1 or len(back) != 1 or len(entry) != 1 or len(f) != 1:
            return f
        h, b, e0, x = head[0], back[0], entry[0], f[0]
        ind = []
        for k, v in h.env.items():
            if v.op == "phi" and v.a[0] == site and k.op == "v":
                bv = b.env.get(k)
                if bv is not None and bv.op == "+" and bv.a[0] is v and num(bv.a[1]) == 1:
                    lo = e0.env.get(k)
                    if lo is not None:
                        ind.append((k, v, lo))
        self.on_induction(site, [(i, lo) for k, i, lo in ind], x)
        if len(ind) != 1:
            return f
        k, i, lo = ind[0]
        # the loop condition known at the exit: !(i < hi)
        hi = None
        for c, tv in x.facts.items():
            if tv is True and c not in h.facts:
                if c.op == "<=" and c.a[1] is i:
                    hi = c.a[0]
                elif c.op == "==" and i in c.a:
                    hi = c.a[0] if c.a[1] is i else c.a[1]
                elif c.op == "<" and c.a[1] is i:
                    hi = mk("+", c.a[0], C(1), "i")
        if hi is None or self.mentions(hi, site):
            return f
        # the for-increment ran already in b: body stores are indexed by i
        st = None
        for loc, v in b.env.items():
            if loc.op == "idx" and loc.a[1] is i and h.env.get(loc) is not v:
                st = st or x.copy()
                base = loc.a[0]
                for kk in [kk for kk in st.env if kk.op == "idx" and kk.a[0] is base]:
                    del st.env[kk]
                st.env.pop(T("hv", base), None)
                st.env.pop(T("alias", base), None)
                st.env[T("range", base)] = T("forall", i, lo, hi, v)
        return [st] if st is not None else f

    def on_iterate(self, n, site, states, fr):
        """states at the start of the loop body"""
        return states

    def on_iterated(self, n, site, out, fr):
        """states at the end of the loop body"""
        return out

    def on_loop_done(self, n, site, states, fr):
        """states that leave the loop"""
        return states

    def on_induction(self, site, ind, exit_state):
        """a loop whose variables (term, start) all advance by one per iteration"""

    def mentions(self, t, site):
        if t.op == "phi" and t.a[0] == site:
            return True
        return any(isinstance(x, Term) and self.mentions(x, site) for x in t.a)

    def rangefor(self, n, sts, fr):
        """for (x : range): the body runs any number of times with an unknown element."""
        o = Out()
        cur = []
        site = "%s:%s:rfor" % (fr.id, n["l"])
        rl = []
        for s in sts:
            rl += self.lv(n["r"], s, fr) if self.is_lvalue(n["r"]) else [(T("tmp", v), s2) for v, s2 in self.ev(n["r"], s, fr)]
        self.flush(o)
        for l, s in rl:
            s = s.copy()
            loc = T("v", fr.id, n["v"]["id"], n["v"]["n"])
            el = T("idx", l, T("elem", site))
            if n["v"].get("ref"):
                s.env[T("ref", loc)] = el
            else:
                s.env[loc] = self.load(el, s)
            cur.append(s)
        head = self.merge(cur, site)
        for it in range(self.max_iter):
            x = self.block(n["b"], head, fr)
            new = self.widen(head, x.n + x.c, site, it)
            if self.same(new, head):
                break
            head = new
        else:
            raise Broken("no fixpoint at %s:%s" % (fr.fn.file, n["l"]))
        o.t += x.t
        o.r += x.r
        o.n = self.merge(head + x.b, site + "x")
        return o

    def switch(self, n, sts, fr):
        o = Out()
        heads = []
        for s in sts:
            heads += self.ev(n["c"], s, fr)
        self.flush(o)
        body = n["b"]["s"] if n["b"]["k"] == "block" else [n["b"]]
        # flatten labels
        items = []
        for s in body:
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(s)
                s = s["s"]
            items.append((labels, s))
        values = [l["v"] for ls, _ in items for l in ls if l["k"] == "case" and "v" in l]
        cur = []
        hasdef = False
        brk = []
        for labels, s in items:
            for l in labels:
                for v, st in heads:
                    if l["k"] == "case":
                        for s2 in self.assume_all(mk("==", v, C(l["v"]), "i"), True, st):
                            cur.append(s2)
                    else:
                        hasdef = True
                        s2 = st
                        for x in values:
                            s2 = self.assume(mk("==", v, C(x), "i"), False, s2) if s2 is not None else None
                        if s2 is not None:
                            cur.append(s2)
            cur = self.merge(cur, "%s:%s:case" % (fr.id, (s or n)["l"]))
            if s is None or not cur:
                continue
            x = self.stmt(s, cur, fr)
            brk += x.b
            x.b = []
            o.add(x)
            cur = x.n
        if not hasdef:
            for v, st in heads:
                s2 = st
                for x in values:
                    s2 = self.assume(mk("==", v, C(x), "i"), False, s2) if s2 is not None else None
                if s2 is not None:
                    cur.append(s2)
        o.n = self.merge(cur + brk, "%s:%s:sw" % (fr.id, n["l"]))
        return o

    # ---- exceptions --------------------------------------------------
    def catches(self, h, t):
        """True/False/None: a handler catches an exception of type t (None: perhaps)."""
        if "t" not in h:
            return True
        if t is None:
            return None
        ht, t = h["t"].replace("const ", ""), t.replace("const ", "")
        if ht == t or self.fx.is_a(t, ht) or ht in self.fx.all_bases(t):
            return True
        if ht == "std::exception" and t.startswith("std::"):
            return True
        return False

    def trystmt(self, n, sts, fr):
        x = self.block(n["b"], sts, fr)
        o = Out(list(x.n))
        o.b, o.c, o.r = x.b, x.c, x.r
        live = x.t
        for h in n["h"]:
            caught, rest = [], []
            for t, s, e, f in live:
                c = self.catches(h, t)
                if c is not False:
                    s2 = s.copy()
                    self.on_catch(h, s2, fr)
                    caught.append((t, s2, e, f))
                if c is not True:
                    rest.append((t, s, e, f))
            live = rest
            if caught:
                hs = self.merge([s for _, s, _, _ in caught], "%s:%s:catch" % (fr.id, h["l"]))
                y = self.block(h["b"], hs, fr)
                o.n += y.n
                o.add(y)
                # a bare rethrow carries the caught type
                o.t = [(t if not (e["k"] == "throw" and not e.get("e")) else (caught[0][0]), s, e, f) for t, s, e, f in o.t]
        o.t += live
        o.n = self.merge(o.n, "%s:%s:try" % (fr.id, n["l"]))
        return o

    # ---- entry -------------------------------------------------------
    def run(self, fn, cls=None, facet=None, args=None, this=THIS, st=None):
        """Analyse one function as an entry point: ([(ret, state)], [(type, state, node, frame)])."""
        fr = Frame(fn, this, None, fn.l, cls or fn.c)
        self.pending = []
        s = st if st is not None else State(facet=facet)
        for i, p in enumerate(fn.ps):
            loc = T("v", fr.id, p["id"], p["n"])
            if args and i < len(args) and args[i] is not None:
                t = args[i]
            elif p.get("ref"):
                t = T("addr", T("obj", p["n"] or "arg%d" % i))
            elif p["tk"] == "r":
                t = T("objval", T("obj", p["n"] or "arg%d" % i))
            else:
                t = T("sym", p["n"] or "arg%d" % i)
            if p.get("ref"):
                s.env[T("ref", loc)] = t.a[0] if t.op in ("addr", "objval") else T("tmp", t)
            elif t.op == "objval":
                self.copyobj(loc, t.a[0], s, None, fr)
            else:
                s.env[loc] = t
        self.frame = fr
        self.on_enter(fn, fr, s)
        return self.run_body(fn, s, fr)
