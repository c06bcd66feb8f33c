"""Builds the fact extractor when needed, runs it over /repo's current sources and loads the facts.

The sources are the ones the Trick-less library build compiles (lib/sources*.mk, evaluated by make);
they are parsed as a few concatenated units with the build's flags (falling back to one unit per
source when a concatenation does not parse), and every function body, class, enum and global of the
non-test files is returned type-resolved.
"""
import json, os, subprocess, sys, tempfile, shutil, hashlib, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSA_REPO", "/repo")
TOOL_SRC = os.path.join(VERIF, "tool", "gfacts.cpp")
TOOL = os.path.join(VERIF, "build", "gfacts")
FLAGS = ["-std=gnu++17", "-Dno_TRICK_ENV=1", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


class Broken(Exception):
    """The analysis itself cannot give an answer (an error exit, never a pass or a violation)."""


def build_tool():
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    key = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()
    stamp = TOOL + ".key"
    with open(TOOL + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == key:
            return TOOL
        cmd = ["g++", "-O1", "-std=gnu++17", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", "-o", TOOL + ".tmp",
               TOOL_SRC, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
               "-Wl,-rpath,/usr/lib/llvm-18/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("cannot build the fact extractor:\n" + r.stdout[-2000:])
        os.replace(TOOL + ".tmp", TOOL)
        with open(stamp, "w") as f:
            f.write(key)
    return TOOL


def sources():
    mk = "include $(GUNNS_HOME)/lib/sources.mk\ninclude $(GUNNS_HOME)/lib/sources_omit.mk\n" \
         "include $(GUNNS_HOME)/lib/sources_omit_trickless.mk\nall:\n\t@printf '%s\\n' $(filter %.cpp,$(SOURCES))\n"
    env = dict(os.environ, GUNNS_HOME=REPO)
    for v in ("MAKEFLAGS", "MAKEFILES", "MFLAGS"):
        env.pop(v, None)
    r = subprocess.run(["make", "-s", "--no-print-directory", "-f", "-", "all"], input=mk, text=True, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/tmp")
    s = sorted({x for x in r.stdout.split("\n") if x})
    s = [x for x in s if os.path.exists(x)]
    if r.returncode or len(s) < 200:
        raise Broken("cannot list the library sources: %s" % r.stderr[-500:])
    return s


def _run(tool, tmp, i, files):
    unit = os.path.join(tmp, "u%d.cpp" % i)
    out = os.path.join(tmp, "o%d.tsv" % i)
    with open(unit, "w") as f:
        f.write("".join('#include "%s"\n' % x for x in files))
    inc = ["-I" + REPO] + ["-I%s/%s" % (REPO, d) for d in ("core", "aspects", "ms-utils", "gunns-ts-models")]
    r = subprocess.run([tool, REPO.rstrip("/") + "/", out, unit] + FLAGS + inc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, out, r.stdout


class Func:
    __slots__ = ("d", "q", "n", "u", "c", "file", "l", "el", "kind", "ps", "body", "inits", "virt", "ov", "rt", "acc", "const", "static", "calls_", "_x")

    def __init__(self, d):
        self.d = d
        self.q, self.n, self.u, self.c = d["q"], d["n"], d["u"], d.get("c")
        self.file, self.l, self.el, self.kind = d["file"], d["l"], d["el"], d["kind"]
        self.ps, self.body, self.inits = d["ps"], d["body"], d.get("inits", [])
        self.virt, self.ov, self.rt, self.acc = d.get("virt", 0), d.get("ov", []), d["rt"], d.get("acc", "pub")
        self.const, self.static = d.get("const", 0), d.get("static", 0)

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.l)

    def __repr__(self):
        return "<%s %s>" % (self.q, self.loc)


class Cls:
    def __init__(self, d):
        self.d = d
        self.q, self.file, self.l = d["q"], d["file"], d["l"]
        self.bases = [b["c"] for b in d["bases"]]
        self.fields = [f for f in d["fields"] if not f.get("static")]
        self.statics = [f for f in d["fields"] if f.get("static")]
        self.methods = d["methods"]
        self.abstract = d.get("abs", 0)
        self.fieldmap = {f["n"]: f for f in d["fields"]}

    def __repr__(self):
        return "<class %s>" % self.q


class Facts:
    def __init__(self):
        self.funcs = {}      # u -> Func
        self.byq = {}        # qualified name -> [Func]
        self.classes = {}
        self.enums = {}
        self.vars = {}
        self.units = 0

    def finish(self):
        self.bymeth = {}
        self.derived = {}
        self.methods_of = {}
        for f in self.funcs.values():
            self.byq.setdefault(f.q, []).append(f)
            if f.c:
                self.methods_of.setdefault(f.c, []).append(f)
        for c in self.classes.values():
            for b in c.bases:
                self.derived.setdefault(b, set()).add(c.q)
        self.mdecl = {}      # method u -> (class, decl)
        for c in self.classes.values():
            for m in c.methods:
                self.mdecl[m["u"]] = (c, m)
        self._ovc = {}
        self._fin = {}
        self._mod = {}

    # ------------------------------------------------------------ class hierarchy
    def all_bases(self, q):
        """Transitive bases, nearest first."""
        out = []
        st = list(self.classes[q].bases) if q in self.classes else []
        while st:
            b = st.pop(0)
            if b not in out:
                out.append(b)
                if b in self.classes:
                    st.extend(self.classes[b].bases)
        return out

    def all_derived(self, q):
        out, st = set(), [q]
        while st:
            for d in self.derived.get(st.pop(), ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def is_a(self, q, base):
        return q == base or base in self.all_bases(q)

    def all_fields(self, q):
        """[(owner class, field)] including inherited."""
        out = []
        for b in [q] + self.all_bases(q):
            if b in self.classes:
                out += [(b, f) for f in self.classes[b].fields]
        return out

    def const_value(self, q, depth=0):
        """The value of a constant global whose initializer is built from literals and other constants, or None."""
        memo = self.__dict__.setdefault("_cv", {})
        if q not in memo:
            memo[q] = None
            g = self.vars.get(q)
            if g and g.get("const") and g.get("tk") in ("f", "i"):
                memo[q] = g["v"] if g.get("v") is not None else self._cfold(g.get("i"))
        return memo[q]

    def _cfold(self, e):
        import math
        k = e.get("k") if e else None
        if k in ("lit", "int"):
            return e.get("v")
        if k in ("cast", "conv", "paren"):
            return self._cfold(e.get("e"))
        if k == "var":
            return self.const_value(e["q"]) if e.get("d") == "g" else None
        if k == "un" and e.get("op") == "-":
            x = self._cfold(e["e"])
            return None if x is None else -x
        if k == "bin" and e.get("op") in ("+", "-", "*", "/"):
            x, y = self._cfold(e["x"]), self._cfold(e["y"])
            if x is None or y is None or e["op"] == "/" and (y == 0 or e.get("tk") != "f"):
                return None
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[e["op"]]()
        if k == "call" and not e.get("c") and e.get("n") in ("exp", "sqrt") and len(e["a"]) == 1:
            x = self._cfold(e["a"][0])
            return None if x is None or x < 0 else getattr(math, e["n"])(x)
        return None

    def field(self, q, name):
        for b in [q] + self.all_bases(q):
            c = self.classes.get(b)
            if c and name in c.fieldmap:
                return b, c.fieldmap[name]
        return None, None

    def overridden(self, u):
        """All methods (transitively) overridden by u, including itself."""
        if u in self._ovc:
            return self._ovc[u]
        s = {u}
        if u in self.mdecl:
            for o in self.mdecl[u][1]["ov"]:
                s |= self.overridden(o)
        self._ovc[u] = s
        return s

    def final(self, cls, u):
        """The definition that a virtual call of method u runs on an object of dynamic class cls (a u, or None)."""
        k = (cls, u)
        if k in self._fin:
            return self._fin[k]
        r = None
        for b in [cls] + self.all_bases(cls):
            c = self.classes.get(b)
            if not c:
                continue
            for m in c.methods:
                if m["u"] == u or (m.get("virt") and u in self.overridden(m["u"])):
                    r = m["u"]
                    break
            if r:
                break
        self._fin[k] = r
        return r

    def method(self, cls, name, nparams=None, own=False):
        """Func of the method `name` as seen from class cls (nearest definition)."""
        for b in [cls] + ([] if own else self.all_bases(cls)):
            c = [f for f in self.methods_of.get(b, []) if f.n == name and (nparams is None or len(f.ps) == nparams)]
            if c:
                return c[0]
        return None

    def overrides(self, u):
        """All function definitions that may run for a virtual call of u."""
        if u not in self._mod:
            self._mod[u] = [f for f in self.funcs.values() if f.c and (f.u == u or u in self.overridden(f.u))]
        return self._mod[u]

    def concrete(self, base):
        """Non-abstract classes that are `base` or derive from it."""
        return sorted(q for q in ({base} | self.all_derived(base)) if q in self.classes and not self.classes[q].abstract)


def load():
    tool = build_tool()
    src = sources()
    tmp = tempfile.mkdtemp(prefix="gsa.")
    try:
        n = 8
        # a fixed partition of the sorted names; the third-party XML parser is not analysed
        src = [x for x in src if "/ms-utils/parsing/tinyxml/" not in x]
        chunks = [src[i::n] for i in range(n)]
        fx = Facts()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: _run(tool, tmp, *a), [(i, c) for i, c in enumerate(chunks) if c]))
            outs = []
            redo = []
            for (rc, out, log), c in zip(res, chunks):
                if rc:
                    redo += c
                else:
                    outs.append(out)
            if redo:
                res2 = list(ex.map(lambda a: _run(tool, tmp, *a), [(100 + i, [c]) for i, c in enumerate(redo)]))
                for (rc, out, log), c in zip(res2, redo):
                    if rc:
                        raise Broken("%s does not parse:\n%s" % (c, log[-1500:]))
                    outs.append(out)
        fx.units = len(outs)
        fx.sources = src
        for o in outs:
            done = False
            with open(o, "rb") as f:
                for ln in f:
                    tag = ln[:1]
                    if tag == b"Z":
                        done = True
                        continue
                    d = json.loads(ln[2:])
                    if tag == b"F":
                        if d["u"] in fx.funcs:
                            continue
                        fx.funcs[d["u"]] = Func(d)
                    elif tag == b"C":
                        if d["q"] not in fx.classes:
                            fx.classes[d["q"]] = Cls(d)
                    elif tag == b"V":
                        k = d["q"] if not d.get("sl") else d.get("fn", "") + "::" + d["q"]
                        if k not in fx.vars or ("i" in d and "i" not in fx.vars[k]) or (d.get("def") and not fx.vars[k].get("def")):
                            old = fx.vars.get(k, {})
                            nd = dict(old)
                            nd.update(d)
                            if old.get("const"):
                                nd["const"] = 1
                            fx.vars[k] = nd
                    elif tag == b"E":
                        fx.enums.setdefault(d["q"], d)
            if not done:
                raise Broken("truncated facts")
        fx.finish()
        if len(fx.funcs) < 2000 or len(fx.classes) < 300:
            raise Broken("too few facts: %d functions, %d classes" % (len(fx.funcs), len(fx.classes)))
        return fx
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def walk(node):
    """All dict nodes of a syntax tree, pre-order."""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)
