"""Whole-program model built from the extractor's facts."""
import gc, hashlib, os, pickle, re, sys
from collections import defaultdict, deque
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from facts import AnalysisError, REPO, CACHE


class Type:
    __slots__ = ("s", "rec", "fl", "w")

    def __init__(self, s, rec, fl, w):
        self.s, self.rec, self.fl, self.w = s, rec, fl, w

    @property
    def const(self):
        return "c" in self.fl

    @property
    def ptr(self):
        return "p" in self.fl

    @property
    def ref(self):
        return "r" in self.fl or "R" in self.fl

    def __repr__(self):
        return self.s


NOTYPE = Type("", "", "", 0)


class FDecl:
    __slots__ = ("u", "q", "r", "fl", "p", "cls")

    @property
    def name(self):
        return self.q.rsplit("::", 1)[-1]

    def __repr__(self):
        return self.q


class VDecl:
    __slots__ = ("q", "kind", "t", "line")

    def __repr__(self):
        return "%s:%s" % (self.kind, self.q)


class Node:
    __slots__ = ("fn", "id", "k", "line", "t", "a", "ch", "parent")

    def __iter__(self):
        return iter(self.ch)

    @property
    def callee(self):
        f = self.a.get("f")
        return None if f is None else self.fn.unit.fd[f]

    @property
    def cq(self):
        f = self.a.get("f")
        return "" if f is None else self.fn.unit.fd[f].q

    @property
    def var(self):
        d = self.a.get("d")
        if d is None:
            d = self.a.get("m")
        return None if d is None else self.fn.unit.vd[d]

    @property
    def v(self):
        return self.a.get("v")

    @property
    def s(self):
        s = self.a.get("s")
        return None if s is None else self.fn.unit.strs[s]

    @property
    def op(self):
        o = self.a.get("op")
        return None if o is None else self.fn.unit.strs[o]

    @property
    def is_call(self):
        return self.k in ("call", "mcall", "ocall", "ctor")

    @property
    def args(self):
        """Arguments without the object of a member call."""
        if self.k == "mcall":
            return self.ch[1:]
        if self.k == "ocall" and self.callee is not None and self.callee.cls and "s" not in self.callee.fl:
            return self.ch[1:]
        return self.ch

    @property
    def obj(self):
        if self.k == "mcall":
            return self.ch[0]
        if self.k == "ocall" and self.callee is not None and self.callee.cls:
            return self.ch[0]
        return None

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(c for c in reversed(n.ch) if c is not None)

    def up(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent

    def loc(self):
        return "%s:%d" % (self.fn.relfile, self.line)

    def __repr__(self):
        return "<%s@%d %s>" % (self.k, self.line, self.cq or self.op or (self.var.q if self.var else ""))


class Block:
    __slots__ = ("id", "elems", "term", "tk", "cond", "succ", "label", "pred", "nr")


class Func:
    def __init__(self, unit, raw):
        self.unit = unit
        self.raw = raw
        d = unit.fd[raw["f"]]
        self.decl = d
        self.usr = d.u
        self.q = d.q
        self.file = unit.strs[raw["file"]]
        self.line = raw["line"]
        self.eline = raw["eline"]
        self.parent = unit.strs[raw["parent"]] if "parent" in raw else None
        self._n = None
        self._b = None

    is_var = False

    @property
    def relfile(self):
        f = self.file
        if f.startswith(REPO + "/"):
            return f[len(REPO) + 1:]
        if "/.cache/gen/" in f:
            return "generated_parser/" + os.path.basename(f)
        return f

    def loc(self):
        return "%s:%d" % (self.relfile, self.line)

    @property
    def name(self):
        return self.q.rsplit("::", 1)[-1]

    @property
    def cls(self):
        return self.decl.cls

    @property
    def params(self):
        return [self.unit.vd[i] for i in self.raw.get("ps", [])]

    @property
    def nodes(self):
        if self._n is None:
            u = self.unit
            ns = []
            for i, r in enumerate(self.raw["nodes"]):
                n = Node()
                n.fn, n.id, n.parent = self, i, None
                if r is None:
                    n.k, n.line, n.t, n.a, n.ch = "nil", 0, NOTYPE, {}, []
                else:
                    n.k = u.strs[r[0]]
                    n.line = r[1]
                    n.t = u.types[r[2]] if r[2] >= 0 else NOTYPE
                    n.a = r[3]
                    n.ch = r[4]
                ns.append(n)
            for n in ns:
                n.ch = [ns[c] if c >= 0 else None for c in n.ch]
                for c in n.ch:
                    if c is not None and c.parent is None:
                        c.parent = n
            self._n = ns
        return self._n

    @property
    def body(self):
        i = self.raw.get("body", self.raw.get("i", -1))
        return self.nodes[i] if i is not None and i >= 0 else None

    @property
    def inits(self):
        """Constructor initialisers: (field VDecl or None, base Type or None, node, written)."""
        out = []
        for x in self.raw.get("inits", []):
            m = self.unit.vd[x["m"]] if "m" in x else None
            b = self.unit.types[x["b"]] if "b" in x else None
            out.append((m, b, self.nodes[x["i"]] if x["i"] >= 0 else None, x["w"]))
        return out

    @property
    def blocks(self):
        if self._b is None:
            bs = {}
            ns = self.nodes
            for r in self.raw.get("cfg", []):
                b = Block()
                b.id = r["b"]
                es = []
                for e in r["e"]:
                    if isinstance(e, list):
                        if e[0] == "d":
                            es.append(("dtor", self.unit.vd[e[1]]))
                        else:
                            es.append(("init", self.unit.vd[e[1]] if e[1] >= 0 else None, ns[e[2]] if e[2] >= 0 else None))
                    else:
                        es.append(ns[e])
                b.elems = es
                b.term = ns[r["t"]] if "t" in r else None
                b.tk = self.unit.strs[r["tk"]] if "tk" in r else None
                b.cond = ns[r["c"]] if r.get("c", -1) >= 0 else None
                b.label = ns[r["l"]] if r.get("l", -1) >= 0 else None
                b.succ = r["s"]
                b.nr = r.get("nr", 0)
                b.pred = []
                bs[b.id] = b
            for b in bs.values():
                for s in b.succ:
                    if s >= 0:
                        bs[s].pred.append(b.id)
            self._b = bs
        return self._b

    @property
    def entry(self):
        return self.raw.get("entry", -1)

    @property
    def exit(self):
        return self.raw.get("exit", -1)

    def calls(self):
        return [n for n in self.nodes if n.is_call]

    def __repr__(self):
        return "<fn %s>" % self.q


class Var(Func):
    """A variable with static storage; nodes hold its initialiser."""
    is_var = True

    def __init__(self, unit, raw):
        self.unit = unit
        self.raw = raw
        self.q = unit.strs[raw["q"]]
        self.usr = "var:" + unit.strs[raw["u"]]
        self.vdecl = unit.vd[raw["d"]]
        self.file = unit.strs[raw["file"]]
        self.line = raw["line"]
        self.eline = raw["line"]
        self.fl = unit.strs[raw["fl"]]
        self.t = unit.types[raw["t"]]
        self.decl = None
        self.parent = None
        self._n = None
        self._b = None

    @property
    def cls(self):
        return None


class Rec:
    pass


class Unit:
    def __init__(self, name, d):
        self.name = name
        self.strs = d["strs"]
        S = self.strs
        self.types = [Type(S[a], S[b], S[c], w) for a, b, c, w in d["types"]]
        self.vd = []
        for q, k, t, l in d["vd"]:
            v = VDecl()
            v.q, v.kind, v.t, v.line = S[q], S[k], (self.types[t] if t >= 0 else NOTYPE), l
            self.vd.append(v)
        self.fd = []
        for o in d["fd"]:
            f = FDecl()
            f.u, f.q, f.fl = S[o["u"]], S[o["q"]], S[o["fl"]]
            f.r = self.types[o["r"]] if o["r"] >= 0 else NOTYPE
            f.p = [self.types[i] if i >= 0 else NOTYPE for i in o["p"]]
            f.cls = S[o["cls"]] if "cls" in o else None
            self.fd.append(f)


class Prog:
    def __init__(self):
        outs, self.fresh, self.gen = facts.extract_all()
        self.units = {}
        self.funcs = {}
        self.byq = defaultdict(list)
        self.recs = {}
        self.recs_by_usr = {}
        self.enums = {}
        self.vars = {}
        self.over = defaultdict(set)  # method usr -> directly overriding usrs
        gc.disable()
        for u in sorted(outs):
            with open(outs[u], "rb") as f:
                d = pickle.load(f)
            unit = Unit(u, d)
            self.units[u] = unit
            S = unit.strs
            for raw in d["funcs"]:
                fn = Func(unit, raw)
                if fn.usr in self.funcs:
                    continue
                self.funcs[fn.usr] = fn
                self.byq[fn.q].append(fn)
            for raw in d["vars"]:
                v = Var(unit, raw)
                if v.usr not in self.vars:
                    self.vars[v.usr] = v
            for raw in d["enums"]:
                self.enums.setdefault(S[raw["q"]], ([(S[a], b) for a, b in raw["c"]], S[raw["file"]], raw["line"]))
            for raw in d["records"]:
                usr = S[raw["u"]]
                if usr in self.recs_by_usr:
                    continue
                r = Rec()
                r.q, r.usr, r.file, r.line = S[raw["q"]], usr, S[raw["file"]], raw["line"]
                r.t = unit.types[raw["t"]]
                r.bases = [(unit.types[a], S[b], S[c], v) for a, b, c, v in raw["bases"]]
                r.fields = []
                for f in raw["fields"]:
                    x = Rec()
                    x.name, x.t, x.mut, x.line = S[f["n"]], unit.types[f["t"]], f["mut"], f["line"]
                    x.q = r.q + "::" + x.name
                    x.has_init = "i" in f
                    r.fields.append(x)
                r.methods = []
                for m in raw["methods"]:
                    fd = unit.fd[m["f"]]
                    ov = [unit.fd[i] for i in m["ov"]]
                    r.methods.append((fd, ov, m["acc"], m["imp"]))
                    for o in ov:
                        self.over[o.u].add(fd.u)
                self.recs_by_usr[usr] = r
                self.recs.setdefault(r.q, r)
        gc.enable()
        self.sub = defaultdict(set)
        for r in self.recs_by_usr.values():
            for _, bq, _, _ in r.bases:
                self.sub[bq].add(r.q)
        self._trans = {}
        self._cg = None
        self._rcg = None

    # ---- hierarchy
    def derived(self, q):
        """All classes deriving (transitively) from q, q excluded."""
        seen, st = set(), [q]
        while st:
            for s in self.sub.get(st.pop(), ()):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def bases(self, q):
        seen, st = set(), [q]
        while st:
            r = self.recs.get(st.pop())
            if r:
                for _, b, _, _ in r.bases:
                    if b and b not in seen:
                        seen.add(b)
                        st.append(b)
        return seen

    def overriders(self, usr):
        if usr not in self._trans:
            seen, st = set(), [usr]
            while st:
                for s in self.over.get(st.pop(), ()):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._trans[usr] = seen
        return self._trans[usr]

    # ---- functions
    def fn(self, q, required=True):
        """The unique function with this qualified name (suffix match on :: allowed)."""
        r = self.fns(q)
        if not r and required:
            raise AnalysisError("anchor not found: function %s" % q)
        return r[0] if r else None

    def fns(self, q):
        if q in self.byq:
            return self.byq[q]
        out = []
        for k, v in self.byq.items():
            if k.endswith("::" + q):
                out.extend(v)
        return out

    def var_by_decl(self, v):
        """The constant with static storage a reference names, with its initialiser."""
        m = self.__dict__.get("_constvars")
        if m is None:
            m = self._constvars = {}
            for x in self.vars.values():
                if "c" in x.fl:
                    m.setdefault((x.q, x.unit.name if "anonymous" in x.q else ""), x)
        return m.get((v.q, "")) or None

    def rec(self, q, required=True):
        if q in self.recs:
            return self.recs[q]
        c = [r for k, r in self.recs.items() if k.endswith("::" + q)]
        if len(c) == 1:
            return c[0]
        if required:
            raise AnalysisError("anchor not found: class %s (%d candidates)" % (q, len(c)))
        return None

    def targets(self, n):
        """Possible function definitions (in the repo) a call node reaches, virtual dispatch resolved."""
        d = n.callee
        if d is None:
            return []
        us = [d.u]
        if "v" in d.fl and not n.a.get("qual") and n.k != "ctor":
            us += sorted(self.overriders(d.u))
        out = [self.funcs[u] for u in us if u in self.funcs]
        if not out and d.q.startswith("std::"):
            out = self._made(n, d)
        return out

    def _made(self, n, d):
        """constructors that library factories call"""
        nm = d.name.split("<")[0]
        t = None
        if nm in ("make_unique", "make_shared") and n.k == "call":
            t = first_targ(n.t.s)
            args = n.ch
        elif nm in ("emplace_back", "emplace_front", "emplace") and n.k == "mcall" and n.ch and n.ch[0] is not None:
            t = first_targ(n.ch[0].t.s)
            args = n.ch[1:]
            if n.ch[0].t.s.replace("const ", "").startswith(("std::map<", "std::unordered_map<")):
                return []
        if not t:
            return []
        args = [a for a in args if a is not None and a.k != "defarg"]
        m = self.__dict__.get("_ctors")
        if m is None:
            m = self._ctors = defaultdict(list)
            for f in self.funcs.values():
                if f.decl is not None and "C" in f.decl.fl and f.cls:
                    m[f.cls].append(f)
        return [f for f in m.get(t, ()) if len(f.params) >= len(args) and not (set("KM") & set(f.decl.fl)) and
                (len(f.params) == len(args) or any(len(g.params) == len(args) for g in m[t]) is False)]

    def callgraph(self):
        """usr -> list of (call node, Func).  A lambda or function whose address is taken inside a function is treated
        as callable from it (edge from the place that creates it)."""
        if self._cg is None:
            cg = {}
            for u, f in list(self.funcs.items()):
                es = []
                for n in f.nodes:
                    if n.is_call:
                        for t in self.targets(n):
                            es.append((n, t))
                    elif n.k in ("lambda", "fref") or (n.k == "member" and "f" in n.a and n.parent is not None):
                        d = n.callee
                        if d is not None:
                            us = [d.u]
                            if "v" in d.fl:
                                us += sorted(self.overriders(d.u))
                            for x in us:
                                if x in self.funcs:
                                    es.append((n, self.funcs[x]))
                for b in f.raw.get("cfg", []):
                    pass
                cg[u] = es
            self._cg = cg
        return self._cg

    def callers(self):
        if self._rcg is None:
            r = defaultdict(list)
            for u, es in self.callgraph().items():
                for n, t in es:
                    r[t.usr].append((self.funcs[u], n))
            self._rcg = r
        return self._rcg

    def reach(self, roots, stop=lambda f: False, edge=lambda n, t: True):
        """Functions reachable from roots (Funcs): {usr: (parent Func, call node)}."""
        cg = self.callgraph()
        seen = {}
        dq = deque()
        for r in roots:
            seen[r.usr] = (None, None)
            dq.append(r)
        while dq:
            f = dq.popleft()
            if stop(f):
                continue
            for n, t in cg.get(f.usr, ()):
                if t.usr not in seen and edge(n, t):
                    seen[t.usr] = (f, n)
                    dq.append(t)
        return seen

    def chain(self, seen, f):
        out = []
        while f is not None:
            p, n = seen[f.usr]
            out.append("%s%s" % (f.q, " (called at %s)" % n.loc() if n is not None else ""))
            f = p
        return list(reversed(out))

    def src_funcs(self):
        """Functions of the hand-written sources (no generated parser)."""
        return [f for f in self.funcs.values() if f.file.startswith(REPO + "/")]


def first_targ(s):
    """first template argument of a type name"""
    i = s.find("<")
    if i < 0:
        return None
    d = 0
    for j in range(i + 1, len(s)):
        ch = s[j]
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                return s[i + 1:j].strip()
            d -= 1
        elif ch == "," and d == 0:
            return s[i + 1:j].strip()
    return None


# ---------- expression helpers ----------
MOVES = ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")


def strip(n):
    """Look through moves, casts, copies/conversions by single-argument construction, *&."""
    while n is not None:
        if n.k in ("icast", "cast"):
            n = n.ch[0]
        elif n.k == "call" and n.cq in MOVES and n.ch:
            n = n.ch[0]
        elif n.k == "ctor" and len([c for c in n.ch if c is not None and c.k != "defarg"]) == 1 and (
                set("KM") & set(n.callee.fl) or n.a.get("el")):
            n = n.ch[0]
        elif n.k in ("silist",):
            n = n.ch[0]
        else:
            return n
    return n


def strip_all(n):
    """strip + any single-argument conversion constructor, address-of, dereference, c_str()/get()/front-like
    pass-through accessors."""
    while True:
        m = strip(n)
        if m is None:
            return None
        if m.k == "ctor" and len([c for c in m.ch if c is not None and c.k != "defarg"]) == 1:
            m = m.ch[0]
        elif m.k == "un" and m.op in ("*", "&"):
            m = m.ch[0]
        elif m.k == "ocall" and m.op in ("*", "->") and len(m.ch) == 1:
            m = m.ch[0]
        elif m.k == "mcall" and m.callee is not None and m.callee.name in (
                "c_str", "get", "data", "operator basic_string_view", "value", "str") and len(m.ch) == 1:
            m = m.ch[0]
        else:
            if m is n:
                return m
        n = m


def calls_in(n):
    return [x for x in n.walk() if x.is_call]


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Prog()
    return _prog


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p.funcs), "functions", len(p.recs_by_usr), "records", len(p.vars), "vars", time.time() - t)
    t = time.time()
    cg = p.callgraph()
    print(sum(len(x) for x in cg.values()), "edges", time.time() - t)
