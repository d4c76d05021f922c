"""Values of constant initialisers, read off the resolved AST (nothing is run).

str, int, bool -> Python values; enumerators -> Enum; brace lists, vectors, pairs, maps -> list;
objects of other classes -> Obj(type, args); anything else -> Unknown."""
from prog import strip_all


class Enum:
    __slots__ = ("q", "v")

    def __init__(self, q, v):
        self.q, self.v = q, v

    @property
    def name(self):
        return self.q.split("::")[-1]

    @property
    def type(self):
        return self.q.rsplit("::", 1)[0]

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Enum) and o.q == self.q

    def __hash__(self):
        return hash(self.q)


class Obj:
    __slots__ = ("t", "args", "node")

    def __init__(self, t, args, node=None):
        self.t, self.args, self.node = t, args, node

    def __repr__(self):
        return "%s%r" % (self.t.split("::")[-1], tuple(self.args))


class Unknown:
    __slots__ = ("node",)

    def __init__(self, node=None):
        self.node = node

    def __repr__(self):
        return "?"


LIST = ("std::vector<", "std::initializer_list<", "std::pair<", "std::map<", "std::unordered_map<", "std::set<", "std::unordered_set<",
        "std::array<", "std::tuple<")


class Ev:
    def __init__(self, p):
        global PROG
        PROG = self
        self.p = p
        self.vars = {}
        for v in p.vars.values():
            self.vars.setdefault((v.unit.name, v.q), v)
            self.vars.setdefault(v.q, v)

    def by_usr(self, usr):
        g = self.p.funcs.get(usr)
        return [g] if g is not None else []

    def var(self, q, unit=None):
        v = self.vars.get((unit, q)) or self.vars.get(q)
        return None if v is None or v.body is None else v

    def ev(self, n, env=None, d=0):
        if n is None or d > 60:
            return Unknown(n)
        k = n.k
        if k == "str":
            return n.s if n.s is not None else ""
        if k == "bool":
            return bool(n.v)
        if k in ("int", "chr", "char"):
            return n.v
        if k in ("icast", "cast", "paren", "temp", "bindtemp", "matl", "cleanup", "defarg", "default"):
            if k == "defarg":
                return Unknown(n)
            if n.ch:
                r = self.ev(n.ch[0], env, d + 1)
                if isinstance(r, Unknown) and n.v is not None:
                    return n.v
                return r
        if k == "ref" and n.var is not None:
            v = n.var
            if v.kind == "enum":
                return Enum(v.q, n.v)
            if env is not None and v in env:
                return env[v]
            g = self.var(v.q, n.fn.unit.name)
            if g is not None and (v.kind not in ("local", "param", "bind")):
                return self.ev(g.body, None, d + 1)
            ini = local_init(n.fn, v)
            if ini is not None:
                return self.ev(ini, env, d + 1)
            return Unknown(n) if n.v is None else n.v
        if k == "un" and n.op == "&":
            return self.ev(n.ch[0], env, d + 1)
        if k == "un" and n.op == "-":
            r = self.ev(n.ch[0], env, d + 1)
            return -r if isinstance(r, int) else Unknown(n)
        if k == "bin" and n.op in ("+", "-", "*", "/", "|", "&", "<<") and len(n.ch) == 2:
            if n.v is not None:
                return n.v
            a, b = self.ev(n.ch[0], env, d + 1), self.ev(n.ch[1], env, d + 1)
            if isinstance(a, int) and isinstance(b, int):
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b if b else Unknown(n), "|": lambda: a | b,
                        "&": lambda: a & b, "<<": lambda: a << b if 0 <= b < 64 else Unknown(n)}[n.op]()
            return Unknown(n)
        if k in ("ilist", "silist"):
            ch = [c for c in n.ch if c is not None]
            if k == "silist" and len(ch) == 1:
                return self.ev(ch[0], env, d + 1)
            xs = [self.ev(c, env, d + 1) for c in ch]
            r = self.p.recs.get(n.t.rec)
            if r is not None and not n.t.s.replace("const ", "").startswith("std::"):
                return Obj(n.t.rec, xs, n)
            return xs
        if k == "ctor":
            t = n.t.s.replace("const ", "")
            a = [c for c in n.args if c is not None and c.k != "defarg"]
            if t.startswith(("std::basic_string", "std::string", "std::basic_string_view")):
                if not a:
                    return ""
                return self.ev(a[0], env, d + 1)
            if t.startswith(LIST):
                if not t.startswith(("std::pair<", "std::tuple<")) and len(a) >= 1:
                    r = self.ev(a[0], env, d + 1)
                    return r
                xs = [self.ev(c, env, d + 1) for c in a]
                if len(xs) == 1 and isinstance(xs[0], list):
                    return xs[0]
                return xs
            xs = [self.ev(c, env, d + 1) for c in a]
            # copy or move
            if len(xs) == 1 and isinstance(xs[0], Obj) and xs[0].t == n.t.rec:
                return xs[0]
            return Obj(n.t.rec or t, xs, n)
        if n.is_call and n.callee is not None:
            q = n.callee.q
            if q.startswith(("std::make_pair", "std::make_tuple", "std::pair")):
                return [self.ev(c, env, d + 1) for c in n.args]
            if q.startswith(("std::move", "std::forward", "std::as_const")):
                return self.ev(n.args[0], env, d + 1)
            g = self.p.funcs.get(n.callee.u)
            return Obj("call " + q, [self.ev(c, env, d + 1) for c in n.args if c is not None], n)
        if n.v is not None:
            return n.v
        return Unknown(n)


def local_init(f, v):
    """initialiser of a local that is never reassigned."""
    if v.kind != "local" or not (v.t.const or v.t.ref):
        return None
    for n in f.nodes + outer(f):
        if n.k == "decl":
            for ds, ini in zip(n.a["ds"], n.ch):
                if n.fn.unit.vd[ds["d"]] is v:
                    return ini
    return None


def outer(f):
    """nodes of the functions a lambda is written in."""
    out = []
    u = f
    for _ in range(4):
        if u is None or not u.parent:
            break
        u = next((g for g in PROG.by_usr(u.parent)), None) if PROG is not None else None
        if u is not None:
            out += u.nodes
    return out


PROG = None
