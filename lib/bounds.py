"""Lower bounds of container sizes: must-dataflow of facts 'N:<container>>=k' (k up to CAP)."""
from prog import strip
from flow import canon, vname, norm_cond, branch_cond, evalc, kill, written, lval_names, decl_facts
from prov import defs
from absent import ValidFacts, only_reads, field_writers, end_like

CAP = 512
GROW1 = {"push_back", "emplace_back", "push", "emplace_front", "push_front"}
SHRINK1 = {"pop_back", "pop", "pop_front"}
SIZE = {"size", "length"}
SEQ = ("std::vector<", "std::deque<", "std::stack<", "std::queue<", "std::basic_string<", "std::basic_string_view<", "std::list<",
       "std::array<", "std::map<", "std::set<", "std::unordered_", "std::string", "std::u")


def containerish(t):
    s = t.s
    for w in ("const ",):
        if s.startswith(w):
            s = s[len(w):]
    s = s.rstrip("& *")
    return s.startswith(SEQ)


def bound(facts, c):
    return facts.get("N:" + c, 0)


def setb(facts, c, k):
    if facts.get("N:" + c, 0) == k:
        return facts
    facts = dict(facts)
    if k > 0:
        facts["N:" + c] = min(k, CAP)
    else:
        facts.pop("N:" + c, None)
    return facts


def ref_alias(v, fn):
    """a local reference with one initialiser"""
    if v.kind == "local" and v.t.ref:
        ds = defs(fn).get(v, [])
        if len(ds) == 1 and ds[0] is not None:
            s = strip(ds[0])
            if s is not None and s.k in ("ref", "member", "mcall", "un", "ocall", "index"):
                return s
    return None


_cn = {}


def cn(n, d=0):
    """canonical expression with local references replaced by what they refer to"""
    if n is None:
        return None
    k = (id(n.fn), n.id)
    if k in _cn:
        return _cn[k][0]
    c = canon(n)
    if c is not None and d < 4 and "{" in c:
        for x in n.walk():
            if x.k == "ref" and x.var is not None:
                a = ref_alias(x.var, x.fn)
                if a is not None and vname(x.var) in c:
                    ca = cn(a, d + 1)
                    if ca is not None and vname(x.var) not in ca:
                        c = c.replace(vname(x.var), ca)
    _cn[k] = (c, n)
    return c


def changed(n):
    """canonical lvalues this node may modify, through references as well"""
    out = []
    for w in written(n):
        x = strip(w)
        if x is not None and x.k == "un" and x.op == "&":
            x = strip(x.ch[0])
        c = cn(x)
        if c:
            out.append(c)
    return out


def size_of(n, d=0):
    """node is the size of a container -> canonical container"""
    s = strip(n)
    if s is None:
        return None
    if s.k == "mcall" and s.callee is not None and s.callee.name in SIZE and len(s.ch) == 1 and s.callee.q.startswith("std::"):
        return cn(s.ch[0])
    if s.k == "call" and s.cq in ("std::size",):
        return cn(s.ch[0])
    if s.k == "ref" and s.var is not None and s.var.kind == "local" and d < 2:
        ds = defs(s.fn).get(s.var, [])
        if len(ds) == 1 and ds[0] is not None:
            return size_of(ds[0], d + 1)
    return None


class SizeFacts(ValidFacts):
    def __init__(self, f, p, entry=None, cls=None):
        self.cls = cls or f.cls
        super().__init__(f, lambda n: False, entry=entry, p=p)

    # ---- effects
    def through(self, b, facts, rec):
        for e in b.elems:
            if isinstance(e, tuple):
                continue
            if rec is not None:
                rec[e.id] = facts
            old = facts
            if not (e.k == "mcall" and only_reads(self.p, e)):
                facts = kill(facts, e)
                for c in changed(e):
                    if any(c in k for k in facts if k.startswith("N:")):
                        facts = {k: v for k, v in facts.items() if not (k.startswith("N:") and c in k)}
            if len(facts) != len(old) and e.is_call:
                back = {}
                names = changed(e)
                ts = None
                for k, v in old.items():
                    if k in facts or ":this." not in k:
                        continue
                    fld = k.split("this.", 1)[1]
                    if "." in fld or "(" in fld or "[" in fld or any(x == "this." + fld for x in names) or "this" not in names:
                        continue
                    if ts is None:
                        ts = self.p.targets(e)
                    w = field_writers(self.p, fld)
                    if not any(t.usr in w for t in ts):
                        back[k] = v
                if back:
                    facts = dict(facts)
                    facts.update(back)
            facts = decl_facts(e, facts)
            facts = self.effect(e, old, facts)
        return facts

    def effect(self, e, old, facts):
        if e.k == "mcall" and e.callee is not None and e.ch and e.ch[0] is not None and e.callee.q.startswith("std::"):
            c = cn(e.ch[0])
            nm = e.callee.name
            if c is None:
                return facts
            if nm in GROW1:
                return setb(facts, c, min(CAP, bound(old, c) + 1))
            if nm in SHRINK1:
                return setb(facts, c, max(0, bound(old, c) - 1))
            if nm in ("insert", "emplace", "try_emplace", "insert_or_assign", "append"):
                b = bound(old, c)
                if nm != "append" and not (nm == "insert" and len(e.ch) >= 4):
                    b = max(b, 1)
                return setb(facts, c, b)
            if nm == "erase" and len(e.ch) == 2 and "basic_string" not in e.callee.q:
                return setb(facts, c, max(0, bound(old, c) - 1))
            if nm == "resize" and len(e.ch) >= 2 and e.ch[1] is not None and strip(e.ch[1]).v is not None:
                return setb(facts, c, min(CAP, int(strip(e.ch[1]).v)))
            if nm in ("reserve", "shrink_to_fit"):
                return setb(facts, c, bound(old, c))
            return facts
        if e.k == "ocall" and e.op == "+=" and len(e.ch) == 2:
            c = cn(e.ch[0])
            if c:
                return setb(facts, c, min(CAP, bound(old, c) + self.value(e.ch[1], old)))
        if e.k == "ocall" and e.op == "=" and len(e.ch) == 2:
            c = cn(e.ch[0])
            if c and containerish(e.ch[0].t):
                return setb(facts, c, self.value(e.ch[1], old))
        if e.k == "ocall" and e.op == "[]" and len(e.ch) == 2 and ("map<" in e.ch[0].t.s):
            c = cn(e.ch[0])
            if c:
                return setb(facts, c, max(1, bound(old, c)))
        if e.k == "decl":
            for d, c in zip(e.a["ds"], e.ch):
                v = e.fn.unit.vd[d["d"]]
                if c is None or not containerish(v.t):
                    continue
                facts = setb(facts, vname(v), self.value(c, old))
        return facts

    def value(self, n, facts):
        """lower bound of the size of an expression's value"""
        s = strip(n)
        if s is None:
            return 0
        if s.k == "str":
            return min(CAP, len(s.s))
        if s.k == "chr":
            return 1
        if s.k == "int" or s.t.s in ("char", "const char"):
            return 1
        c = cn(s)
        if c is not None:
            b = bound(facts, c)
            if b:
                return b
        if s.k == "cond" and len(s.ch) == 3:
            return min(self.value(s.ch[1], facts), self.value(s.ch[2], facts))
        if s.k == "call" and s.cq in ("std::move", "std::forward"):
            return self.value(s.ch[0], facts)
        if s.k == "call" and s.cq == "std::to_string":
            return 1
        if s.k in ("ilist", "initlist", "init"):
            return min(CAP, len(s.ch))
        if s.k == "ctor":
            a = [x for x in s.ch if x is not None and x.k != "defarg"]
            if len(a) == 1:
                x = strip(a[0])
                if x is not None and x.t is not None and "initializer_list" in x.t.s:
                    return min(CAP, max([len(y.ch) for y in x.walk() if y.k in ("ilist", "initlist", "init")] + [0]))
                return self.value(a[0], facts)
            if len(a) == 2 and strip(a[0]).v is not None:
                return min(CAP, int(strip(a[0]).v))
        if s.k == "ocall" and s.op == "+" and len(s.ch) == 2:
            return min(CAP, self.value(s.ch[0], facts) + self.value(s.ch[1], facts))
        if s.is_call and s.k in ("call", "mcall") and self.p is not None:
            return ret_bound(self.p, s)
        return 0

    # ---- conditions
    def edge(self, b, i, facts):
        if b.tk == "SwitchStmt":
            o = super().edge(b, i, facts)
            s = self.f.blocks[b.succ[i]]
            if o is not None and s.label is not None and s.label.k == "case" and b.cond is not None and s.label.ch:
                c = size_of(b.cond)
                v = strip(s.label.ch[0])
                if c and v is not None and v.v is not None:
                    o = self.atleast(o, c, int(v.v))
            return o
        return super().edge(b, i, facts)

    def atleast(self, facts, c, k):
        if k > bound(facts, c):
            return setb(facts, c, min(CAP, k))
        return facts

    def learn(self, c, val, facts):
        facts = ValidFacts.learn(self, c, val, facts)
        s = strip(c)
        if s is None or (s.k == "un" and s.op == "!") or (s.k == "bin" and s.op in ("&&", "||")):
            return facts
        if s.k == "mcall" and s.callee is not None and s.callee.name == "empty" and len(s.ch) == 1:
            cx = cn(s.ch[0])
            return self.atleast(facts, cx, 1) if cx and not val else facts
        if s.k == "call" and s.cq == "std::empty":
            cx = cn(s.ch[0])
            return self.atleast(facts, cx, 1) if cx and not val else facts
        sz = size_of(s)
        if sz and val:
            return self.atleast(facts, sz, 1)
        if s.k in ("bin", "ocall") and s.op in ("==", "!=", "<", ">", "<=", ">=") and len(s.ch) == 2:
            op = s.op
            if not val:
                op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            for x, y, o in ((s.ch[0], s.ch[1], op), (s.ch[1], s.ch[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                a = size_of(x)
                off = 0
                sx = strip(x)
                if a is None and sx is not None and sx.k == "bin" and sx.op in ("+", "-") and strip(sx.ch[1]).v is not None:
                    a = size_of(sx.ch[0])
                    off = int(strip(sx.ch[1]).v) * (1 if sx.op == "+" else -1)
                    if a is not None and sx.op == "-" and o in (">", ">=", "!="):
                        a = None        # wraps when the container is empty
                v = strip(y).v if strip(y) is not None else None
                if v is None and a is not None:
                    v = field_const(self.p, y, self.cls)
                if a is not None and v is not None and isinstance(v, int):
                    v = v - off
                    if o == "==" and v > 0:
                        facts = self.atleast(facts, a, v)
                    elif o == ">=":
                        facts = self.atleast(facts, a, v)
                    elif o == ">":
                        facts = self.atleast(facts, a, v + 1)
                    elif o == "!=" and v == 0:
                        facts = self.atleast(facts, a, 1)
                elif a is not None and v is None and o == ">":
                    facts = self.atleast(facts, a, 1)   # larger than something unsigned
                elif a is not None and v is None:
                    b = size_of(y)
                    if b is not None and o in ("==", ">="):
                        facts = self.atleast(facts, a, bound(facts, b))
                # string contents
                if op == "==" and containerish(x.t):
                    cx = cn(x)
                    if cx:
                        facts = self.atleast(facts, cx, self.value(y, facts))
                if op == "!=" and containerish(x.t) and strip(y).k == "str" and strip(y).s == "":
                    cx = cn(x)
                    if cx:
                        facts = self.atleast(facts, cx, 1)
                # found something in it
                if op == "!=" and sx is not None and sx.k == "mcall" and sx.callee is not None and sx.callee.name.startswith("find") \
                        and sx.callee.q.startswith("std::"):
                    cx = cn(sx.ch[0])
                    if cx:
                        facts = self.atleast(facts, cx, 1)
                # begin != end
                if op == "!=":
                    bx, by = range_of(x, "begin"), range_of(y, "end")
                    if bx and bx == by:
                        facts = self.atleast(facts, bx, 1)
                    elif by:
                        facts = self.atleast(facts, by, 1)      # an iterator of it that is not the end
        return facts

    def join(self, cur, o):
        new = {}
        same = True
        for k, v in cur.items():
            w = o.get(k)
            if w == v:
                new[k] = v
            else:
                same = False
                if k.startswith("N:") and w is not None:
                    new[k] = min(v, w)
                    if new[k] == v:
                        same = same if len(new) else same
        return cur if new == cur else new

    def helper(self, s, val, facts, d=0):
        if d < 2:
            facts = ValidFacts.helper(self, s, val, facts, d)
        ts = self.p.targets(s)
        if len(ts) != 1 or ts[0] is s.fn:
            return facts
        t = ts[0]
        cls = None
        o = cn(s.ch[0]) if s.k == "mcall" and s.ch and s.ch[0] is not None else None
        if o == "this":
            cls = self.cls
        got = predicate(self.p, t, val, cls)
        amap = {}
        for v, a in zip(t.params, s.args):
            ca = cn(a) if a is not None else None
            if ca:
                amap[vname(v)] = ca
        if o:
            amap["this"] = o
        for k, b in got.items():
            for a, r in amap.items():
                if k == a or k.startswith(a + "."):
                    facts = self.atleast(facts, r + k[len(a):], b)
                    break
        return facts


_pred = {}


def predicate(p, t, val, cls):
    """what holds about the parameters when a boolean function returned val"""
    key = (t.usr, val, cls)
    if key in _pred:
        return _pred[key]
    _pred[key] = {}
    rs = [n for n in t.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
    if not rs or len(t.nodes) > 600 or strip(rs[0].ch[0]) is None or rs[0].ch[0].t.s not in ("bool", "const bool"):
        return {}
    sf = SizeFacts(t, p, cls=cls)
    res = None
    for r in rs:
        s = strip(r.ch[0])
        at = sf.at.get(r.id)
        if at is None or (s.v is not None and bool(s.v) != val):
            continue
        at = sf.learn(s, val, at) if s.v is None else at
        m = {k[2:]: v for k, v in at.items() if k.startswith("N:")}
        res = m if res is None else {k: min(v, m[k]) for k, v in res.items() if k in m}
    names = [vname(v) for v in t.params] + ["this"]
    _pred[key] = {k: v for k, v in (res or {}).items() if any(k == x or k.startswith(x + ".") for x in names)}
    return _pred[key]


def field_const(p, n, cls):
    """value of a field of this that every constructor of the class sets to a constant (least one)"""
    s = strip(n)
    if s is None or s.k != "member" or s.var is None or not s.ch or strip(s.ch[0]) is None or strip(s.ch[0]).k != "this" or cls is None:
        return None
    return p_field(p, s.var.q, cls)


_fc = {}


def p_field(p, q, cls):
    key = (q, cls)
    if key in _fc:
        return _fc[key]
    _fc[key] = None
    own = q.rsplit("::", 1)[0]
    writers = field_writers_direct(p, q)
    if writers:
        return None

    def inits(f, env):
        r = None
        for fld, base, node, w in f.inits:
            if fld is not None and fld.q == q:
                return ev(node, f, env)
            if node is not None and base is not None:
                x = strip(node)
                if x is not None and x.k == "ctor" and x.callee is not None and x.callee.u in p.funcs:
                    g = p.funcs[x.callee.u]
                    if g.cls == own or own in p.bases(g.cls or ""):
                        r = inits(g, [ev(a, f, env) for a in x.ch])
        return r

    def ev(n, f, env):
        s = strip(n)
        if s is None:
            return None
        if s.k == "ctor" and len(s.ch) == 1:
            return ev(s.ch[0], f, env)
        if isinstance(s.v, int):
            return s.v
        if s.k in ("ilist", "init", "initlist") and len(s.ch) == 1:
            return ev(s.ch[0], f, env)
        if s.k == "ref" and s.var in f.params and env is not None:
            i = f.params.index(s.var)
            return env[i] if i < len(env) else None
        return None
    vs = []
    ctors = [f for f in p.funcs.values() if f.cls == cls and f.q == cls + "::" + cls.rsplit("::", 1)[-1] and f.inits is not None
             and not (len(f.params) == 1 and cls in f.params[0].t.s)]
    for f in ctors:
        vs.append((f, inits(f, None)))
    r = None
    if vs and all(v is not None for _, v in vs):
        r = min(v for _, v in vs)
    elif vs:
        # the value is a parameter of the constructor: look where objects are made
        r = made(p, cls, inits)
    _fc[key] = r
    return r


def made(p, cls, inits):
    rs = []
    us = {f.usr: f for f in p.funcs.values() if f.cls == cls and f.q == cls + "::" + cls.rsplit("::", 1)[-1]}
    for g in p.funcs.values():
        for n in g.nodes:
            if n.k == "ctor" and n.callee is not None and n.callee.u in us and len(n.ch) == len(us[n.callee.u].params):
                f = us[n.callee.u]
                if len(f.params) == 1 and cls in f.params[0].t.s:
                    continue
                env = [strip(a).v if a is not None and strip(a) is not None and isinstance(strip(a).v, int) else None for a in n.ch]
                if any(e is None for e in env) and g.q.startswith("std::"):
                    continue
                rs.append(inits(f, env))
    return min(rs) if rs and all(r is not None for r in rs) else None


def field_writers_direct(p, q):
    if "_fwd" not in p.__dict__:
        from collections import defaultdict
        d = defaultdict(set)
        for u, f in p.funcs.items():
            for n in f.nodes:
                for w in written(n):
                    x = strip(w)
                    if x is not None and x.k == "member" and x.var is not None:
                        d[x.var.q].add(u)
        p.__dict__["_fwd"] = d
    return p.__dict__["_fwd"].get(q, set())


def range_of(n, which, d=0):
    s = strip(n)
    if s is None:
        return None
    if s.k == "mcall" and s.callee is not None and s.callee.name in (which, "c" + which, "r" + which, "cr" + which) and len(s.ch) == 1:
        return cn(s.ch[0])
    if s.k == "call" and s.cq in ("std::" + which, "std::c" + which):
        return cn(s.ch[0])
    if s.k == "ref" and s.var is not None and d < 2:
        ds = defs(s.fn).get(s.var, [])
        if ds and ds[0] is not None and (which == "begin" or len(ds) == 1):
            return range_of(ds[0], which, d + 1)
    if s.k == "ctor" and len(s.ch) == 1:
        return range_of(s.ch[0], which, d + 1)
    return None


_ret = {}


def ret_bound(p, call):
    """lower bound of the size of what a function of the repository returns, on every path"""
    ts = p.targets(call)
    if not ts:
        return 0
    r = CAP
    for t in ts:
        if t.usr not in _ret:
            _ret[t.usr] = 0
            rs = [n for n in t.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
            if rs and containerish(t.decl.r if t.decl is not None else rs[0].ch[0].t):
                sf = SizeFacts(t, p)
                _ret[t.usr] = min(sf.value(n.ch[0], sf.at.get(n.id, {})) for n in rs)
        r = min(r, _ret[t.usr])
    return r


class Sizes:
    def __init__(self, p):
        self.p = p
        self.memo = {}

    def of(self, f, d=0):
        if f.usr in self.memo:
            return self.memo[f.usr]
        self.memo[f.usr] = sf = SizeFacts(f, self.p)
        ent = self.entry(f, d)
        if ent:
            self.memo[f.usr] = sf = SizeFacts(f, self.p, entry=ent)
        return sf

    def entry(self, f, d):
        if d > 3 or f.is_var:
            return None
        if f.decl is not None and "v" in f.decl.fl:
            return None
        cs = self.p.callers().get(f.usr, ())
        if not cs or len(cs) > 40:
            return None
        res = None
        for g, n in cs:
            if n.k == "lambda":
                at = self.of(g, d + 1).at.get(n.id)
                if at is None:
                    return None
                m = {k: v for k, v in at.items() if k.startswith("N:")}
            elif n.is_call and n.callee is not None and n.callee.u == f.usr:
                gf = self.of(g, d + 1)
                at = gf.at.get(n.id)
                if at is None:
                    return None
                m = {}
                o = cn(n.ch[0]) if n.k == "mcall" and n.ch and n.ch[0] is not None else None
                for k, v in at.items():
                    if k.startswith("N:") and o is not None and k[2:].startswith(o + "."):
                        m["N:this" + k[2 + len(o):]] = v
                for pv, a in zip(f.params, n.args):
                    if a is None:
                        continue
                    ca = cn(a)
                    if ca:
                        for k, v in at.items():
                            if k == "N:" + ca or k.startswith("N:" + ca + "."):
                                m["N:" + vname(pv) + k[2 + len(ca):]] = v
                    if containerish(pv.t):
                        b = gf.value(a, at)
                        if b:
                            m["N:" + vname(pv)] = b
            else:
                return None
            res = m if res is None else {k: min(v, m[k]) for k, v in res.items() if k in m}
            if not res:
                return None
        return res


def accesses(f):
    """(node, container node, number of elements needed or None for a variable index, index node)"""
    for n in f.nodes:
        if n.k == "mcall" and n.callee is not None and n.callee.q.startswith("std::") and n.ch and n.ch[0] is not None and len(n.ch) == 1:
            if n.callee.name in ("front", "back", "top", "pop_back", "pop_front", "pop") and containerish(n.ch[0].t):
                yield n, n.ch[0], 1, None
        if n.k == "ocall" and n.op == "[]" and len(n.ch) == 2 and containerish(n.ch[0].t) and "map<" not in n.ch[0].t.s:
            i = strip(n.ch[1])
            if i is not None and isinstance(i.v, int):
                # a string has a terminating zero
                yield n, n.ch[0], int(i.v) + (0 if "basic_string<" in n.callee.q else 1), n.ch[1]
            else:
                yield n, n.ch[0], None, n.ch[1]
        if n.k in ("ocall", "un") and n.op == "*" and len(n.ch) == 1:
            s = strip(n.ch[0])
            if s is not None and s.k == "mcall" and s.callee is not None and s.callee.name in ("begin", "rbegin", "cbegin") and s.callee.q.startswith("std::"):
                yield n, s.ch[0], 1, None
