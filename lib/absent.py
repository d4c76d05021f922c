"""Uses of possibly-absent results: iterators from searches, nullable pointers and optionals from functions that can return
nothing.  A use (dereference) needs a dominating test on every path."""
from prog import strip, strip_all
from flow import MustFacts, canon, vname, norm_cond, branch_cond, evalc, kill, written, lval_names, decl_facts
from prov import defs

SEARCH_M = {"find", "lower_bound", "upper_bound", "find_if"}
SEARCH_F = {"std::find", "std::find_if", "std::find_if_not", "std::lower_bound", "std::upper_bound", "std::max_element",
            "std::min_element", "std::search", "std::adjacent_find", "std::partition_point"}


def is_iter_type(t):
    s = t.s
    return "iterator" in s or s.endswith("*")


def search_source(n):
    """node is a search whose result may be end() -> description"""
    n = strip(n)
    if n is None:
        return None
    if n.k == "mcall" and n.callee is not None and n.callee.name in SEARCH_M and "iterator" in n.t.s + n.callee.r.s:
        return n
    if n.k == "call" and n.cq in SEARCH_F and ("iterator" in n.t.s or n.t.ptr):
        return n
    return None


def end_like(f, n, depth=0):
    n = strip(n)
    if n is None:
        return False
    if n.k == "mcall" and n.callee is not None and n.callee.name in ("end", "cend", "rend", "crend"):
        return True
    if n.k == "call" and n.cq in ("std::end", "std::cend"):
        return True
    if n.k == "ctor" and len([c for c in n.ch if c is not None and c.k != "defarg"]) == 1:
        return end_like(f, n.ch[0], depth + 1)
    if n.k == "ref" and n.var is not None and depth < 3:
        return any(end_like(f, d, depth + 1) for d in defs(n.fn).get(n.var, ()))
    return False


def field_writers(p, fld, memo={}):
    """functions that may (transitively) change a field of this name"""
    if fld not in memo:
        hit = set()
        for u, f in p.funcs.items():
            for n in f.nodes:
                for w in written(n):
                    x = strip(w)
                    if x is not None and x.k == "member" and x.var is not None and x.var.q.endswith("::" + fld):
                        hit.add(u)
        rc = p.callers()
        st = list(hit)
        while st:
            u = st.pop()
            for g, _ in rc.get(u, ()):
                if g.usr not in hit:
                    hit.add(g.usr)
                    st.append(g.usr)
        memo[fld] = hit
    return memo[fld]


READS_STD = {"operator*", "operator->", "value", "get", "begin", "end", "front", "back", "find", "at", "size", "empty", "data", "has_value", "operator bool"}


def only_reads(p, n, memo={}, d=0):
    """the method called here (whatever its constness) modifies nothing"""
    ts = p.targets(n)
    if not ts or d > 3:
        return False
    for t in ts:
        if t.usr not in memo:
            memo[t.usr] = False
            ok = len(t.nodes) < 40
            for x in t.nodes if ok else ():
                if x.k == "assign" or (x.k == "un" and x.op in ("++", "--")) or x.k in ("ctor", "new", "delete", "lambda"):
                    ok = False
                elif x.is_call and x.callee is not None and x.callee.q.startswith("std::") and x.callee.name in READS_STD:
                    continue
                elif x.is_call and (x.callee is None or "c" not in x.callee.fl) and not (x.k == "mcall" and only_reads(p, x, memo, d + 1)):
                    ok = False
            memo[t.usr] = ok
        if not memo[t.usr]:
            return False
    return True


def kind_test(f):
    """the function returns something exactly when a test of its object succeeds:
    return kind == K ? static_cast<T*>(this) : nullptr   ->  (test, value that gives a result)"""
    if "_kt" in f.__dict__:
        return f.__dict__["_kt"]
    r = None
    rs = [n for n in f.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
    nul = lambda x: strip(x) is not None and (strip(x).k == "null" or (strip(x).k == "ctor" and all(strip(y).k == "null" for y in strip(x).ch if y is not None)))
    if len(rs) == 1:
        s = strip(rs[0].ch[0])
        if s is not None and s.k == "cond" and len(s.ch) == 3:
            if nul(s.ch[2]) and not nul(s.ch[1]):
                r = (s.ch[0], True)
            elif nul(s.ch[1]) and not nul(s.ch[2]):
                r = (s.ch[0], False)
    elif len(rs) == 2:
        ifs = [n for n in f.nodes if n.k == "if"]
        if len(ifs) == 1 and [nul(x.ch[0]) for x in rs].count(True) == 1:
            cond = next((x for x in ifs[0].ch[2:3]), None)
            inner = {x.id for c in ifs[0].ch[3:4] if c is not None for x in c.walk()} if cond is not None else set()
            if cond is not None and len([x for x in rs if x.id in inner]) == 1:
                a = next(x for x in rs if x.id in inner)
                r = (cond, not nul(a.ch[0]))
    f.__dict__["_kt"] = r
    return r


def cast_of(f):
    """return dynamic_cast<T*>(this) -> T"""
    rs = [n for n in f.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
    if len(rs) == 1:
        s = strip(rs[0].ch[0])
        if s is not None and s.k == "dyncast" and strip(s.ch[0]) is not None and strip(s.ch[0]).k == "this":
            return s.t.s.replace("const ", "").rstrip(" *")
    return None


def present_by_kind(p, s, facts):
    """the accessor called here has a result, because the facts say so about the object's kind"""
    if s.k != "mcall" or not s.ch or s.ch[0] is None:
        return False
    o = canon(s.ch[0])
    ts = p.targets(s)
    if o is None or not ts:
        return False
    for t in ts:
        kt = kind_test(t)
        ok = False
        if kt is not None:
            sub = {_resort(k.replace(o, "this", 1)) if o in k else k: v for k, v in facts.items()}
            ok = evalc(kt[0], _implied(sub)) is kt[1]
        else:
            T = cast_of(t)
            if T is not None:
                leafs = {x for x in p.derived(t.cls) if not p.derived(x)}
                left = {x for x in leafs if x != T and T not in p.bases(x)}
                # another accessor of the same object is known to have no result
                for k, v in facts.items():
                    if v is False and k.startswith("T:" + o + ".") and k.endswith("()"):
                        for u in p.fns(t.cls + "::" + k[len(o) + 3:-2]):
                            U = cast_of(u)
                            if U:
                                left = {x for x in left if x != U and U not in p.bases(x)}
                ok = not left
        if not ok:
            return False
    return True


def _resort(k):
    if k.startswith("Q:") and "==" in k:
        return "Q:%s==%s" % tuple(sorted(k[2:].split("==", 1)))
    return k


def _implied(facts):
    """x == A implies x != B"""
    out = dict(facts)
    eq = {}
    for k, v in facts.items():
        if v is True and k.startswith("Q:") and "==" in k:
            a, b = k[2:].split("==", 1)
            eq[b if a.startswith("=") else a] = a if a.startswith("=") else b

    class D(dict):
        def __contains__(self, k):
            return self.get(k) is not None

        def __getitem__(self, k):
            return self.get(k)

        def get(self, k, d=None):
            v = dict.get(self, k)
            if v is None and k.startswith("Q:=") :
                pass
            if v is None and k.startswith("Q:") and "==" in k:
                a, b = k[2:].split("==", 1)
                n, c = (b, a) if a.startswith("=") else (a, b)
                if c.startswith("=") and n in eq and eq[n] != c:
                    return False
            return d if v is None else v
    return D(out)


class ValidFacts(MustFacts):
    """adds 'NE:<expr>' facts: the iterator/pointer is known to be dereferenceable"""

    def __init__(self, f, maynull, entry=None, p=None):
        self.maynull = maynull
        self.p = p
        super().__init__(f, entry=entry, gen=self.gen_)

    def through(self, b, facts, rec):
        for e in b.elems:
            if isinstance(e, tuple):
                continue
            if rec is not None:
                rec[e.id] = facts
            old = facts
            facts = old if e.k == "mcall" and self.p is not None and only_reads(self.p, e) else kill(facts, e)
            if len(facts) != len(old) and e.is_call and e.callee is not None:
                # a pointer passed by value stays what it is
                for a, t in zip(e.args, e.callee.p):
                    if a is not None and t is not None and t.ptr and not t.ref and not (strip(a).k == "un" and strip(a).op == "&"):
                        ca = canon(a)
                        for k in ("NE:%s" % ca, "T:%s" % ca):
                            if ca and k in old and k not in facts:
                                facts = dict(facts)
                                facts[k] = old[k]
            if len(facts) != len(old) and e.is_call and self.p is not None:
                # passing this (or calling a method of this) changes a field only if the callee may change it
                back = {}
                names = [x for w in written(e) for x in lval_names(w)]
                for k, v in old.items():
                    if k in facts or not k.startswith(("NE:this.", "T:this.")):
                        continue
                    fld = k.split("this.", 1)[1]
                    if "." in fld or "(" in fld or any(x == "this." + fld for x in names):
                        continue
                    ts = self.p.targets(e)
                    w = field_writers(self.p, fld)
                    if not any(t.usr in w for t in ts):
                        back[k] = v
                if back:
                    facts = dict(facts)
                    facts.update(back)
            facts = decl_facts(e, facts)
            facts = self.gen_(e, facts)
        return facts

    def gen_(self, e, facts):
        tgt = []
        if e.k == "decl":
            for d, c in zip(e.a["ds"], e.ch):
                if c is not None:
                    tgt.append((vname(e.fn.unit.vd[d["d"]]), c))
        elif e.k == "assign" and e.op == "=":
            cn = canon(e.ch[0])
            if cn:
                tgt.append((cn, e.ch[1]))
        elif e.k == "ocall" and e.op == "=" and len(e.ch) == 2:
            cn = canon(e.ch[0])
            if cn:
                tgt.append((cn, e.ch[1]))
        elif e.k == "mcall" and e.callee is not None and e.callee.name in ("emplace", "reset") and len(e.ch) >= 1:
            # optional::emplace / ptr.reset(x)
            cn = canon(e.ch[0])
            if cn and ("optional<" in e.callee.q or (e.callee.name == "reset" and len(e.ch) > 1)):
                facts = dict(facts)
                facts["NE:" + cn] = True
                facts["T:" + cn] = True
            return facts
        for nm, c in tgt:
            if self.maybe(c, facts):
                if "NE:" + nm in facts:
                    facts = dict(facts)
                    del facts["NE:" + nm]
            else:
                facts = dict(facts)
                facts["NE:" + nm] = True
        return facts

    def maybe(self, c, facts):
        """value may be absent"""
        s = strip(c)
        if s is None:
            return False
        if search_source(s) is not None:
            return True
        if s.k == "null":
            return True
        if s.k == "cond" and len(s.ch) == 3:
            return self.maybe(s.ch[1], facts) or self.maybe(s.ch[2], facts)
        if s.is_call and self.maynull(s):
            cn = canon(s)
            if cn is not None and (facts.get("NE:" + cn) or facts.get("T:" + cn)):
                return False
            return not (self.p is not None and present_by_kind(self.p, s, facts))
        cn = canon(s)
        if s.k in ("ref", "member") and cn is not None:
            if facts.get("NE:" + cn) or facts.get("T:" + cn):
                return False
            if s.k == "ref" and s.var is not None and any(self.maybe_static(d) for d in defs(s.fn).get(s.var, ())):
                return True
        return False

    def maybe_static(self, d):
        s = strip(d)
        return s is not None and (search_source(s) is not None or (s.is_call and self.maynull(s)))

    def edge(self, b, i, facts):
        o = super().edge(b, i, facts)
        if o is None:
            return None
        c = branch_cond(b)
        if c is None or len(b.succ) != 2 or b.tk in ("CXXTryStmt", "SwitchStmt"):
            return o
        return self.learn(c, i == 0, o)

    def learn(self, c, val, facts):
        s = strip(c)
        if s is None:
            return facts
        if s.k == "un" and s.op == "!":
            return self.learn(s.ch[0], not val, facts)
        if s.k == "bin" and s.op in ("&&", "||"):
            if (s.op == "&&") == val:
                return self.learn(s.ch[1], val, self.learn(s.ch[0], val, facts))
            a, bb = evalc(s.ch[0], facts), evalc(s.ch[1], facts)
            neutral = s.op == "&&"
            if a is neutral:
                return self.learn(s.ch[1], val, facts)
            if bb is neutral:
                return self.learn(s.ch[0], val, facts)
            return facts
        if s.k == "ref" and s.var is not None and s.var.kind == "local" and s.var.t.s in ("bool", "const bool"):
            # a named test:  const bool found = it != end;
            ds = defs(s.fn).get(s.var, [])
            if len(ds) == 1 and ds[0] is not None:
                facts = self.learn(ds[0], val, facts)
        if s.is_call and self.p is not None and s.k in ("call", "mcall"):
            facts = self.helper(s, val, facts)
        k, pol, n = norm_cond(s)
        v = val if pol else not val
        if k is not None and k.startswith("T:") and v:
            facts = dict(facts)
            facts["NE:" + k[2:]] = True
        if n is not None and n.k in ("bin", "ocall") and n.op in ("==", "!=") and len(n.ch) == 2:
            eq = val == (n.op == "==")
            for x, y in ((n.ch[0], n.ch[1]), (n.ch[1], n.ch[0])):
                if end_like(self.f, y) and not eq:
                    cn = canon(x)
                    if cn:
                        facts = dict(facts)
                        facts["NE:" + cn] = True
                # equal to something known valid, not end
        if n is not None and n.k == "mcall" and n.callee is not None and n.callee.name in ("contains", "count") and v:
            cn = canon(n.ch[0])
            kn = canon(n.ch[1]) if len(n.ch) > 1 else None
            if cn and kn:
                facts = dict(facts)
                facts["NE:%s.find(%s)" % (cn, kn)] = True
        return facts


    def helper(self, s, val, facts, d=0):
        """a predicate of the repository:  bool found(it) { return it != end; }"""
        ts = self.p.targets(s)
        if len(ts) != 1:
            return facts
        t = ts[0]
        rs = [n for n in t.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
        if t is s.fn or not rs:
            return facts
        if len(rs) == 1 and len(t.nodes) <= 60:
            got = ValidFacts.learn(_Mini(t, self.maynull), rs[0].ch[0], val, {})
        else:
            got = self.outcome(t, rs, val)
        amap = {}
        for v, a in zip(t.params, s.args):
            ca = canon(a) if a is not None else None
            if ca:
                amap[vname(v)] = ca
        if s.k == "mcall" and s.ch and s.ch[0] is not None:
            co = canon(s.ch[0])
            if co:
                amap["this"] = co
        for k, b in got.items():
            if not k.startswith(("NE:", "T:")):
                continue
            for a, r in amap.items():
                if a in k:
                    k = k.replace(a, r)
            if "{" in k or "this" in k:
                facts = dict(facts)
                facts[k] = b
        return facts


    def outcome(self, t, rs, val):
        """what holds of parameters and members whenever the predicate t returns val"""
        key = (t.usr, val)
        memo = self.p.__dict__.setdefault("_outcomes", {})
        if key in memo:
            return memo[key]
        memo[key] = {}
        if t.decl.r is None or t.decl.r.s != "bool" or len(t.nodes) > 600:
            return {}
        vf, got = ValidFacts(t, self.maynull), None     # no callees are followed
        for r in rs:
            e = strip(r.ch[0])
            if r.id not in vf.at or (e.v is not None and bool(e.v) != val):
                continue
            fs = dict(vf.at[r.id])
            if e.v is None:
                fs = ValidFacts.learn(_Mini(t, self.maynull), r.ch[0], val, fs)
            got = fs if got is None else {k: v for k, v in got.items() if fs.get(k) == v}
        free = [vname(v) for v in t.params if not defs(t).get(v)]
        memo[key] = {k: v for k, v in (got or {}).items() if k.startswith(("NE:", "T:")) and (any(x in k for x in free) or "this" in k)}
        return memo[key]


class _Mini:
    """enough of ValidFacts to learn from an expression of another function"""

    def __init__(self, f, maynull):
        self.f, self.maynull, self.p = f, maynull, None

    def learn(self, c, val, facts):
        return ValidFacts.learn(self, c, val, facts)


class Valid:
    """ValidFacts of all functions, with facts about members at entry taken from the call sites"""

    def __init__(self, p, maynull):
        self.p, self.maynull = p, maynull
        self.memo = {}

    def of(self, f, d=0):
        if f.usr in self.memo:
            return self.memo[f.usr]
        self.memo[f.usr] = vf = ValidFacts(f, self.maynull, p=self.p)     # recursion falls back to no entry facts
        ent = self.entry(f, d)
        if ent:
            self.memo[f.usr] = vf = ValidFacts(f, self.maynull, entry=ent, p=self.p)
        return vf

    def entry(self, f, d):
        if d > 3 or f.is_var:
            return None
        if f.decl is not None and "v" in f.decl.fl:
            return None
        cs = self.p.callers().get(f.usr, ())
        if not cs or len(cs) > 12:
            return None
        res = None
        for g, n in cs:
            at = None
            if n.k == "lambda":
                # a lambda used where it is written: facts about members at that point
                gf = self.of(g, d + 1)
                at = gf.at.get(n.id)
                if at is None:
                    return None
                m = {k: v for k, v in at.items() if k.startswith(("NE:this", "T:this", "NE:{", "T:{"))}
            elif n.is_call and n.callee is not None and n.callee.u == f.usr:
                gf = self.of(g, d + 1)
                at = gf.at.get(n.id)
                if at is None:
                    return None
                m = {}
                o = canon(n.ch[0]) if n.k == "mcall" and n.ch and n.ch[0] is not None else None
                for k, v in at.items():
                    if not k.startswith(("NE:", "T:")):
                        continue
                    t, e = k.split(":", 1)
                    if o is not None and (e == o or e.startswith(o + ".")):
                        m[t + ":this" + e[len(o):]] = v
                for pv, a in zip(f.params, n.args):
                    ca = canon(a) if a is not None else None
                    if ca:
                        for t in ("NE:", "T:"):
                            if t + ca in at:
                                m[t + vname(pv)] = at[t + ca]
            else:
                return None
            res = m if res is None else {k: v for k, v in res.items() if m.get(k) == v}
            if not res:
                return None
        return res


def derefs(f):
    """(use node, operand node) of every dereference in f"""
    for n in f.nodes:
        if n.k == "ocall" and n.op in ("*", "->") and len(n.ch) == 1 and n.callee is not None:
            yield n, n.ch[0]
        elif n.k == "un" and n.op == "*":
            yield n, n.ch[0]
        elif n.k == "member" and n.ch and n.ch[0] is not None and n.ch[0].t.ptr:
            yield n, n.ch[0]
        elif n.k == "mcall" and n.ch and n.ch[0] is not None and n.ch[0].t.ptr and n.callee is not None and "s" not in n.callee.fl:
            yield n, n.ch[0]
        elif n.k == "mcall" and n.callee is not None and n.callee.name in ("value", "key") and n.ch and n.ch[0] is not None \
                and "iter_impl" in n.ch[0].t.s:
            yield n, n.ch[0]


def may_null_functions(p):
    """usr -> reason, for functions with pointer/optional result that return nothing on some path"""
    res = {}

    def ptrish(t):
        return t.ptr or t.s.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::optional<", "const std::shared_ptr<"))
    fs = [f for f in p.src_funcs() if not f.is_var and ptrish(f.decl.r)]
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f.usr in res:
                continue
            for n in f.nodes:
                if n.k != "return" or not n.ch or n.ch[0] is None:
                    continue
                if _nullish(p, f, n.ch[0], res):
                    res[f.usr] = n.loc()
                    ch = True
                    break
    return res


def _nullish(p, f, e, res, d=0):
    s = strip(e)
    if s is None or d > 6:
        return False
    if s.k == "null":
        return True
    if s.k == "ref" and s.var is not None and s.var.q == "std::nullopt":
        return True
    if s.k == "ctor":
        a = [c for c in s.ch if c is not None and c.k != "defarg"]
        if not a:
            return s.t.s.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::optional<"))
        if len(a) == 1:
            if s.t.s.startswith("std::optional<") and not (strip(a[0]).k in ("null",) or strip(a[0]).t.s.startswith("std::optional") or
                                                           (strip(a[0]).k == "ref" and strip(a[0]).var is not None and strip(a[0]).var.q == "std::nullopt")):
                return False
            return _nullish(p, f, a[0], res, d + 1)
        return False
    if s.k == "ilist" and not s.ch:
        return True
    if s.k == "cond" and len(s.ch) == 3:
        return _nullish(p, f, s.ch[1], res, d + 1) or _nullish(p, f, s.ch[2], res, d + 1)
    if s.is_call:
        ts = p.targets(s)
        return any(t.usr in res for t in ts) and s.k != "ctor"
    if s.k == "dyncast" and s.t.ptr:
        return True
    return False


def bindings(f):
    """structured binding -> (initialiser, index)"""
    d = f.__dict__.get("_binds")
    if d is None:
        d = {}
        for n in f.nodes:
            if n.k == "decl":
                for x, c in zip(n.a["ds"], n.ch):
                    for i, b in enumerate(x.get("b", ())):
                        d[f.unit.vd[b]] = (c, i)
        f.__dict__["_binds"] = d
    return d


def null_components(p):
    """usr -> indexes of the pair/tuple it returns that may be null"""
    res = {}
    fs = [f for f in p.src_funcs() if not f.is_var and f.decl is not None and f.decl.r.s.startswith(("std::pair<", "std::tuple<"))]

    def comp(e, d=0):
        s = strip(e)
        if s is None or d > 4:
            return set()
        if s.k in ("ctor", "ilist") or (s.k == "call" and s.cq in ("std::make_pair", "std::make_tuple")):
            a = [x for x in s.ch if x is not None and x.k != "defarg"]
            if len(a) == 1:
                return comp(a[0], d + 1)
            return {i for i, x in enumerate(a) if strip(x) is not None and (strip(x).k == "null" or (
                strip(x).k == "ctor" and [strip(y).k for y in strip(x).ch if y is not None] == ["null"]))}
        if s.k == "cond" and len(s.ch) == 3:
            return comp(s.ch[1], d + 1) | comp(s.ch[2], d + 1)
        if s.k == "ref" and s.var is not None:
            r = set()
            for x in defs(s.fn).get(s.var, ()):
                r |= comp(x, d + 1)
            return r
        if s.is_call:
            r = set()
            for t in p.targets(s):
                r |= res.get(t.usr, set())
            return r
        return set()
    ch = True
    while ch:
        ch = False
        for f in fs:
            cur = res.get(f.usr, set())
            new = set(cur)
            for n in f.nodes:
                if n.k == "return" and n.ch and n.ch[0] is not None:
                    new |= comp(n.ch[0])
            if new != cur:
                res[f.usr] = new
                ch = True
    return res
