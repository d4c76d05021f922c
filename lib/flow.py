"""Flow engines over the extracted CFGs.

 canon / evalc / assume   conditions as canonical facts
 MustFacts                forward must-dataflow: facts that hold on every path to a point
 Sim                      path-sensitive interprocedural exploration with client state (typestate / event counting)
"""
import sys
from collections import defaultdict, deque
from prog import strip

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ canonical expressions
PASS_ACC = {"get", "value", "c_str", "data", "operator*", "operator->", "load"}


def vname(v):
    return "{%s#%x}" % (v.q.rsplit("::", 1)[-1], id(v) & 0xffffff) if v.kind in ("local", "param", "capture") or "::" not in v.q \
        else "{%s}" % v.q


_cache = {}


def canon(n, d=0):
    """Canonical text of a side-effect-free-looking expression, or None."""
    if n is None:
        return None
    key = (id(n.fn), n.id)
    if key in _cache:
        return _cache[key][0]
    r = _canon(n, d)
    _cache[key] = (r, n)
    return r


def _canon(n, d):
    n = strip(n)
    if n is None or d > 12:
        return None
    k = n.k
    if k in ("ref",):
        if n.v is not None and n.var is not None and n.var.kind == "enum":
            return "=%s" % n.v
        return vname(n.var) if n.var is not None else None
    if k == "this":
        return "this"
    if k == "member":
        b = n.ch[0] if n.ch else None
        if b is None:
            return vname(n.var) if n.var is not None else None
        c = canon(b, d + 1)
        if c is None or n.var is None:
            return None
        return c + "." + n.var.q.rsplit("::", 1)[-1]
    if k in ("int", "chr", "bool"):
        return "=%s" % n.v
    if k == "null":
        return "null"
    if k == "str":
        return "s%r" % n.s
    if n.v is not None:
        return "=%s" % n.v
    if k == "un":
        c = canon(n.ch[0], d + 1)
        if c is None or n.op in ("++", "--"):
            return None
        if n.op == "*":
            if c.startswith("&"):
                return c[1:]
            return "*" + c
        return "%s(%s)" % (n.op, c) if n.op != "&" else "&" + c
    if k == "bin":
        a, b = canon(n.ch[0], d + 1), canon(n.ch[1], d + 1)
        return None if a is None or b is None else "(%s %s %s)" % (a, n.op, b)
    if k == "index":
        a, b = canon(n.ch[0], d + 1), canon(n.ch[1], d + 1)
        return None if a is None or b is None else "%s[%s]" % (a, b)
    if k == "ocall":
        cs = [canon(c, d + 1) for c in n.ch]
        if None in cs:
            return None
        if n.op in ("*", "->") and len(cs) == 1:
            return "*" + cs[0]
        if n.op == "[]":
            return "%s[%s]" % (cs[0], cs[1])
        if n.op in ("==", "!=", "<", ">", "<=", ">=", "!", "+", "-"):
            return "(%s %s)" % ((" %s " % n.op).join(cs), "") if len(cs) == 2 else "%s(%s)" % (n.op, cs[0])
        return None
    if k == "mcall":
        cs = [canon(c, d + 1) for c in n.ch]
        if None in cs or n.callee is None:
            return None
        nm = n.callee.name
        if nm in ("get",) and len(cs) == 1:
            return cs[0]
        return "%s.%s(%s)" % (cs[0], nm, ",".join(cs[1:]))
    if k == "call":
        cs = [canon(c, d + 1) for c in n.ch]
        if None in cs or n.callee is None:
            return None
        return "%s(%s)" % (n.cq, ",".join(cs))
    if k == "ctor":
        args = [c for c in n.ch if c is not None and c.k != "defarg"]
        if len(args) == 1:
            return canon(args[0], d + 1)
        return None
    if k in ("dyncast",):
        c = canon(n.ch[0], d + 1)
        return None if c is None else "dyn<%s>(%s)" % (n.t.s, c)
    return None


def norm_cond(n):
    """Condition node -> (key, polarity, node) with key None if opaque."""
    pol = True
    while True:
        n = strip(n)
        if n is None:
            return None, pol, None
        if n.k == "un" and n.op == "!":
            pol = not pol
            n = n.ch[0]
            continue
        if n.k == "ocall" and n.op == "!" and len(n.ch) == 1:
            pol = not pol
            n = n.ch[0]
            continue
        if n.k == "mcall" and n.callee is not None and n.callee.name in ("operator bool", "has_value") and len(n.ch) == 1:
            n = n.ch[0]
            continue
        if n.k == "decl" and n.ch:
            # condition variable:  if (auto x = ...)
            d = n.a["ds"][-1]
            v = n.fn.unit.vd[d["d"]]
            return "T:" + vname(v), pol, n
        if n.k in ("bin", "ocall") and n.op in ("==", "!=") and len(n.ch) == 2:
            if n.op == "!=":
                pol = not pol
            a, b = strip(n.ch[0]), strip(n.ch[1])
            for x, y in ((a, b), (b, a)):
                if y.k == "null" or (y.k == "ref" and y.var is not None and y.var.q in ("std::nullopt",)):
                    c = canon(x)
                    return ("T:" + c if c else None), not pol, n
                if y.k == "bool":
                    c = canon(x)
                    return ("T:" + c if c else None), (pol if y.v else not pol), n
                if y.v == 0 and x.k == "mcall" and x.callee is not None and x.callee.name in ("size", "length"):
                    c = canon(x.ch[0])
                    return ("E:" + c if c else None), pol, n
                if y.v == 0 and y.k == "int":
                    c = canon(x)
                    return ("T:" + c if c else None), not pol, n
                if y.k == "str" and y.s == "" and "string" in x.t.s:
                    c = canon(x)
                    return ("E:" + c if c else None), pol, n
            ca, cb = canon(a), canon(b)
            if ca is None or cb is None:
                return None, pol, n
            if cb < ca:
                ca, cb = cb, ca
            return "Q:%s==%s" % (ca, cb), pol, n
        if n.k in ("bin", "ocall") and n.op in ("<", ">", "<=", ">=") and len(n.ch) == 2:
            a, b, op = n.ch[0], n.ch[1], n.op
            sa, sb = strip(a), strip(b)
            if op == ">" and sb.v == 0 and sa.k == "mcall" and sa.callee is not None and sa.callee.name in ("size", "length"):
                c = canon(sa.ch[0])
                return ("E:" + c if c else None), not pol, n
            if op in (">", "<="):
                a, b = b, a
                op = {">": "<", "<=": ">="}[op]
            if op == ">=":
                pol = not pol
            ca, cb = canon(a), canon(b)
            if ca is None or cb is None:
                return None, pol, n
            return "L:%s<%s" % (ca, cb), pol, n
        if n.k == "mcall" and n.callee is not None and n.callee.name == "empty" and len(n.ch) == 1:
            c = canon(n.ch[0])
            return ("E:" + c if c else None), pol, n
        if n.k == "call" and n.cq == "std::empty":
            c = canon(n.ch[0])
            return ("E:" + c if c else None), pol, n
        if n.k == "mcall" and n.callee is not None and n.callee.name in ("size", "length") and len(n.ch) == 1:
            c = canon(n.ch[0])
            return ("E:" + c if c else None), not pol, n
        c = canon(n)
        return ("T:" + c if c else None), pol, n


def callkey(n):
    return "C:%x.%d" % (id(n.fn) & 0xffffff, n.id)


def evalc(n, facts, oracle=None):
    """True/False/None under facts (dict key->bool); oracle(atom) may decide further atoms."""
    n = strip(n)
    if n is None:
        return None
    if n.k == "bool" or (n.k == "int" and n.v is not None):
        return bool(n.v)
    if n.v is not None and n.k != "chr":
        return bool(n.v)
    if n.k == "null":
        return False
    if n.k == "un" and n.op == "!":
        r = evalc(n.ch[0], facts, oracle)
        return None if r is None else not r
    if n.k == "bin" and n.op in ("&&", "||"):
        a, b = evalc(n.ch[0], facts, oracle), evalc(n.ch[1], facts, oracle)
        if n.op == "&&":
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None
    if n.k == "cond" and len(n.ch) == 3:
        c = evalc(n.ch[0], facts, oracle)
        if c is True:
            return evalc(n.ch[1], facts, oracle)
        if c is False:
            return evalc(n.ch[2], facts, oracle)
        a, b = evalc(n.ch[1], facts, oracle), evalc(n.ch[2], facts, oracle)
        return a if a == b else None
    if n.is_call:
        ck = callkey(n)
        if ck in facts:
            return facts[ck]
    k, pol, _ = norm_cond(n)
    if k is not None and k in facts:
        return facts[k] if pol else not facts[k]
    if oracle is not None:
        return oracle(n)
    return None


def assume(n, val, facts, want=None):
    """facts (dict) extended with what n == val implies."""
    n = strip(n)
    if n is None:
        return facts
    if n.k == "un" and n.op == "!":
        return assume(n.ch[0], not val, facts, want)
    if n.k == "bin" and n.op in ("&&", "||"):
        if (n.op == "&&") == val:
            return assume(n.ch[1], val, assume(n.ch[0], val, facts, want), want)
        a, b = evalc(n.ch[0], facts), evalc(n.ch[1], facts)
        neutral = n.op == "&&"
        if a is neutral:
            return assume(n.ch[1], val, facts, want)
        if b is neutral:
            return assume(n.ch[0], val, facts, want)
        return facts
    k, pol, _ = norm_cond(n)
    if k is None or (want is not None and k not in want):
        return facts
    facts = dict(facts)
    facts[k] = val if pol else not val
    return facts


def branch_cond(b):
    """The expression whose value selects between the two successors of the block."""
    c = b.cond
    if c is None:
        return None
    while True:
        s = strip(c)
        if s is not None and s.k == "bin" and s.op in ("&&", "||"):
            # reached only through the evaluation of its right operand, unless this block is itself that operator's left part
            if b.tk == "BinaryOperator" and b.term is not None and b.term is s:
                c = s.ch[0]
            else:
                # merged value (operand of a larger expression): elements contain the operator itself
                if any((not isinstance(e, tuple)) and e is s for e in b.elems):
                    return c
                c = s.ch[1]
        else:
            return c


# ------------------------------------------------------------------ modifications
NONCONST_OK = {"begin", "end", "cbegin", "cend", "find", "at", "front", "back", "data", "c_str", "get", "size", "empty",
               "operator[]", "operator*", "operator->", "rbegin", "rend", "value", "lower_bound", "upper_bound", "count",
               "lock", "notify_one", "notify_all"}


def written(n):
    """Canonical lvalues this node may modify (list); '*this' stands for all members of this."""
    out = []
    if n.k == "assign" or (n.k == "bin" and n.op in ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")):
        out.append(n.ch[0])
    elif n.k == "un" and n.op in ("++", "--"):
        out.append(n.ch[0])
    elif n.k in ("mcall", "ocall"):
        d = n.callee
        if d is not None:
            o = n.obj
            if o is not None and "c" not in d.fl and "s" not in d.fl and d.name not in NONCONST_OK:
                out.append(o)
        for a, p in zip(n.args, d.p if d is not None else []):
            if a is not None and p is not None and not p.const and (p.ref or p.ptr) and "R" not in p.fl and (p.ref or "k" not in p.fl):
                out.append(a)
        if n.k == "ocall" and n.op in ("<<=",):
            out.append(n.ch[0])
    elif n.k in ("call", "ctor"):
        d = n.callee
        for a, p in zip(n.ch, d.p if d is not None else []):
            if a is not None and p is not None and not p.const and (p.ref or p.ptr) and (p.ref or "k" not in p.fl):
                if n.cq in ("std::move", "std::forward"):
                    continue
                out.append(a)
    return out


def lval_names(x):
    """canonical prefixes for an lvalue expression (also what a pointer argument points to)."""
    x = strip(x)
    if x is None:
        return []
    if x.k == "un" and x.op == "&":
        x = strip(x.ch[0])
    c = canon(x)
    return [c] if c else []


def kill(facts, n):
    """drop facts whose key mentions something n may modify."""
    ws = written(n)
    if n.k == "decl":
        for d in n.a["ds"]:
            nm = vname(n.fn.unit.vd[d["d"]])
            facts = {k: v for k, v in facts.items() if nm not in k} if any(nm in k for k in facts) else facts
        return facts
    for w in ws:
        for c in lval_names(w):
            if c == "this":
                facts = {k: v for k, v in facts.items() if "this" not in k}
            else:
                if c.startswith("*"):
                    c2 = c
                else:
                    c2 = c
                if any(c2 in k for k in facts):
                    facts = {k: v for k, v in facts.items() if c2 not in k}
    return facts


def decl_facts(n, facts, want=None):
    """facts from a declaration/assignment with known boolean value."""
    if n.k == "decl":
        for d, c in zip(n.a["ds"], n.ch):
            if c is None:
                continue
            v = n.fn.unit.vd[d["d"]]
            r = evalc(c, facts)
            if r is not None:
                k = "T:" + vname(v)
                if want is None or k in want:
                    facts = dict(facts)
                    facts[k] = r
    elif n.k == "assign" and n.op == "=":
        c = canon(n.ch[0])
        if c is not None:
            r = evalc(n.ch[1], facts)
            if r is not None:
                k = "T:" + c
                if want is None or k in want:
                    facts = dict(facts)
                    facts[k] = r
    elif n.k == "ocall" and n.op == "=" and len(n.ch) == 2 and strip(n.ch[1]) is not None and strip(n.ch[1]).k == "null":
        c = canon(n.ch[0])
        if c is not None:
            facts = dict(facts)
            facts["T:" + c] = False
    return facts


# ------------------------------------------------------------------ must facts
class MustFacts:
    """For each CFG element: facts (key->bool) that hold whenever it is reached (intersection over paths)."""

    def __init__(self, f, entry=None, gen=None):
        self.f = f
        self.gen = gen
        self.inb = {}
        bs = f.blocks
        self.at = {}
        if not bs:
            return
        self._try_in(f)
        work = deque([f.entry])
        self.inb[f.entry] = dict(entry or {})
        for b in bs.values():
            # catch handlers and other predecessor-less blocks start with nothing known
            if b.id != f.entry and not b.pred and b.tk == "CXXTryStmt":
                self.inb[b.id] = {}
                work.append(b.id)
        n = 0
        while work:
            n += 1
            if n > 20000:
                break
            bid = work.popleft()
            b = bs[bid]
            out = self.through(b, self.inb[bid], None)
            for i, s in enumerate(b.succ):
                if s < 0:
                    continue
                o = self.edge(b, i, out)
                if o is None:
                    continue
                if s not in self.inb:
                    self.inb[s] = o
                    work.append(s)
                else:
                    cur = self.inb[s]
                    new = self.join(cur, o)
                    if new is not cur:
                        self.inb[s] = new
                        if s not in work:
                            work.append(s)
        for bid, fs in self.inb.items():
            self.through(bs[bid], fs, self.at)

    def _try_in(self, f):
        pass

    def join(self, cur, o):
        """cur itself when nothing changes"""
        new = {k: v for k, v in cur.items() if o.get(k) == v}
        return cur if len(new) == len(cur) else new

    def through(self, b, facts, rec):
        for e in b.elems:
            if isinstance(e, tuple):
                continue
            if rec is not None:
                rec[e.id] = facts
            facts = kill(facts, e)
            facts = decl_facts(e, facts)
            if self.gen is not None:
                facts = self.gen(e, facts)
        return facts

    def edge(self, b, i, facts):
        if b.tk == "SwitchStmt":
            s = self.f.blocks[b.succ[i]]
            if s.label is not None and s.label.k == "case" and b.cond is not None and s.label.ch:
                c = canon(b.cond)
                v = strip(s.label.ch[0])
                if c and v is not None and v.v is not None:
                    facts = dict(facts)
                    facts["Q:%s==%s" % tuple(sorted((c, "=%s" % v.v)))] = True
            return facts
        c = branch_cond(b)
        if c is None or len(b.succ) != 2 or b.tk in ("CXXTryStmt",):
            return facts
        val = i == 0
        r = evalc(c, facts)
        if r is not None and r != val:
            return None  # infeasible
        return assume(c, val, facts)


# ------------------------------------------------------------------ path simulation
class Sim:
    """Interprocedural path exploration.  Subclass: event(n, st, env) -> None (not an event) or iterable of new states;
    descend(f, n, st) -> bool."""
    MAXCFG = 6000
    DEPTH = 14

    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.stack = []
        self.explored = 0
        self.fns = set()

    def event(self, n, st, env):
        return None

    def dtor(self, v, st, env, f):
        return st

    def descend(self, f, n, st):
        return False

    def absval(self, n, env):
        return None

    def decide(self, c, env):
        """value of an atomic condition the client knows (assumed environment), or None"""
        return None

    def want(self, f):
        w = f.__dict__.get("_want")
        if w is None:
            cnt = defaultdict(int)
            for b in f.blocks.values():
                c = branch_cond(b)
                if c is None or len(b.succ) != 2:
                    continue
                for x in self._atoms(c):
                    k, _, _ = norm_cond(x)
                    if k:
                        cnt[k] += 1
            for n in f.nodes:
                if n.k == "decl":
                    for d, c in zip(n.a["ds"], n.ch):
                        k = "T:" + vname(f.unit.vd[d["d"]])
                        if k in cnt and c is not None:
                            s = strip(c)
                            if s is not None and (s.v is not None or s.is_call or s.k in ("null", "bool")):
                                cnt[k] += 1
                elif n.k == "assign":
                    c = canon(n.ch[0])
                    if c and "T:" + c in cnt:
                        cnt["T:" + c] += 1
                elif n.k == "return" and n.ch and n.ch[0] is not None:
                    for x in self._atoms(n.ch[0]):
                        k, _, _ = norm_cond(x)
                        if k:
                            cnt[k] += 1
            w = {k for k, c in cnt.items() if c >= 2}
            f.__dict__["_want"] = w
        return w

    def _atoms(self, n):
        n = strip(n)
        if n is None:
            return []
        if n.k == "bin" and n.op in ("&&", "||"):
            return self._atoms(n.ch[0]) + self._atoms(n.ch[1])
        if n.k == "un" and n.op == "!":
            return self._atoms(n.ch[0])
        return [n]

    def run(self, f, st, env=None):
        """-> (outs: dict (st, ret) -> trace, excs: dict st -> trace)"""
        env = env or {}
        key = (f.usr, st, frozenset(env.items()))
        if key in self.memo:
            return self.memo[key]
        if f.usr in self.stack or len(self.stack) > self.DEPTH:
            return {(st, None): ()}, {}
        if not f.blocks:
            return {(st, None): ()}, {}
        self.stack.append(f.usr)
        self.fns.add(f.usr)
        try:
            r = self._run(f, st, env)
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r

    def _run(self, f, st0, env):
        want = self.want(f)
        bs = f.blocks
        outs, excs = {}, {}
        # try regions: handler entry blocks by try node
        handlers = {}
        for b in bs.values():
            if b.tk == "CXXTryStmt" and b.term is not None:
                handlers[b.term.id] = [s for s in b.succ if s >= 0 and bs[s].label is not None and bs[s].label.k == "catch"]
        start = (f.entry, st0, frozenset(), None)
        seen = {start: None}
        work = deque([start])

        def trace(cfg):
            ls = []
            while cfg is not None:
                b = bs[cfg[0]]
                c = branch_cond(b)
                if c is not None and len(b.succ) == 2 and c.line:
                    ls.append(c.line)
                cfg = seen[cfg]
            return tuple(reversed(ls))

        def push(cfg, frm):
            if cfg not in seen and len(seen) < self.MAXCFG:
                seen[cfg] = frm
                work.append(cfg)

        def raise_at(n, st, cfg):
            """an exception leaves n: enter the handlers of the enclosing try, or leave the function."""
            for u in n.up():
                if u.k == "try" and u.id in handlers and u.ch and u.ch[0] is not None and any(x is n for x in u.ch[0].walk()):
                    for h in handlers[u.id]:
                        push((h, st, frozenset(), None), cfg)
                    if any(c is not None and c.k == "catch" and c.a.get("d") is None and not c.t.s for c in u.ch[1:]):
                        return
            excs.setdefault(st, trace(cfg) + (n.line,))

        while work:
            cfg = work.popleft()
            bid, st, fs, ret = cfg
            b = bs[bid]
            self.explored += 1
            cur = [(st, dict(fs), ret)]
            dead = False
            for e in b.elems:
                nxt = []
                if isinstance(e, tuple):
                    if e[0] == "dtor":
                        cur = [(self.dtor(e[1], s, env, f), fa, r) for s, fa, r in cur]
                    continue
                for s, fa, r in cur:
                    ev = self.event(e, s, env)
                    if ev is not None:
                        for s2 in ev:
                            if isinstance(s2, tuple) and len(s2) == 2 and s2[0] == "RAISE":
                                raise_at(e, s2[1], cfg)
                                continue
                            nxt.append((s2, decl_facts(e, kill(fa, e), want), r))
                        continue
                    if e.k == "throw":
                        raise_at(e, s, cfg)
                        continue
                    if e.k == "return":
                        rv = evalc(e.ch[0], fa) if e.ch and e.ch[0] is not None else None
                        nxt.append((s, fa, rv))
                        continue
                    if e.is_call:
                        res = self._call(f, e, s, env, fa, lambda st_: raise_at(e, st_, cfg))
                        if res is not None:
                            for s2, rv in res:
                                fb = kill(fa, e)
                                if rv is not None:
                                    fb = dict(fb)
                                    fb[callkey(e)] = rv
                                nxt.append((s2, fb, r))
                            continue
                    nxt.append((s, decl_facts(e, kill(fa, e), want), r))
                # dedupe
                u = {}
                for s, fa, r in nxt:
                    u[(s, frozenset(fa.items()), r)] = (s, fa, r)
                cur = list(u.values())
                if not cur:
                    dead = True
                    break
            if dead or b.nr:
                continue
            for s, fa, r in cur:
                if bid == f.exit:
                    outs.setdefault((s, r), trace(cfg))
                    continue
                c = branch_cond(b)
                orc = lambda x: self.decide(x, env)
                for i, nb in enumerate(b.succ):
                    if nb < 0:
                        continue
                    fb = fa
                    if b.tk == "SwitchStmt":
                        lab = bs[nb].label
                        if lab is not None and lab.k == "case" and b.cond is not None and lab.ch:
                            cc = canon(b.cond)
                            v = strip(lab.ch[0])
                            if cc and v is not None and v.v is not None:
                                kk = "Q:%s==%s" % tuple(sorted((cc, "=%s" % v.v)))
                                if kk in fa and fa[kk] is False:
                                    continue
                    elif c is not None and len(b.succ) == 2 and b.tk != "CXXTryStmt":
                        val = i == 0
                        ev = evalc(c, fa, orc)
                        if ev is not None and ev != val:
                            continue
                        fb = assume(c, val, fa, want)
                    # keep only relevant facts
                    fb = {k: v for k, v in fb.items() if k in want or k.startswith("C:")}
                    push((nb, s, frozenset(fb.items()), r), cfg)
        return outs, excs

    def _call(self, f, n, st, env, facts, on_exc):
        ts = [t for t in self.p.targets(n) if self.descend(t, n, st)]
        res = []
        did = False
        allt = self.p.targets(n)
        for t in ts:
            did = True
            e2 = {}
            ps = t.params
            args = n.args
            for pv, a in zip(ps, args):
                if a is None:
                    continue
                v = self.absval(a, env)
                if v is not None:
                    e2[pv] = v
            # captured variables keep their binding
            if t.parent is not None:
                for k, v in env.items():
                    e2.setdefault(k, v)
            outs, excs = self.run(t, st, e2)
            for (s2, rv) in outs:
                res.append((s2, rv))
            for s2 in excs:
                on_exc(s2)
        if did:
            if len(ts) < len(allt):
                res.append((st, None))
            return list(dict.fromkeys(res))
        # lambdas handed to library calls: they may be called, or not
        lam = []
        if n.callee is not None and not allt:
            for a in n.args:
                s = strip(a) if a is not None else None
                if s is not None and s.k == "lambda" and s.callee is not None and s.callee.u in self.p.funcs:
                    t = self.p.funcs[s.callee.u]
                    if self.descend(t, n, st):
                        lam.append(t)
        if lam:
            once = n.cq in ("std::invoke", "std::visit", "std::apply", "std::call_once")
            res = [] if once else [(st, None)]
            for t in lam:
                outs, excs = self.run(t, st, dict(env))
                res += [(s2, None) for (s2, _) in outs]
                for s2 in excs:
                    on_exc(s2)
            return list(dict.fromkeys(res))
        return None


def reaching(prog, is_target):
    """usrs of functions from which a call accepted by is_target(callnode) or function is reachable."""
    cg = prog.callgraph()
    hit = set()
    for u, f in prog.funcs.items():
        if any(is_target(n) for n in f.nodes):
            hit.add(u)
    rc = prog.callers()
    st = list(hit)
    while st:
        u = st.pop()
        for g, _ in rc.get(u, ()):
            if g.usr not in hit:
                hit.add(g.usr)
                st.append(g.usr)
    return hit
