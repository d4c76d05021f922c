"""Static lockset analysis.

 mutexes are identified by the field (or variable) that holds them; guards are RAII locals.
 LockFlow(f, entry): must-held locks before every CFG element;
 Locks(p): fixpoint of entry locksets over the call graph (intersection over call sites; thread entry points and functions
 without callers start with nothing).
"""
from collections import defaultdict, deque
from prog import strip, strip_all

GUARDS = ("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<")
MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex")


def is_mutex_type(t):
    s = t.s.replace("const ", "").replace("mutable ", "").rstrip("& ")
    return s in MUTEX


def is_guard_type(t):
    return t.s.replace("const ", "").startswith(GUARDS)


def mutex_of(n):
    """identity of the mutex an expression names"""
    n = strip_all(n)
    if n is None:
        return None
    if n.k in ("member", "ref") and n.var is not None and is_mutex_type(n.var.t):
        return n.var.q if n.var.kind != "local" and n.var.kind != "param" else "local:" + n.var.q
    if n.k == "mcall" and n.callee is not None and n.callee.name == "mutex" and n.obj is not None:
        g = strip(n.obj)
        if g is not None and g.k == "ref":
            return guards(n.fn).get(g.var)
    return None


def guards(f):
    """guard variable -> (mutex, initially locked) of a function"""
    g = f.__dict__.get("_guards")
    if g is None:
        g = {}
        for n in f.nodes:
            if n.k != "decl":
                continue
            for d, c in zip(n.a["ds"], n.ch):
                v = f.unit.vd[d["d"]]
                if not is_guard_type(v.t) or c is None:
                    continue
                ms, locked = [], True
                s = strip(c)
                args = s.ch if s is not None and s.k in ("ctor", "ilist", "call") else [s]
                for a in args:
                    if a is None:
                        continue
                    m = mutex_of(a)
                    if m:
                        ms.append(m)
                    x = strip_all(a)
                    if x is not None and x.k == "ref" and x.var is not None and x.var.q in ("std::defer_lock", "std::try_to_lock"):
                        locked = False
                if ms:
                    g[v] = (tuple(ms), locked)
        f.__dict__["_guards"] = g
    return g


class LockFlow:
    """held: frozenset of (mutex, holder) with holder = guard var or None; must-analysis."""

    def __init__(self, f, entry=frozenset(), may=False):
        self.f = f
        self.may = may
        self.at = {}      # node id -> frozenset of mutexes
        self.exit = None  # held at normal exits (list of (frozenset raw, node or None))
        self.relock = []  # (node, mutex) locked while held
        self.unlock_unheld = []
        bs = f.blocks
        self.inb = {}
        if not bs:
            return
        G = guards(f)
        self.G = G
        start = frozenset((m, None) for m in entry)
        self.inb[f.entry] = start
        work = deque([f.entry])
        cnt = 0
        while work and cnt < 20000:
            cnt += 1
            bid = work.popleft()
            out = self.through(bs[bid], self.inb[bid], False)
            for s in bs[bid].succ:
                if s < 0:
                    continue
                if s not in self.inb:
                    self.inb[s] = out
                    work.append(s)
                else:
                    new = self.inb[s] | out if may else self.inb[s] & out
                    if new != self.inb[s]:
                        self.inb[s] = new
                        work.append(s)
        # handlers and other unreached blocks: nothing known
        for b in bs.values():
            if b.id not in self.inb:
                self.inb[b.id] = None
        for b in bs.values():
            if self.inb[b.id] is not None:
                self.through(b, self.inb[b.id], True)
        self.exit = self.inb.get(f.exit)
        for b in bs.values():
            if self.inb[b.id] is None:
                # entered by an exception: locks held by guards declared outside of the try are not tracked here
                t = b.label
                base = start
                if t is not None and t.k == "catch":
                    tr = t.parent
                    while tr is not None and tr.k != "try":
                        tr = tr.parent
                    if tr is not None:
                        first = None
                        for x in tr.walk():
                            if x.id in self.at_raw:
                                first = self.at_raw[x.id] if first is None else first & self.at_raw[x.id]
                        if first is not None:
                            base = first
                self.inb[b.id] = base
                work = deque([b.id])
                while work:
                    bid = work.popleft()
                    out = self.through(bs[bid], self.inb[bid], True)
                    for s in bs[bid].succ:
                        if s >= 0 and self.inb[s] is None:
                            self.inb[s] = out
                            work.append(s)

    at_raw = None

    def through(self, b, st, rec):
        if self.at_raw is None:
            self.at_raw = {}
        for e in b.elems:
            if isinstance(e, tuple):
                if e[0] == "dtor" and e[1] in self.G:
                    st = frozenset(x for x in st if x[1] is not e[1])
                continue
            if rec:
                self.at_raw[e.id] = st
                self.at[e.id] = frozenset(m for m, _ in st)
            if e.k == "decl":
                for d in e.a["ds"]:
                    v = e.fn.unit.vd[d["d"]]
                    if v in self.G:
                        ms, locked = self.G[v]
                        st = frozenset(x for x in st if x[1] is not v)
                        if locked:
                            for m in ms:
                                if rec and any(x[0] == m for x in st):
                                    self.relock.append((e, m))
                            st = st | {(m, v) for m in ms}
            elif e.k == "mcall" and e.callee is not None and e.callee.name in ("lock", "unlock", "try_lock", "release"):
                o = strip_all(e.obj)
                if o is None or o.k not in ("ref", "member") or o.var is None:
                    continue
                if o.var in self.G:
                    ms = self.G[o.var][0]
                    if e.callee.name == "lock":
                        for m in ms:
                            if rec and any(x[0] == m for x in st):
                                self.relock.append((e, m))
                        st = st | {(m, o.var) for m in ms}
                    elif e.callee.name in ("unlock",):
                        if rec and not any(x[1] is o.var for x in st):
                            self.unlock_unheld.append((e, ms[0]))
                        st = frozenset(x for x in st if x[1] is not o.var)
                elif is_mutex_type(o.var.t):
                    m = mutex_of(o)
                    if e.callee.name == "lock":
                        if rec and any(x[0] == m for x in st):
                            self.relock.append((e, m))
                        st = st | {(m, None)}
                    elif e.callee.name == "unlock":
                        if rec and not any(x[0] == m for x in st):
                            self.unlock_unheld.append((e, m))
                        st = frozenset(x for x in st if x[0] != m)
        return st

    def held(self, n):
        """locks held when n (or the element containing it) is evaluated"""
        x = n
        while x is not None:
            if x.id in self.at:
                return self.at[x.id]
            x = x.parent
        return frozenset()


def untempl(q):
    """qualified name without template arguments"""
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def direct_acquires(f):
    """(mutex, node) locked by f itself"""
    out = []
    g = guards(f)
    for n in f.nodes:
        if n.k == "decl":
            for d in n.a["ds"]:
                v = f.unit.vd[d["d"]]
                if v in g and g[v][1]:
                    out += [(m, n) for m in g[v][0]]
        elif n.k == "mcall" and n.callee is not None and n.callee.name == "lock" and n.obj is not None:
            m = mutex_of(n.obj)
            if m:
                out.append((m, n))
            else:
                o = strip_all(n.obj)
                if o is not None and o.k == "ref" and o.var in g:
                    out += [(x, n) for x in g[o.var][0]]
    return out


def narrowed(p, n, t):
    """may the call n (passing a child object to a base-class helper) really reach t's class?"""
    return True


class Locks:
    def __init__(self, p):
        self.p = p
        # functions that matter: those in classes/functions with locks, plus what they call
        self.flow = {}
        cg = p.callgraph()
        rc = p.callers()
        interesting = set()
        for u, f in p.funcs.items():
            if not f.file.startswith("/"):
                continue
            for n in f.nodes:
                if (n.k == "decl" and guards(f)) or (n.k == "mcall" and n.callee is not None and n.callee.name in ("lock", "unlock") and
                                                     n.obj is not None and mutex_of(n.obj)):
                    interesting.add(u)
                    break
        # everything reachable from them
        seen = p.reach([p.funcs[u] for u in interesting])
        self.entry = {}
        self.lockers = interesting
        thread_roots = set()
        for f in p.funcs.values():
            for n in f.nodes:
                if n.k == "ctor" and n.callee is not None and n.callee.q.startswith("std::thread::thread"):
                    for x in n.walk():
                        if x.k in ("lambda", "fref") and x.callee is not None:
                            thread_roots.add(x.callee.u)
        self.thread_roots = thread_roots
        # optimistic start: TOP (None) = all locks; descend to the greatest fixpoint
        self.over_entry = {}
        self._contracts(p)
        TOP = None
        ent = {u: TOP for u in seen}
        for u in list(ent):
            callers = rc.get(u, ())
            if u in thread_roots or not callers:
                ent[u] = frozenset()
            elif any(g.usr not in ent and g.usr not in interesting for g, _ in callers):
                ent[u] = frozenset()
            if u in self.over_entry:
                ent[u] = self.over_entry[u]
        for u in interesting:
            ent.setdefault(u, frozenset())
        changed = True
        it = 0
        while changed and it < 30:
            it += 1
            changed = False
            for u in list(ent):
                if ent[u] is TOP:
                    continue
                if u not in self.flow or self.flow[u][0] != ent[u]:
                    self.flow[u] = (ent[u], LockFlow(p.funcs[u], ent[u]))
            new = {}
            for u in ent:
                if u in self.over_entry:
                    continue
                if ent[u] == frozenset():
                    continue
                acc = TOP
                for g, n in rc.get(u, ()):
                    if g.usr == u:
                        continue
                    if g.usr not in ent or ent[g.usr] is TOP:
                        if g.usr not in ent:
                            acc = frozenset()
                        continue
                    h = self.flow[g.usr][1].held(n)
                    if n.k in ("lambda", "fref") and u in thread_roots:
                        h = frozenset()
                    acc = h if acc is TOP else acc & h
                if acc is not TOP and acc != ent[u]:
                    new[u] = acc
            for u, v in new.items():
                ent[u] = v
                changed = True
        for u in ent:
            if ent[u] is None:
                ent[u] = frozenset()
                self.flow[u] = (frozenset(), LockFlow(p.funcs[u], frozenset()))
        self.entry = ent

    def _contracts(self, p):
        """a statement analyzer that registers itself with an analysis and then runs it under a lock is called back with
        that lock held (the callback is reached only through that analysis)."""
        for f in p.src_funcs():
            reg = [n for n in f.nodes if n.is_call and n.callee is not None and n.callee.name == "register_stmt_analyzer" and
                   n.args and strip_all(n.args[0]) is not None and strip_all(n.args[0]).k == "this"]
            if not reg:
                continue
            lf = LockFlow(f, frozenset())
            run = [n for n in f.nodes if n.is_call and n.callee is not None and n.callee.name in ("analyze", "start_processing")
                   and n.obj is not None]
            if not run:
                continue
            held = None
            for n in run:
                h = lf.held(n)
                held = h if held is None else held & h
            this = strip_all(reg[0].args[0])
            cls = this.t.rec
            r = p.recs.get(cls)
            if r is None:
                continue
            for fd, ov, acc, imp in r.methods:
                if fd.name == "analyze" and ov and fd.u in p.funcs:
                    self.over_entry[fd.u] = frozenset(held or ())

    def of(self, f):
        if f.usr not in self.flow:
            self.flow[f.usr] = (frozenset(), LockFlow(f, frozenset()))
        return self.flow[f.usr][1]

    def held(self, f, n):
        return self.of(f).held(n)
