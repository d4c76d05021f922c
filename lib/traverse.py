"""Traversal completeness: does a method visit every child its object owns, on every path on which the child is there?"""
import re
from prog import strip
import prov
from mustdo import MustDo

SMART = re.compile(r"^(const )?std::(unique_ptr|shared_ptr|vector|optional|variant|map|unordered_map|pair|list|deque|array|tuple|basic_string)<")


def mentions(s, names):
    """class names of `names` that occur in the type text"""
    return {x for x in re.findall(r"[\w:]+", s) if x in names}


def owned(p, cls, names, depth=0, through=()):
    """fields through which an object of cls owns objects of the classes `names`: list of (field, leaf field)."""
    out = []
    r = p.recs.get(cls)
    if r is None:
        return out
    for f in r.fields:
        s = f.t.s
        if f.t.ref or (f.t.ptr and not s.replace("const ", "").startswith("std::")) or s.rstrip().endswith("*"):
            continue
        if re.search(r"\*[ ,>]|\*$", s) and not mentions(re.sub(r"[\w:]+ \*", "", s), names):
            if not nested(p, s, cls, names, through):
                continue
        if mentions(s, names):
            out.append((f, f))
            for x in nested(p, s, cls, names, through) if depth < 4 else ():
                if x != cls:
                    for _, l in owned(p, x, names, depth + 1, through):
                        out.append((f, l))
            continue
        if depth < 4:
            for x in nested(p, s, cls, names, through):
                for _, l in owned(p, x, names, depth + 1, through):
                    out.append((f, l))
    for b in r.bases:
        if b[1] and b[1] not in names | {cls}:
            out += owned(p, b[1], names, depth, through)
        elif b[1]:
            out += owned(p, b[1], names, depth, through)
    seen, res = set(), []
    for a, l in out:
        if (a.q, l.q) not in seen:
            seen.add((a.q, l.q))
            res.append((a, l))
    return res


def nested(p, s, cls, names, through):
    out = []
    for x in re.findall(r"[\w:]+", s):
        if x in p.recs and x not in names and (x.startswith(cls + "::") or x in through):
            out.append(x)
            out += [d for d in p.derived(x) if d not in names]
    return out


def loop_cond(n):
    """is this the condition of a loop?"""
    c = n
    while c.parent is not None and c.parent.k in ("un", "icast", "cast") or (c.parent is not None and c.parent.k == "bin" and c.parent.op in ("&&", "||")):
        c = c.parent
    pr = c.parent
    return pr is not None and pr.k in ("rfor", "for", "while", "do")


def loop_of(n):
    for a in n.up():
        if a.k in ("rfor", "for", "while", "do"):
            return a
    return None


def untempl(q):
    """qualified name without template arguments"""
    while True:
        r = re.sub(r"<[^<>]*>", "", q)
        if r == q:
            return r
        q = r


def methods(p, k, m):
    """definitions of method m for objects of class k (nearest in the hierarchy; all instantiations)."""
    by = p.__dict__.get("_bycls")
    if by is None:
        by = p._bycls = {}
        for f in p.funcs.values():
            if f.cls:
                by.setdefault((untempl(f.cls), f.name), []).append(f)
    st, seen = [k], set()
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        r = by.get((untempl(x), m))
        if r:
            return r
        rr = p.recs.get(x)
        if rr:
            st += [b[1] for b in rr.bases if b[1]]
    return []


class Traverse:
    def __init__(self, p, visit, depth=4, shortcut=False):
        """visit(n) -> expressions whose objects node n visits.  shortcut: a condition that a visited child made true
        ends the search."""
        self.p = p
        self.visit = visit
        self.shortcut = shortcut
        self._in = {}
        self.md = MustDo(p, self.event, self.cond, self.descend, depth, self.subst)

    def fields(self, e):
        ts = prov.tags(self.p, e, {})
        return {"f:" + untempl(t[2:]) for t in ts if t.startswith("f:")} | {t for t in ts if t.startswith("p:")} | \
               {"this" for x in e.walk() if x.k == "this"}

    def inside(self, f):
        """fields visited anywhere in f (flow-insensitively), helpers excluded"""
        if f.usr not in self._in:
            s = set()
            for n in f.nodes:
                for e in self.visit(n) or ():
                    s |= self.fields(e)
            self._in[f.usr] = s
        return self._in[f.usr]

    def event(self, n):
        out = set()
        for e in self.visit(n) or ():
            if self.plain(n):
                out |= self.fields(e)
        if n.k == "call" and n.cq.startswith("std::") and len(n.ch) >= 2:
            # algorithm with a lambda that visits its element
            for a in n.ch:
                lam = a
                while lam is not None and lam.k in ("icast", "cast", "ctor") and len(lam.ch) == 1:
                    lam = lam.ch[0]
                if lam is not None and lam.k == "lambda" and lam.callee is not None and lam.callee.u in self.p.funcs:
                    g = self.p.funcs[lam.callee.u]
                    done = self.md.summary(g)
                    if any("p:" + v.q in done for v in g.params):
                        for b in n.ch:
                            if b is not None and b is not a:
                                out |= self.fields(b)
        return out

    def plain(self, n):
        """inside a loop, a visit counts for the container only when nothing but the element itself decides it."""
        lp = loop_of(n)
        if lp is None:
            return True
        mine = set()
        for e in self.visit(n) or ():
            mine |= self.fields(e)
        lv = set()
        for e in self.visit(n) or ():
            lv |= {x.var for x in e.walk() if x.k == "ref" and x.var is not None and x.var.kind == "local"}
        for a in n.up():
            if a is lp:
                return True
            if a.k in ("if", "cond", "switch") and a.ch:
                c = next((x for x in a.ch if x is not None and x.k not in ("decl",)), None)
                if c is None:
                    return False
                vs = {x.var for x in c.walk() if x.k == "ref" and x.var is not None and x.var.kind in ("local", "param")}
                if not (vs & lv) and not (self.fields(c) & mine):
                    return False
        return True

    def cond(self, c, truth):
        c = strip(c)
        fs = {x for x in self.fields(c) if x != "this"}
        if not fs:
            return ()
        if self.shortcut and truth:
            look = [c] + [d for x in c.walk() if x.k == "ref" and x.var is not None and x.var.kind == "local" for d in prov.defs(c.fn).get(x.var, ())]
            if any(self.visit(x) or (x.is_call and self.via(x)) for y in look for x in y.walk()):
                return self.all_inside(c.fn)
        if loop_cond(c) and not truth:
            lp = loop_of(c)
            body = set()
            for x in lp.walk():
                for e in self.visit(x) or ():
                    if self.plain(x):
                        body |= self.fields(e)
                if x.is_call:
                    body |= self.via(x)
            return fs & body
        if c.k in ("member", "ref") and not truth:
            return fs
        if c.k == "mcall" and c.callee is not None:
            nm = c.callee.name
            if nm in ("empty",) and truth:
                return fs
            if nm.startswith("operator bool") or nm in ("get", "has_value", "access_exprs") or nm.startswith("access_"):
                return fs if not truth else ()
        if c.k == "call" and c.cq.startswith("std::holds_alternative"):
            # the alternative that holds owns nothing that could be visited
            alt = c.callee.u.split("holds_alternative<#", 1)[-1].split("#p2", 1)[0]
            return fs if not truth or not ("@S@unique_ptr" in alt or "@S@shared_ptr" in alt or "@S@vector" in alt or "hlasm_plugin" in alt) else ()
        if c.k in ("bin", "ocall") and c.op in ("==", "!=") and any(strip(x) is not None and strip(x).k == "null" for x in c.ch):
            return fs if truth == (c.op == "==") else ()
        return ()

    def via(self, n):
        """fields a called helper visits on every path"""
        out = set()
        if not self.visit(n):
            for t in self.descend(n):
                for s in self.md.summary(t):
                    r = self.subst(s, n, t)
                    if r:
                        out |= r if isinstance(r, (set, frozenset)) else {r}
        return out

    def descend(self, n):
        if self.visit(n):
            return []
        ts = [t for t in self.p.targets(n)]
        return ts if len(ts) <= 3 else []

    def subst(self, ev, n, t):
        if not ev.startswith("p:"):
            return ev
        for v, a in zip(t.params, n.args):
            if "p:" + v.q == ev and a is not None:
                return {x for x in self.fields(a) if x != "this"}
        return None

    def done(self, f):
        """fields visited on every normal path of f"""
        return self.md.summary(f)

    def missed(self, f, own):
        """owned children that some path through f does not visit although they may be there."""
        d, ins, out = self.done(f), None, []
        for a, l in own:
            lq, aq = "f:" + untempl(l.q), "f:" + untempl(a.q)
            if lq in d:
                continue
            if aq in d and a is not l and re.search(r"_ptr<|variant<|optional<", a.t.s):
                # the path without it is the one on which its owner is absent
                if ins is None:
                    ins = self.all_inside(f)
                if lq in ins:
                    continue
            out.append((a, l))
        return out

    def all_inside(self, f, d=0, seen=None):
        seen = seen if seen is not None else set()
        if f.usr in seen or d > 3:
            return set()
        seen.add(f.usr)
        s = set(self.inside(f))
        for n in f.nodes:
            if n.is_call and not self.visit(n):
                for t in self.descend(n):
                    for y in self.all_inside(t, d + 1, seen) | self.md.summary(t):
                        r = self.subst(y, n, t)
                        if r:
                            s |= r if isinstance(r, (set, frozenset)) else {r}
        return s
