"""What a tagged value can hold at a point: a forward analysis of the possible tags, refined by tests.

The client names the tag of a value: tagof(n) -> (value key, tag getter kind) for an expression that reads the tag, and tests
of single alternatives through alt(n) -> (value key, alternative)."""
from collections import deque, Counter
from prog import strip
from flow import canon, branch_cond, written, vname, norm_cond, kill
import absent
from prov import defs, recomputed

class Tags:
    """universe: frozenset of tags
    is_tag(n, k)  -> n reads the tag of the value k
    alt(n, k)     -> the tag that a true result of n means for k, or None"""

    def __init__(self, p, universe, is_tag, alt):
        self.p, self.U, self.is_tag, self.alt = p, universe, is_tag, alt
        self.wr = {}

    def const(self, n):
        n = strip(n)
        return n.v if n is not None and n.v is not None else None

    def tagexpr(self, n, k, d=0):
        n = strip(n)
        if n is None or d > 4:
            return False
        if self.is_tag(n, k):
            return True
        if n.k == "ref" and n.var is not None and n.var.kind in ("local", "capture"):
            ds = defs(n.fn).get(n.var, ())
            return len(ds) == 1 and ds[0] is not None and self.tagexpr(ds[0], k, d + 1)
        return False

    def refine(self, c, truth, k, S, d=0):
        """possible tags of k when condition c has this truth"""
        c = strip(c)
        if c is None or d > 10:
            return S
        if c.k == "un" and c.op == "!" or (c.k == "ocall" and c.op == "!"):
            return self.refine(c.ch[0], not truth, k, S, d + 1)
        if c.k == "bin" and c.op in ("&&", "||"):
            a, b = c.ch
            if (c.op == "&&") == truth:
                return self.refine(b, truth, k, self.refine(a, truth, k, S, d + 1), d + 1)
            return self.refine(a, truth, k, S, d + 1) | self.refine(b, truth, k, self.refine(a, not truth, k, S, d + 1), d + 1)
        if c.k == "bool" and c.v is not None:
            return S if bool(int(c.v)) == truth else frozenset()
        if c.k == "cond" and len(c.ch) == 3:
            return self.refine(c.ch[1], truth, k, self.refine(c.ch[0], True, k, S, d + 1), d + 1) | \
                self.refine(c.ch[2], truth, k, self.refine(c.ch[0], False, k, S, d + 1), d + 1)
        if c.k in ("bin", "ocall") and c.op in ("==", "!=") and len(c.ch) == 2:
            for x, y in ((c.ch[0], c.ch[1]), (c.ch[1], c.ch[0])):
                v = self.const(y)
                if v is not None and self.tagexpr(x, k):
                    eq = (c.op == "==") == truth
                    v = v if isinstance(v, str) else int(v)
                    return S & {v} if eq else S - {v}
        if c.k == "bin" and c.op in ("<", "<=", ">", ">=") and len(c.ch) == 2:
            for x, y, op in ((c.ch[0], c.ch[1], c.op), (c.ch[1], c.ch[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[c.op])):
                v = self.const(y)
                if isinstance(v, int) and self.tagexpr(x, k):
                    if not truth:
                        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                    return frozenset(t for t in S if {"<": t < v, ">": t > v, "<=": t <= v, ">=": t >= v}[op])
        t = self.alt(c, k)
        if t is not None:
            return S & {t} if truth else S - {t}
        if c.k == "ref" and c.var is not None and c.var.kind in ("local", "capture"):
            ds = defs(c.fn).get(c.var, ())
            if ds and all(x is not None for x in ds) and not recomputed(c.fn, c.var):
                out = frozenset()
                for x in ds:
                    out |= self.refine(x, truth, k, S, d + 1)
                return out
        if c.is_call and c.callee is not None:
            ts = self.p.targets(c)
            if ts:
                out = frozenset()
                for t in ts:
                    out |= self.wrapper(t, truth, k, c, S)
                return S & out
        return S

    def wrapper(self, t, truth, k, call, S):
        kk = None
        for i, a in enumerate(call.args):
            ca = canon(a)
            if ca is not None and i < len(t.params) and (k == ca or k.startswith(ca + ".")):
                kk = vname(t.params[i]) + k[len(ca):]
        if kk is None and call.k == "mcall" and call.ch and call.ch[0] is not None:
            o = canon(call.ch[0])
            if o is not None and (k == o or k.startswith(o + ".")):
                kk = "this" + k[len(o):]
        if kk is None and t.parent is not None:
            kk = k
        if kk is None:
            return self.U
        m = (t.usr, truth, kk)
        if m not in self.wr:
            self.wr[m] = self.U
            rs = [n for n in t.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
            if rs and len(t.nodes) < 200:
                at = self.flow(t, kk)
                out = frozenset()
                for n in rs:
                    out |= self.refine(n.ch[0], truth, kk, at.get(n.id, self.U))
                self.wr[m] = out
        return self.wr[m]

    def changes(self, e, k):
        """node e can change which alternative the value k holds"""
        if e.k == "decl":
            return any(vname(e.fn.unit.vd[d["d"]]) in k for d in e.a["ds"])
        if e.k == "call" and e.cq in ("std::get", "std::get_if", "std::holds_alternative", "std::forward"):
            return False
        for w in written(e):
            c = canon(w)
            if c is None:
                continue
            if k == c or k.startswith(c) and k[len(c)] in ".([" or k.startswith("*" + c) or ("(" + c + ")") in k or ("(" + c + ".") in k:
                if e.k == "mcall" and absent.only_reads(self.p, e):
                    continue
                return True
        return False

    def flow(self, f, k):
        """node id -> possible tags of k before it.  Conditions tested more than once are remembered, so that contradicting
        branches are not combined."""
        bs = f.blocks
        at = {}
        if not bs:
            return at
        cnt, conds = Counter(), {}
        for b in bs.values():
            c = branch_cond(b) if len(b.succ) == 2 and b.tk not in ("CXXTryStmt", "SwitchStmt") else None
            conds[b.id] = c
            if c is not None and norm_cond(c)[0]:
                cnt[norm_cond(c)[0]] += 1
        seen = {}
        work = deque([(f.entry, frozenset(), self.U)] + [(b.id, frozenset(), self.U) for b in bs.values() if b.id != f.entry and not b.pred])
        while work:
            bid, env, S = work.popleft()
            old = seen.get((bid, env))
            if old is not None and S <= old:
                continue
            if old is not None:
                S |= old
            if len(seen) > 5000:
                env = frozenset()
            seen[bid, env] = S
            b = bs[bid]
            d = dict(env)
            for e in b.elems:
                if isinstance(e, tuple):
                    continue
                at[e.id] = at.get(e.id, frozenset()) | S
                if S != self.U and self.changes(e, k):
                    S = self.U
                if d:
                    d = kill(d, e)
            if b.tk == "SwitchStmt":
                isT = b.cond is not None and self.tagexpr(b.cond, k)
                vals = {}
                for t in b.succ:
                    if t >= 0:
                        l = bs[t].label
                        v = strip(l.ch[0]) if l is not None and l.k == "case" and l.ch else None
                        vals[t] = int(v.v) if v is not None and v.v is not None else None
                used = frozenset(v for v in vals.values() if v is not None)
                for t in b.succ:
                    if t >= 0:
                        work.append((t, frozenset(d.items()), S if not isT else S & {vals[t]} if vals[t] is not None else S - used))
                continue
            c = conds[bid]
            for i, s in enumerate(b.succ):
                if s < 0:
                    continue
                o, de = S, d
                if c is not None:
                    ck, pol, _ = norm_cond(c)
                    t = (i == 0) == pol
                    if ck and cnt[ck] > 1:
                        if d.get(ck, t) != t:
                            continue
                        de = dict(d)
                        de[ck] = t
                    o = self.refine(c, i == 0, k, S)
                    if not o and S:
                        continue
                work.append((s, frozenset(de.items()), o))
        return at

    # ---- results per tag
    def leaves(self, n, k, t, env, d=0):
        """expressions a returned expression stands for when the tag of k is t: conditionals decided, locals replaced"""
        n = strip(n)
        if n is None or d > 8:
            return [n]
        if n.k == "cond" and len(n.ch) == 3:
            out = []
            for truth, br in ((True, n.ch[1]), (False, n.ch[2])):
                if self.refine(n.ch[0], truth, k, frozenset([t])):
                    out += self.leaves(br, k, t, env, d + 1)
            return out
        if n.k == "ref" and n.var is not None and n.var.kind == "local" and n.var in env:
            out = []
            for x in env[n.var]:
                if x is None:
                    return [n]
                out += self.leaves(x, k, t, env, d + 1)
            return out
        return [n]

    def results(self, f, k, t):
        """(leaf expressions returned, nodes executed) by f when the tag of k is t on entry"""
        bs = f.blocks
        if not bs:
            return [], set()
        one = frozenset([t])
        envs = {f.entry: {}}
        work = deque([f.entry])
        out, ex = {}, set()
        while work:
            b = bs[work.popleft()]
            env = {v: set(x) for v, x in envs[b.id].items()}
            for e in b.elems:
                if isinstance(e, tuple):
                    continue
                ex.add(e)
                if e.k == "decl":
                    for ds, ini in zip(e.a["ds"], e.ch):
                        env[f.unit.vd[ds["d"]]] = {ini}
                elif e.k in ("assign", "bin", "ocall") and e.op == "=" and len(e.ch) == 2:
                    l = strip(e.ch[0])
                    if l is not None and l.k == "ref" and l.var is not None and l.var.kind == "local":
                        env[l.var] = {e.ch[1]}
                elif e.k == "return" and e.ch and e.ch[0] is not None:
                    for x in self.leaves(e.ch[0], k, t, env):
                        if x is not None:
                            out[x.id] = x
            nxt = []
            if b.tk == "SwitchStmt":
                isT = b.cond is not None and self.tagexpr(b.cond, k)
                vals = {}
                for s in b.succ:
                    if s >= 0:
                        l = bs[s].label
                        v = strip(l.ch[0]) if l is not None and l.k == "case" and l.ch else None
                        vals[s] = int(v.v) if v is not None and v.v is not None else None
                used = {v for v in vals.values() if v is not None}
                for s in b.succ:
                    if s >= 0 and (not isT or (vals[s] == t if vals[s] is not None else t not in used)):
                        nxt.append(s)
            else:
                c = branch_cond(b) if len(b.succ) == 2 and b.tk != "CXXTryStmt" else None
                for i, s in enumerate(b.succ):
                    if s >= 0 and (c is None or self.refine(c, i == 0, k, one)):
                        nxt.append(s)
            for s in nxt:
                if s not in envs:
                    envs[s] = env
                    work.append(s)
                else:
                    o = envs[s]
                    new = {v: set(o.get(v, ())) | set(env.get(v, ())) for v in set(o) | set(env)}
                    if new != o:
                        envs[s] = new
                        work.append(s)
        return list(out.values()), ex

    def truth(self, f, k, t):
        """the boolean results f can have when the tag of k is t"""
        out = set()
        for n in self.results(f, k, t)[0]:
            for b in (True, False):
                if self.refine(n, b, k, frozenset([t])):
                    out.add(b)
        return out
