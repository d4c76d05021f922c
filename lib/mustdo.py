"""Events that have happened on every path: a forward must-analysis with summaries of called functions."""
from collections import deque
from prog import strip
from flow import branch_cond


def literals(c, val):
    """atomic conditions known to hold on an edge: (node, truth)."""
    c = strip(c)
    if c is None:
        return
    if c.k == "un" and c.op == "!":
        yield from literals(c.ch[0], not val)
    elif c.k == "bin" and c.op == "&&" and val:
        for x in c.ch:
            yield from literals(x, True)
    elif c.k == "bin" and c.op == "||" and not val:
        for x in c.ch:
            yield from literals(x, False)
    else:
        yield c, val


class MustDo:
    """event(n) -> iterable of event names that node performs; cond(n, truth) -> iterable of events a branch establishes;
    descend(n) -> functions whose summary counts."""

    def __init__(self, p, event, cond=lambda n, t: (), descend=None, depth=4, subst=None):
        self.p, self.event, self.cond, self.depth, self.subst = p, event, cond, depth, subst
        self.descend = descend or (lambda n: p.targets(n))
        self.memo = {}

    def summary(self, f, d=0):
        """events performed on every normal path through f."""
        if f.usr in self.memo:
            return self.memo[f.usr]
        if d > self.depth:
            return frozenset()
        self.memo[f.usr] = frozenset()
        r = self.flow(f, frozenset(), d)[1]
        self.memo[f.usr] = r if r is not None else frozenset()
        return self.memo[f.usr]

    def node(self, n, d):
        out = set(self.event(n) or ())
        if n.is_call:
            ts = self.descend(n)
            if ts:
                common = None
                for t in ts:
                    s = self.summary(t, d + 1)
                    if self.subst is not None:
                        new = set()
                        for y in s:
                            x = self.subst(y, n, t)
                            if isinstance(x, (set, frozenset)):
                                new |= x
                            elif x is not None:
                                new.add(x)
                        s = frozenset(new)
                    common = s if common is None else common & s
                out |= common
        return out

    def flow(self, f, entry=frozenset(), d=0):
        """(node id -> events done before it, events done at normal exit or None when there is no normal exit)."""
        bs = f.blocks
        at = {}
        if not bs:
            return at, frozenset()
        inb = {f.entry: frozenset(entry)}
        work = deque([f.entry])
        for b in bs.values():
            if b.id != f.entry and not b.pred:
                inb[b.id] = frozenset(entry)
                work.append(b.id)
        while work:
            bid = work.popleft()
            b = bs[bid]
            cur = self.through(b, inb[bid], d, None)
            for i, s in enumerate(b.succ):
                if s < 0:
                    continue
                o = cur
                c = branch_cond(b) if len(b.succ) == 2 and b.tk not in ("CXXTryStmt", "SwitchStmt") else None
                if c is not None:
                    extra = set()
                    for x, t in literals(c, i == 0):
                        extra |= set(self.cond(x, t) or ())
                    o = o | extra
                if s not in inb:
                    inb[s] = o
                    work.append(s)
                else:
                    new = inb[s] & o
                    if new != inb[s]:
                        inb[s] = new
                        work.append(s)
        for bid, v in inb.items():
            self.through(bs[bid], v, d, at)
        return at, inb.get(f.exit)

    def through(self, b, cur, d, rec):
        for e in b.elems:
            if isinstance(e, tuple):
                continue
            if rec is not None:
                rec[e.id] = cur
            ev = self.node(e, d)
            if ev:
                cur = cur | ev
        return cur
