"""Is there a path from a node to the end of its function that avoids something?"""
from flow import branch_cond
from mustdo import literals


def avoids(f, start, hit, edge=lambda cond, truth: False, stop=lambda n: False):
    """True when some path from just after `start` (or from the entry when start is None) reaches the normal exit without a
    node for which hit(n); paths on which edge(condition literal, truth) holds, or that throw or reach stop(n), are not counted."""
    bs = f.blocks
    if not bs:
        return False

    def run(b, i):
        for e in b.elems[i:]:
            if isinstance(e, tuple):
                continue
            if e.k == "throw" or stop(e):
                return False
            if hit(e):
                return False
        return True
    seen, st = set(), []
    if start is None:
        st.append((f.entry, 0))
    else:
        for b in bs.values():
            for i, e in enumerate(b.elems):
                if not isinstance(e, tuple) and e is start:
                    st.append((b.id, i + 1))
        if not st:
            return False
    while st:
        bid, i = st.pop()
        if (bid, i) in seen:
            continue
        seen.add((bid, i))
        b = bs[bid]
        if not run(b, i):
            continue
        if b.id == f.exit:
            return True
        if b.nr:
            continue
        c = branch_cond(b) if len(b.succ) == 2 and b.tk not in ("CXXTryStmt", "SwitchStmt") else None
        for k, s in enumerate(b.succ):
            if s < 0:
                continue
            if c is not None and any(edge(x, t) for x, t in literals(c, k == 0)):
                continue
            st.append((s, 0))
    return False


def must(f, init, step, edge, limit=20000):
    """Path-sensitive must-analysis of one boolean: node id -> it holds on every feasible path to the node.
    step(n, v) -> v after node n; edge(cond, truth) -> the branch establishes it.  Conditions that occur in more than one
    branch are remembered, so that contradicting branches are not combined."""
    from collections import Counter
    from flow import norm_cond, kill
    bs = f.blocks
    at = {}
    if not bs:
        return at
    conds, cnt = {}, Counter()
    for b in bs.values():
        c = branch_cond(b) if len(b.succ) == 2 and b.tk not in ("CXXTryStmt", "SwitchStmt") else None
        conds[b.id] = c
        if c is not None:
            k = norm_cond(c)[0]
            if k:
                cnt[k] += 1
    st = [(f.entry, init, frozenset())] + [(b.id, init, frozenset()) for b in bs.values() if b.id != f.entry and not b.pred and b.tk == "CXXTryStmt"]
    seen = set()
    while st:
        s0 = st.pop()
        if s0 in seen:
            continue
        seen.add(s0)
        bid, v, env = s0
        if len(seen) > limit:
            env = frozenset()
            if len(seen) > 3 * limit:
                return {i: False for i in at}
        b = bs[bid]
        d = dict(env)
        for e in b.elems:
            if isinstance(e, tuple):
                continue
            at[e.id] = at.get(e.id, True) and v
            v = step(e, v)
            if d:
                d = kill(d, e)
        c = conds[bid]
        for i, s in enumerate(b.succ):
            if s < 0:
                continue
            o, de = v, d
            if c is not None:
                k, pol, _ = norm_cond(c)
                t = (i == 0) == pol
                if k and cnt[k] > 1:
                    if d.get(k, t) != t:
                        continue
                    de = dict(d)
                    de[k] = t
                o = v or edge(c, i == 0)
            st.append((s, o, frozenset(de.items())))
    return at
