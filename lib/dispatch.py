"""Call targets with the receiver's static type taken into account across thin forwarding helpers: a helper that only
calls a virtual function on its (base class) parameter is resolved per call site with the argument's own type."""
from prog import strip, strip_all


def forwards(p, f):
    """{param index: [virtual FDecl usr]} for repo functions that call a virtual method on a reference/pointer parameter"""
    r = f.__dict__.get("_fwd")
    if r is None:
        r = {}
        ps = f.params
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and "v" in n.callee.fl and not n.a.get("qual"):
                o = strip_all(n.ch[0])
                if o is not None and o.k == "ref" and o.var in ps:
                    r.setdefault(ps.index(o.var), []).append(n)
        f.__dict__["_fwd"] = r
    return r


def impls(p, usr, rec):
    """implementations of virtual method usr reachable for an object of static type rec"""
    cand = {usr} | set(p.overriders(usr))
    allowed = {rec} | p.derived(rec)
    up = p.bases(rec)
    out = set()
    for u in cand:
        f = p.funcs.get(u)
        if f is None or f.cls is None:
            continue
        if f.cls in allowed:
            out.add(u)
    # inherited implementation: nearest base (any base implementation that some allowed class inherits)
    for u in cand:
        f = p.funcs.get(u)
        if f is not None and f.cls in up and not any(
                o in cand and p.funcs.get(o) is not None and p.funcs[o].cls in up and f.cls in p.bases(p.funcs[o].cls)
                for o in p.overriders(u)):
            out.add(u)
    return out


def edges(p, f, _memo={}):
    """(node, target Func, skip) : call edges of f; for forwarding helpers the narrowed virtual targets are listed directly
    and skip holds the call nodes inside the helper that this replaces"""
    key = (id(p), f.usr)
    if key in _memo:
        return _memo[key]
    out = []
    for n, t in p.callgraph().get(f.usr, ()):
        fw = forwards(p, t) if n.is_call else {}
        done = False
        if fw:
            args = n.args
            ok = True
            extra = []
            for i, calls in fw.items():
                a = strip(args[i]) if i < len(args) and args[i] is not None else None
                rec = a.t.rec if a is not None else ""
                if not rec or rec not in p.recs:
                    ok = False
                    break
                for cnode in calls:
                    for u in impls(p, cnode.callee.u, rec):
                        extra.append((n, p.funcs[u]))
            if ok:
                # the helper itself, minus its forwarded virtual calls
                out.append((n, t, frozenset(c.id for cs in fw.values() for c in cs)))
                out += [(a, b, frozenset()) for a, b in extra]
                done = True
        if not done:
            # receiver static type narrows virtual calls already by overriders of the named method; narrow further by type
            if n.k == "mcall" and n.callee is not None and "v" in n.callee.fl and not n.a.get("qual") and n.ch and n.ch[0] is not None:
                o = strip(n.ch[0])
                rec = o.t.rec if o is not None else ""
                if rec and rec in p.recs and o.k != "this":
                    if t.usr not in impls(p, n.callee.u, rec):
                        continue
            out.append((n, t, frozenset()))
    _memo[key] = out
    return out
