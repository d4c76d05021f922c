"""Provenance: which parameters, literals and fields an expression's value is built from."""
from prog import strip


def recomputed(f, v):
    """the variable is also changed by compound assignments"""
    r = f.__dict__.get("_recomp")
    if r is None:
        r = set()
        for n in f.nodes:
            if (n.k in ("assign", "ocall") and n.op not in ("=", None) and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">=") or n.k == "un" and n.op in ("++", "--")) and n.ch:
                l = strip(n.ch[0])
                if l is not None and l.k == "ref" and l.var is not None:
                    r.add(l.var)
        f.__dict__["_recomp"] = r
    return v in r


def defs(f):
    """var -> nodes it may get its value from, within this function (and, for captures, its parents)."""
    d = f.__dict__.get("_defs")
    if d is None:
        d = {}
        for n in f.nodes:
            if n.k == "decl":
                for x, c in zip(n.a["ds"], n.ch):
                    if c is not None:
                        d.setdefault(f.unit.vd[x["d"]], []).append(c)
            elif n.k == "assign" and n.op == "=":
                l = strip(n.ch[0])
                if l is not None and l.k == "ref" and l.var is not None:
                    d.setdefault(l.var, []).append(n.ch[1])
            elif n.k == "ocall" and n.op == "=" and len(n.ch) == 2:
                l = strip(n.ch[0])
                if l is not None and l.k == "ref" and l.var is not None:
                    d.setdefault(l.var, []).append(n.ch[1])
            elif n.k == "ocall" and n.op == "=" and len(n.ch) == 2:
                pass
            elif n.k == "mcall" and n.callee is not None and n.callee.name in (
                    "push_back", "emplace_back", "insert", "emplace", "append", "assign", "push_front", "try_emplace",
                    "merge_patch", "update"):
                l = strip(n.ch[0])
                while l is not None and l.k in ("ocall", "index", "mcall") and l.ch:
                    l = strip(l.ch[0])
                if l is not None and l.k == "ref" and l.var is not None:
                    d.setdefault(l.var, []).extend(c for c in n.ch[1:] if c is not None)
        # element stores:  x["k"] = v
        for n in f.nodes:
            if n.k in ("ocall", "assign") and n.op == "=" and len(n.ch) == 2:
                l = strip(n.ch[0])
                if l is not None and l.k in ("ocall", "index", "member"):
                    keys = []
                    while l is not None and l.k in ("ocall", "index", "member") and l.ch:
                        keys += [c for c in l.ch[1:] if c is not None]
                        l = strip(l.ch[0])
                    if l is not None and l.k == "ref" and l.var is not None:
                        d.setdefault(l.var, []).extend(keys + [n.ch[1]])
        f.__dict__["_defs"] = d
    return d


def parent_fn(p, f):
    if f.parent is None:
        return None
    return p.funcs.get(f.parent)


def tags(p, n, env, seen=None):
    """frozenset of tags: values of env for bound variables, 's:<literal>', 'i:<int>', 'f:<field>', 'v:<global>',
    'p:<unbound parameter>'."""
    out = set()
    _tags(p, n, env, seen if seen is not None else set(), out)
    return frozenset(out)


def _tags(p, n, env, seen, out):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if x.k == "str":
            out.add("s:" + (x.s or ""))
        elif x.k in ("int", "bool", "chr"):
            out.add("i:%s" % x.v)
        elif x.k == "ref" and x.var is not None:
            v = x.var
            if v in env:
                e = env[v]
                if isinstance(e, frozenset):
                    out |= e
                else:
                    out.add(e)
            elif v.kind == "enum":
                out.add("e:" + v.q)
            else:
                if v in seen:
                    continue
                seen.add(v)
                f = x.fn
                got = False
                while f is not None:
                    ds = defs(f).get(v)
                    if ds:
                        got = True
                        for d in ds:
                            _tags(p, d, env, seen, out)
                        break
                    f = parent_fn(p, f)
                if not got:
                    out.add(("p:" if v.kind == "param" else "v:") + v.q)
                    # initialiser of a constant at namespace or class scope
                    g = p.var_by_decl(v) if hasattr(p, "var_by_decl") else None
                    if g is not None and g.body is not None:
                        _tags(p, g.body, env, seen, out)
            continue
        elif x.k == "member" and x.var is not None:
            out.add("f:" + x.var.q)
        elif x.k == "lambda":
            pass
        st.extend(x.ch)
