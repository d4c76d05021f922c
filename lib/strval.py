"""Symbolic text: an expression of string type as a tuple of pieces
   ('lit', text)  ('len', X)  ('val', X)  ('?', what)
where X identifies a value (the same X means the same value)."""
from prog import strip, strip_all
from flow import canon, vname
from prov import defs, parent_fn


def join(ps):
    out = []
    for p in ps:
        if p[0] == "lit":
            if p[1] == "":
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


def text_type(t):
    s = t.s
    return "basic_string" in s or "char *" in s or "char[" in s or s.startswith("const char")


def mutations(f, v):
    out = []
    for n in f.nodes:
        if n.k == "ocall" and n.op == "+=" and len(n.ch) == 2:
            l = strip(n.ch[0])
            if l is not None and l.k == "ref" and l.var is v:
                out.append((n, n.ch[1]))
        elif n.k == "mcall" and n.callee is not None and n.callee.name in ("append", "push_back") and len(n.ch) >= 2:
            l = strip(n.ch[0])
            if l is not None and l.k == "ref" and l.var is v:
                out.append((n, n.ch[1]))
    return out


def number(p, n, env, d=0):
    """('len', X) / ('lit', text) / ('?', ..) of an integral expression printed in decimal"""
    s = strip(n)
    if s is None or d > 8:
        return ("?", "number")
    if s.v is not None and s.k != "mcall":
        return ("lit", str(s.v))
    if s.k == "mcall" and s.callee is not None and s.callee.name in ("size", "length") and len(s.ch) == 1:
        return ("len", pieces(p, s.ch[0], env, d + 1))
    if s.k == "call" and s.callee is not None and s.cq in ("std::size", "strlen", "std::strlen"):
        return ("len", pieces(p, s.ch[0], env, d + 1))
    if s.k == "ref" and s.var is not None:
        if s.var in env:
            return env[s.var][0] if isinstance(env[s.var], tuple) and len(env[s.var]) == 1 else ("?", s.var.q)
        ds = defs(s.fn).get(s.var, [])
        if len(ds) == 1:
            return number(p, ds[0], env, d + 1)
    if s.v is not None:
        return ("lit", str(s.v))
    if s.k == "bin" and s.op in ("+", "-", "*", "/", "%") and len(s.ch) == 2:
        a, b = number(p, s.ch[0], env, d + 1), number(p, s.ch[1], env, d + 1)
        if "?" not in (a[0], b[0]):
            if s.op in "+-" and b == ("lit", "0"):
                return a
            if s.op == "+" and a == ("lit", "0"):
                return b
            if s.op == "+" and a[0] == "len" and b[0] == "len":
                return ("len", join(a[1] + b[1]))
            return ("num", "%r %s %r" % (a, s.op, b))
    return ("?", "number")


def pieces(p, n, env, d=0):
    s = strip(n)
    if s is None or d > 10:
        return (("?", "none"),)
    if s.k == "str":
        return join([("lit", s.s or "")])
    if s.k == "chr":
        return (("lit", chr(s.v)),)
    if s.k == "mcall" and s.callee is not None and s.callee.name in ("c_str", "data", "str", "operator basic_string_view") and len(s.ch) == 1:
        return pieces(p, s.ch[0], env, d + 1)
    if s.k == "un" and s.op == "&":
        x = strip(s.ch[0])
        if x is not None and x.k in ("ocall", "index") and len(x.ch) == 2 and strip(x.ch[1]).v == 0:
            return pieces(p, x.ch[0], env, d + 1)
    if s.k == "call" and s.cq == "std::to_string":
        return (number(p, s.ch[0], env, d + 1),)
    if s.k == "ocall" and s.op == "+" and len(s.ch) == 2:
        return join(pieces(p, s.ch[0], env, d + 1) + pieces(p, s.ch[1], env, d + 1))
    if s.k == "ctor" and text_type(s.t):
        a = [c for c in s.ch if c is not None and c.k != "defarg"]
        if len(a) == 1:
            return pieces(p, a[0], env, d + 1)
        if not a:
            return ()
        if len(a) == 2:
            z = number(p, a[1], env, d + 1)
            q = pieces(p, a[0], env, d + 1)
            if z[0] == "len" and z[1] == q:
                return q
    if s.k == "ref" and s.var is not None:
        v = s.var
        if v in env:
            return env[v]
        g = p.var_by_decl(v)
        if g is not None and g.body is not None:
            return pieces(p, g.body, {}, d + 1)
        ds = [x for x in defs(s.fn).get(v, [])]
        ms = mutations(s.fn, v)
        ds = [x for x in ds if not any(x is m[1] for m in ms)]
        if len(ds) == 1:
            ok = all(not any(u.k in ("if", "for", "while", "do", "rfor", "switch", "cond") for u in m.up()) for m, _ in ms)
            if ok:
                out = pieces(p, ds[0], env, d + 1)
                for m, a in sorted(ms, key=lambda z: z[0].id):
                    if m.id < s.id:
                        out = join(out + pieces(p, a, env, d + 1))
                return out
            return (("?", v.q),)
        if not ds and not ms:
            return (("val", vname(v)),)
        return (("?", v.q),)
    if s.is_call and s.callee is not None:
        # a helper that returns one expression of its parameters
        ts = p.targets(s)
        if len(ts) == 1 and ts[0].body is not None and not ts[0].is_var:
            rs = [x for x in ts[0].nodes if x.k == "return" and x.ch and x.ch[0] is not None]
            if len(rs) == 1 and text_type(rs[0].ch[0].t):
                e2 = {}
                for pv, a in zip(ts[0].params, s.args):
                    if a is not None:
                        e2[pv] = pieces(p, a, env, d + 1) if text_type(a.t) else (("val", ident(p, a, env, d + 1)),)
                return pieces(p, rs[0].ch[0], e2, d + 1)
        return (("val", ident(p, s, env, d + 1)),)
    c = canon(s)
    return (("val", c),) if c else (("?", s.k),)


def ident(p, n, env, d=0):
    s = strip(n)
    if s is None:
        return "?"
    if s.k == "ref" and s.var is not None:
        if s.var in env:
            return repr(env[s.var])
        return vname(s.var)
    if s.is_call and s.callee is not None:
        return "%s(%s)" % (s.callee.q, ",".join(ident(p, c, env, d + 1) for c in s.ch if c is not None and c.k != "defarg"))
    return canon(s) or "?%d" % s.id
