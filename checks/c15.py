"""C15: the types of constants (DC, DS) have the language's alignment, implicit length and limits of modifiers."""
import json, os, re
from prog import strip, strip_all
from constev import Ev, Obj, Enum, Unknown
from prov import defs
from tags import Tags
from flow import vname

NS = "hlasm_plugin::parser_library::"
B = NS + "checking::data_def_type"
REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "constants.json")
FIELDS = ("type", "extension", "nominal_type", "bit_length_spec_", "length_spec_", "ds_length_spec_", "ds_bit_length_spec_", "scale_spec_",
          "exponent_spec_", "alignment_", "implicit_length_")


def norm(v):
    """readable constant"""
    if isinstance(v, Unknown):
        return None
    if isinstance(v, Enum):
        return v.name
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, Obj):
        t = v.t.split("<")[0].split("::")[-1]
        if v.t.startswith("std::variant") and len(v.args) == 1:
            return norm(v.args[0])
        if t == "alignment" and len(v.args) == 1:
            return norm(v.args[0])
        return [t] + [norm(x) for x in v.args]
    return v


def members(p, ev, ctor, env, d=0):
    """field -> value set by this constructor and those of its bases and delegates"""
    out = {}
    if d > 6:
        return out
    for fld, base, node, written in ctor.inits:
        n = strip(node)
        if base is not None or fld is None:
            if n is not None and n.k == "ctor" and n.callee is not None:
                g = p.funcs.get(n.callee.u)
                if g is not None:
                    e = {}
                    for i, q in enumerate(g.params):
                        if i < len(n.args):
                            e[q] = ev.ev(n.args[i], env)
                    out.update(members(p, ev, g, e, d + 1))
        elif node is not None:
            name = fld.q.split("::")[-1] if hasattr(fld, "q") else str(fld).split("::")[-1]
            out[name] = norm(ev.ev(node, env))
    # plain assignments of parameters in the body
    for n in ctor.nodes:
        if n.k in ("assign", "bin", "ocall") and n.op == "=" and len(n.ch) == 2:
            l = strip(n.ch[0])
            if l is not None and l.k == "member" and l.var is not None:
                v = norm(ev.ev(n.ch[1], env))
                if v is not None:
                    out[l.var.q.split("::")[-1]] = v
    return out


def types(p):
    """class name -> members of an object made by its default constructor"""
    ev = Ev(p)
    out = {}
    made = created(p)
    for f in p.funcs.values():
        c = f.q.rsplit("::", 1)[0]
        if c in made and f.q.rsplit("::", 1)[1] == c.rsplit("::", 1)[1] and not f.params:
            out[c.rsplit("::", 1)[1]] = (members(p, ev, f, {}), f)
    return out


def created(p):
    """classes of constants that are made: q -> sites"""
    out = {}
    for f in p.funcs.values():
        for n in f.nodes:
            t = None
            if n.k in ("call", "mcall") and n.cq is not None and n.cq.startswith("std::make_"):
                m = re.search(r"(%s\w*)" % re.escape(B), n.t.s)
                t = m.group(1) if m else None
            elif n.k == "new":
                m = re.search(r"(%s\w*)" % re.escape(B), n.t.s)
                t = m.group(1) if m else None
            if t is not None and t != B:
                out.setdefault(t, []).append(n)
    return out


VIRT = ("check", "expects_single_symbol", "get_nominal_length", "get_nominal_length_attribute", "get_implicit_scale", "get_integer_attribute_impl")


def impl(p, cls, name):
    """(function, class) that implements a virtual of data_def_type for this class"""
    c = cls
    for _ in range(6):
        r = p.recs.get(c)
        if r is None:
            return None, None
        for fd, ov, acc, imp in r.methods:
            if fd.q.rsplit("::", 1)[-1] == name and (ov or c == B):
                return p.funcs.get(fd.u), c
        c = r.bases[0][1] if r.bases else None
    return None, None


LEN = frozenset(range(0, 301))


class Len(Tags):
    """the length is there; remainders are decided"""

    def rem(self, n, k):
        n = strip(n)
        if n is not None and n.k == "bin" and n.op == "%":
            m = self.const(n.ch[1])
            if isinstance(m, int) and m > 0 and self.tagexpr(n.ch[0], k):
                return m
        return None

    def refine(self, c, truth, k, S, d=0):
        c = strip(c)
        if c is not None and c.k == "member" and c.var is not None and c.var.q.endswith("::present") and c.ch and c.ch[0] is not None:
            o = strip(c.ch[0])
            if o.k == "member" and o.var is not None and o.var.q.endswith("data_definition_operand::length"):
                return S if truth else frozenset()
        m = self.rem(c, k)
        if m is not None:
            return frozenset(t for t in S if (t % m != 0) == truth)
        if c is not None and c.k == "bin" and c.op in ("==", "!="):
            m, v = self.rem(c.ch[0], k), self.const(c.ch[1])
            if m is not None and isinstance(v, int):
                return frozenset(t for t in S if (t % m == v) == (truth == (c.op == "==")))
        return Tags.refine(self, c, truth, k, S, d)


def lengths(p, f):
    """explicit lengths for which f can return true"""
    def is_tag(n, k):
        if n.k != "member" or n.var is None or not n.var.q.endswith("::value") or not n.ch or n.ch[0] is None:
            return False
        o = strip(n.ch[0])
        return o.k == "member" and o.var is not None and o.var.q.endswith("data_definition_operand::length")
    if f is None or not any(is_tag(n, None) for n in f.nodes):
        return None
    t = Len(p, LEN, is_tag, lambda n, k: None)
    k = "op.length.value"
    for q in f.params:
        if "data_definition_operand" in q.t.s:
            k = vname(q) + ".length.value"
    at = t.flow(f, k)
    out = set()
    for n in f.nodes:
        if n.k == "return" and n.ch and n.ch[0] is not None:
            out |= t.refine(n.ch[0], True, k, at.get(n.id, frozenset()))
    return sorted(out)


def absent_length(p, f):
    """what f returns for a constant without a value"""
    if not f.params:
        return None
    q = f.params[0]

    def alt(n, k):
        return 1 if n.k == "member" and n.var is not None and n.var.q.endswith("::present") and strip(n.ch[0]).var is q else None
    t = Tags(p, frozenset([0, 1]), lambda n, k: False, alt)
    ls, _ = t.results(f, vname(q) + ".present", 0)
    vs = {n.v for n in ls}
    return sorted(vs) if vs and None not in vs else None


def describe(p):
    out = {}
    for name, (m, f) in types(p).items():
        cls = B.rsplit("::", 1)[0] + "::" + name
        d = {x: m.get(x) for x in FIELDS}
        d["overridden"] = [v for v in VIRT if impl(p, cls, v)[1] not in (None, B)]
        g, _ = impl(p, cls, "check")
        own = g is not None and g.q.startswith(cls + "::")
        d["lengths"] = lengths(p, g) if own else None
        cs = []
        if own:
            for n in g.nodes:
                vs = [strip(a).v for a in n.args if a is not None and strip(a).v is not None] if n.k == "call" and n.callee is not None else []
                if len(vs) >= 3:
                    cs.append(vs)
        d["limits"] = cs
        for v in ("get_nominal_length", "get_nominal_length_attribute"):
            h, hc = impl(p, cls, v)
            d[v] = absent_length(p, h) if h is not None and hc != B else None
            d[v + " divisor"] = sorted({strip(a).v for n in h.nodes if n.k == "call" and "_length" in (n.cq or "") for a in n.args
                                        if a is not None and strip(a).v is not None}) or None if h is not None and hc != B else None
        ty, ex = m.get("type"), m.get("extension")
        key = None if ty is None or ex is None else chr(ty) + (chr(ex) if ex else "")
        out[name] = (key, d, f)
    return out


def show(x):
    if isinstance(x, list) and x and x[0] == "modifier_bound":
        return "%s..%s" % (x[1], x[2])
    if isinstance(x, list) and len(x) > 12:
        return "%s...%s" % (x[:6], x[-3:])
    return str(x)


def check(c):
    p = c.p
    c.rule("constant evaluation of the constructors of every type of constant (through all bases): letter, extension, ranges of bit length, length, scale and "
           "exponent for DC and DS, alignment, implicit length and kind of nominal value are those of the reference; explicit lengths and limits its check accepts too")
    c.rule("the table maps each letter and extension to the class with this letter and extension, once; no type is missing")
    c.rule("types whose length follows from the value compute it; each modifier is checked against its own range on all paths; DC and DS use their own ranges; "
           "an explicit length suppresses alignment and nothing else does")
    ref = json.load(open(REF))
    D = describe(p)
    bykey = {}
    for name, (key, d, f) in D.items():
        if key is not None:
            if key in bykey:
                c.violate("dup:" + key, f.loc(), "two classes of constants say they are type %s: %s and %s" % (key, name, bykey[key]))
            bykey[key] = name
    for key, want in ref.items():
        name = bykey.get(key)
        if name is None:
            if all(k is not None for k, _, _ in D.values()):
                c.violate("missing:" + key, "parser_library/src/checking/data_definition/data_def_type_base.cpp:1", "there is no type of constant %s" % key)
            continue
        _, d, f = D[name]
        c.seen(f)
        for x, w in want.items():
            g = d.get(x)
            if g is None or x == "lengths" and w is None or x == "limits" and (not g or not w):
                continue
            c.ob("attribute of a type of constant", "%s %s = %s" % (key, x, show(g)))
            if g != w:
                c.violate("attr:%s:%s" % (key, x), f.loc(), "constants of type %s have %s = %s, the language says %s" % (key, x.rstrip("_"), show(g), show(w)))
    for key, name in bykey.items():
        _, d, f = D[name]
        if d["implicit_length_"] == ["as_needed"]:
            for v in ("get_nominal_length", "get_nominal_length_attribute"):
                c.ob("length computed from the value", "%s %s" % (key, v))
                if v not in d["overridden"]:
                    c.violate("length:%s:%s" % (key, v), f.loc(), "the length of constants of type %s depends on their value, but %s is not defined for it" % (key, v))
    table(c, p, D)
    modifiers(c, p)
    specs(c, p)
    align(c, p)
    c.need("attribute of a type of constant", 150)


def pair(v):
    while isinstance(v, Obj) and len(v.args) == 1 and isinstance(v.args[0], (list, Obj)):
        v = v.args[0]
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
        v = v[0]
    if isinstance(v, list) and len(v) == 2 and all(isinstance(w, int) for w in v):
        return chr(v[0]) + (chr(v[1]) if v[1] else "")
    return None


def table(c, p, D):
    ev = Ev(p)
    seen = {}
    for q, sites in created(p).items():
        name = q.rsplit("::", 1)[-1]
        for n in sites:
            # the call or assignment that takes both the key and the object
            a = n.parent
            while a is not None and not (a.k in ("mcall", "ocall") or a.k == "call" and "make_" not in (a.cq or "") and "std::move" not in (a.cq or "")
                                         or a.k in ("assign", "bin") and a.op == "="):
                a = a.parent
            if a is None:
                continue
            key = None
            for x in sub(a):
                if x is a or any(y is n for y in sub(x)):
                    continue
                key = key or pair(ev.ev(x))
            if key is None or name not in D:
                continue
            c.ob("entry of the table of types", "%s -> %s" % (key, name))
            if key in seen and seen[key] != name:
                c.violate("entry:" + key, n.loc(), "type %s is entered in the table twice: %s and %s" % (key, seen[key], name))
            seen[key] = name
            own = D[name][0]
            if own is not None and own != key:
                c.violate("entry:" + key, n.loc(), "the table has %s (type %s) under the letters %s" % (name, own, key))


PAIR = {"length": ("length_spec_", "bit_length_spec_", "ds_length_spec_", "ds_bit_length_spec_"), "scale": ("scale_spec_",), "exponent": ("exponent_spec_",)}


def spec_fields(p, n, d=0):
    """fields of data_def_type a range can come from"""
    n = strip_all(n)
    out = set()
    if n is None or d > 5:
        return out
    if n.k == "member" and n.var is not None and n.var.q.startswith(B + "::"):
        return {n.var.q.rsplit("::", 1)[-1]}
    if n.k == "cond":
        return spec_fields(p, n.ch[1], d + 1) | spec_fields(p, n.ch[2], d + 1)
    if n.is_call and n.callee is not None and n.k != "ctor":
        for t in p.targets(n):
            for r in t.nodes:
                if r.k == "return" and r.ch and r.ch[0] is not None:
                    out |= spec_fields(p, r.ch[0], d + 1)
    if n.k == "ref" and n.var is not None and n.var.kind == "local":
        for x in defs(n.fn).get(n.var, ()):
            if x is not None:
                out |= spec_fields(p, x, d + 1)
    if n.k == "ctor" and len(n.args) == 1:
        return spec_fields(p, n.args[0], d + 1)
    return out


def modifiers(c, p):
    """a check of a modifier is given the range of that modifier"""
    for f in p.funcs.values():
        if not f.q.startswith(B):
            continue
        for n in f.nodes:
            if not n.is_call or n.callee is None:
                continue
            mod, ss = set(), set()
            for a in n.args:
                if a is None:
                    continue
                x = strip_all(a)
                if x is not None and x.k == "member" and x.var is not None and x.var.q.startswith(NS + "checking::data_definition_operand::"):
                    mod.add(x.var.q.rsplit("::", 1)[-1])
                if "modifier_bound" in a.t.s:
                    ss |= spec_fields(p, a)
            if len(mod) != 1 or not ss:
                continue
            m = mod.pop()
            if m not in PAIR:
                continue
            c.ob("modifier against its range", n.loc())
            for s in ss:
                if s not in PAIR[m]:
                    c.violate("range:%s:%s" % (f.q, m), n.loc(), "modifier %s is checked against the range %s" % (m, s))


def specs(c, p):
    for what, dc, ds in (("get_length_spec", "length_spec_", "ds_length_spec_"), ("get_bit_length_spec", "bit_length_spec_", "ds_bit_length_spec_")):
        for f in p.funcs.values():
            m = re.search(r"data_instr_type(\d)>", f.usr) if f.q == B + "::" + what else None
            if not m:
                continue
            want = dc if m.group(1) == "0" else ds
            got = set()
            for n in f.nodes:
                if n.k == "return" and n.ch and n.ch[0] is not None:
                    got |= spec_fields(p, n.ch[0])
            if not got:
                continue
            c.ob("range of DC and of DS", f.loc())
            c.seen(f)
            if got != {want}:
                c.violate("spec:%s:%s" % (what, m.group(1)), f.loc(), "%s gives %s for %s" % (what, sorted(got), "DC" if m.group(1) == "0" else "DS"))
    for f in p.funcs.values():
        if f.q != B + "::check_base":
            continue
        c.seen(f)
        want = {"dupl_factor": "the duplication factor", "length": "the length", "scale": "the scale modifier", "exponent": "the exponent modifier",
                "nominal_value": "the nominal value"}
        for fld, text in want.items():
            c.ob("part of a constant checked", "%s %s" % (f.loc(), fld))
            if not touched(p, f, fld):
                c.violate("checked:" + fld, f.loc(), "%s of a constant is not checked on every path" % text)


def touched(p, f, fld, d=0):
    """some node that reads the field of data_definition_operand is executed on every path of f (calls followed)"""
    hit = set()
    for n in f.nodes:
        if n.k == "member" and n.var is not None and n.var.q == NS + "checking::data_definition_operand::" + fld:
            hit.add(n.id)
        elif n.is_call and n.callee is not None and d < 4:
            ts = [t for t in p.targets(n) if t.q.startswith(B)]
            if ts and all(touched(p, t, fld, d + 1) for t in ts):
                hit.add(n.id)
    bs = f.blocks
    if not bs:
        return bool(hit)
    st, seen = [f.entry], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(not isinstance(e, tuple) and e.id in hit for e in bs[b].elems):
            continue
        if b == f.exit:
            return False
        st += [s for s in bs[b].succ if s >= 0]
    return True


def align(c, p):
    f = p.fn(B + "::get_alignment", required=False)
    if f is None or not f.params:
        return
    q = f.params[0]
    t = Tags(p, frozenset([0, 1]), lambda n, kk: n.k == "ref" and n.var is q, lambda n, kk: 1 if n.k == "ref" and n.var is q else None)
    for v in (0, 1):
        ls, _ = t.results(f, vname(q), v)
        c.ob("alignment and explicit length", f.loc())
        for n in ls:
            own = any(x.k == "member" and x.var is not None and x.var.q == B + "::alignment_" for x in sub(n))
            if own != (v == 0):
                c.violate("align:%d" % v, n.loc(), "a constant %s an explicit length %s" % ("with" if v else "without", "is aligned" if v else "loses its alignment"))


def sub(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st += x.ch
