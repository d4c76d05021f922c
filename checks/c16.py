"""C16: built-in functions, operators, character codes and the codes sent to the client."""
import json, os, re
from prog import strip, strip_all
from constev import Ev, Obj, Enum, Unknown
from prov import defs
from tags import Tags
from flow import vname, canon

NS = "hlasm_plugin::parser_library::"
X = NS + "expressions::"
OPS, FUNCS, SETT = X + "ca_expr_ops", X + "ca_expr_funcs", NS + "context::SET_t_enum"

# HLASM Language Reference: functions that take a value of the first kind (twice for FIND and INDEX) and give one of the second
FUNC = {f: ("C", "A") for f in "B2A C2A D2A DCLEN ISBIN ISDEC ISHEX ISSYM X2A FIND INDEX".split()}
FUNC.update({f: ("A", "C") for f in "A2B A2C A2D A2X BYTE SIGNED".split()})
FUNC.update({f: ("C", "C") for f in "B2C B2D B2X C2B C2D C2X D2B D2C D2X DCVAL DEQUOTE DOUBLE ESYM LOWER SYSATTRA SYSATTRP UPPER X2B X2C X2D".split()})
TWO = {"FIND", "INDEX"}
# operators per kind of expression: priority (lower binds tighter), kind of operands, number of operands
OP = {"A": {}, "B": {}, "C": {}}
for o in "FIND INDEX".split():
    OP["A"][o] = (0, "C", 2)
OP["A"]["NOT"] = (1, "A", 1)
for o in "AND OR XOR".split():
    OP["A"][o] = (2, "A", 2)
for o in "SLA SLL SRA SRL".split():
    OP["A"][o] = (3, "A", 2)
for o in "EQ NE LE LT GE GT".split():
    OP["B"][o] = (0, "B", 2)
OP["B"]["NOT"] = (1, "B", 1)
for o, pr in (("AND", 2), ("AND_NOT", 2), ("OR", 3), ("OR_NOT", 3), ("XOR", 4), ("XOR_NOT", 4)):
    OP["B"][o] = (pr, "B", 2)
for o, k in (("BYTE", "A"), ("SIGNED", "A"), ("DOUBLE", "C"), ("LOWER", "C"), ("UPPER", "C")):
    OP["C"][o] = (0, k, 1)
POLICY = {"A": "ca_arithmetic_policy", "B": "ca_binary_policy", "C": "ca_character_policy"}
MULTI = {"B": {"AND", "OR", "XOR"}}


class ETags(Tags):
    """tag: the value of an enumeration held in a parameter, field or local"""

    def __init__(self, p, enum, match):
        Tags.__init__(self, p, frozenset(v for _, v in p.enums[enum][0]), lambda n, k: match(n, k), lambda n, k: None)


class STags(Tags):
    def const(self, n):
        n = strip_all(n)
        if n is not None and n.k == "str":
            return n.s
        return None


def by_canon(n, k):
    return canon(n) == k


def short(e, q):
    return {v: n.rsplit("::", 1)[-1] for n, v in e.enums[q][0]}


def sub(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st += x.ch


class Val:
    """values of results"""

    def __init__(self, p):
        self.p, self.ev = p, Ev(p)

    def of(self, n, tag=None):
        v = self.ev.ev(n)
        r = self.norm(v)
        if r is None and tag is not None:
            r = self.lookup(n, tag)
        return r

    def norm(self, v):
        if isinstance(v, Enum):
            return v.name
        if isinstance(v, (int, str)):
            return v
        if isinstance(v, list):
            xs = [self.norm(x) for x in v]
            return None if None in xs else tuple(xs)
        if isinstance(v, Obj) and len(v.args) == 1 and v.t.startswith(("std::variant", "std::optional", "std::pair")):
            return self.norm(v.args[0])
        if isinstance(v, Obj) and v.t.startswith("std::pair"):
            xs = [self.norm(x) for x in v.args]
            return None if None in xs else tuple(xs)
        return None

    def lookup(self, n, tag):
        """a value read from a constant table under the tag"""
        for x in sub(n):
            v = x.var if x.k == "ref" else None
            if v is None:
                continue
            if v.kind == "local":
                for y in defs(x.fn).get(v, ()):
                    r = self.lookup(y, tag) if y is not None and y is not n else None
                    if r is not None:
                        return r
            t = self.norm(self.ev.ev(x))
            if isinstance(t, tuple) and t and all(isinstance(e, tuple) and len(e) == 2 for e in t):
                d = dict(t)
                if tag in d:
                    return d[tag]
                return "absent"
        return None


def check(c):
    p = c.p
    c.rule("for every enumerator of the built-in functions and operators the feasible results of the policy functions are computed by dataflow of the possible "
           "values of the parameter: name, kind of operands, kind of result, number of parameters and priority are those of the language, and evaluation calls "
           "the function of that name with operands of that kind")
    c.rule("the two character tables are each other's inverse and map the invariant characters to their EBCDIC codes")
    c.rule("the legend of semantic tokens has one entry per scope, every scope and completion kind has its protocol code")
    funcs(c, p)
    ops(c, p)
    names(c, p)
    evaluation(c, p)
    operators(c, p)
    width(c, p)
    shifts(c, p)
    ebcdic(c, p)
    attributes(c, p)
    legend(c, p)
    encoding(c, p)
    c.need("property of a function", 60)
    c.need("character code", 256)


def getter(c, p, q, enum):
    """function with one parameter of the enumeration"""
    f = p.fn(q, required=False)
    if f is None or not f.params:
        return None, None
    c.seen(f)
    par = next((x for x in f.params if x.t.s.split("::")[-1].strip() == enum.split("::")[-1] or enum in x.t.s), None)
    return f, par


def tagged(p, enum, par):
    return ETags(p, enum, lambda n, k: n.k == "ref" and n.var is not None and vname(n.var) == k)


def results(c, p, q, enum, V):
    """name of enumerator -> set of values the function returns for it"""
    f, par = getter(c, p, q, enum)
    if f is None or par is None:
        return None
    out = {}
    t = tagged(p, enum, par)
    for v, name in short(p, enum).items():
        ls, _ = t.results(f, vname(par), v)
        vs = set()
        for n in ls:
            if n.t.s == "bool" and n.v is None:
                for b in (True, False):
                    if t.refine(n, b, vname(par), frozenset([v])):
                        vs.add(int(b))
            else:
                vs.add(V.of(n, name))
        out[name] = (vs, f)
    return out


def judge(c, kind, what, name, got, want, f):
    if got is None or None in got or len(got) != 1:
        return
    c.ob(kind, "%s %s" % (name, what))
    g = next(iter(got))
    if isinstance(g, bool):
        g = int(g)
    if g != want:
        c.violate("%s:%s" % (what, name), f.loc(), "%s: %s gives %s, the language says %s" % (name, what, g, want))


def funcs(c, p):
    V = Val(p)
    for kind, pol in POLICY.items():
        r = results(c, p, X + pol + "::is_function", FUNCS, V)
        for name, (vs, f) in (r or {}).items():
            judge(c, "property of a function", pol + "::is_function", name, vs, int(FUNC.get(name, ("", ""))[1] == kind), f)
        r = results(c, p, X + pol + "::get_function_param_info", FUNCS, V)
        for name, (vs, f) in (r or {}).items():
            if FUNC.get(name, ("", ""))[1] == kind:
                judge(c, "property of a function", pol + "::get_function_param_info", name, vs, (2 if name in TWO else 1, FUNC[name][0] + "_TYPE"), f)
    r = results(c, p, X + "ca_common_expr_policy::get_function_type", FUNCS, V)
    for name, (vs, f) in (r or {}).items():
        judge(c, "property of a function", "get_function_type", name, vs, FUNC[name][1] + "_TYPE" if name in FUNC else "UNDEF_TYPE", f)


def ops(c, p):
    V = Val(p)
    for kind, pol in POLICY.items():
        for what in ("is_unary", "is_binary", "is_operator", "multiple_words", "get_priority", "get_operands_type"):
            r = results(c, p, X + pol + "::" + what, OPS, V)
            for name, (vs, f) in (r or {}).items():
                o = OP[kind].get(name)
                if what == "is_unary":
                    w = int(o is not None and o[2] == 1)
                elif what == "is_binary":
                    w = int(o is not None and o[2] == 2)
                elif what == "is_operator":
                    w = int(o is not None)
                elif what == "multiple_words":
                    w = int(name in MULTI.get(kind, ()))
                elif o is None:
                    continue
                else:
                    w = o[0] if what == "get_priority" else o[1] + "_TYPE"
                judge(c, "property of an operator", pol + "::" + what, name, vs, w, f)


def names(c, p):
    """strings to enumerators"""
    V = Val(p)
    for enum, fs in ((FUNCS, [X + "ca_common_expr_policy::get_function"] + [X + q + "::get_function" for q in POLICY.values()]),
                     (OPS, [X + q + "::get_operator" for q in POLICY.values()])):
        es = [e for e in short(p, enum).values() if e != "UNKNOWN"]
        for q in fs:
            f = p.fn(q, required=False)
            if f is None or not f.params:
                continue
            for e in es:
                got = by_name(p, V, f, f.params[0], e)
                if got is None:
                    continue
                c.ob("name of a function or operator", "%s %s" % (q, e))
                c.seen(f)
                if got != {e}:
                    c.violate("name:%s:%s" % (q.split("::")[-2], e), f.loc(), "the name %s is taken for %s" % (e, sorted(map(str, got))))


def by_name(p, V, f, par, s, d=0):
    t = STags(p, frozenset([s]), lambda n, k: n.k == "ref" and n.var is par, lambda n, k: None)
    ls, _ = t.results(f, vname(par), s)
    out = set()
    for n in ls:
        x = strip_all(n)
        if x.is_call and x.callee is not None and d < 4 and V.of(n, s) is None:
            ts = [g for g in p.targets(x) if g.params]
            if len(ts) == 1 and any(a is not None and canon(a) == vname(par) for a in x.args):
                r = by_name(p, V, ts[0], ts[0].params[0], s, d + 1)
                if r is None:
                    return None
                out |= r
                continue
        v = V.of(n)
        if v is None:
            # a search in a table: the found entry
            v = V.lookup(n, s)
            if v is None:
                return None
            if v != "absent":
                return {v}
            continue
        out.add(v)
    return out or None


def member_tags(p, enum):
    """field of this holding the enumerator"""
    def match(n, k):
        return n.k == "member" and n.var is not None and n.t.s.replace("const ", "").endswith(enum.split("::")[-1]) and canon(n) == k
    return ETags(p, enum, match)


def evaluation(c, p):
    f = p.fn(X + "ca_function::evaluate", required=False)
    if f is None:
        return
    c.seen(f)
    calls_of(c, p, f, FUNCS, {n: FUNC[n] for n in FUNC}, "function")
    for q, kind in (("ca_function_binary_operator::operation", None), ("ca_function_unary_operator::operation", None)):
        g = p.fn(X + q, required=False)
        if g is None:
            continue
        c.seen(g)
        want = {}
        for k, os_ in OP.items():
            for o, (pr, ok, cnt) in os_.items():
                if o in FUNC and cnt == (2 if "binary" in q else 1):
                    want[o] = (ok, k)
        calls_of(c, p, g, OPS, want, "operator")


def calls_of(c, p, f, enum, want, what):
    key = None
    for n in f.nodes:
        if n.k == "member" and n.var is not None and n.t.s.replace("const ", "").endswith(enum.split("::")[-1]):
            key = canon(n)
    if key is None:
        return
    t = member_tags(p, enum)
    inv = {n: v for v, n in short(p, enum).items()}
    allf = set(FUNC)
    for name, (ok, rk) in want.items():
        _, ex = t.results(f, key, inv[name])
        called = {}
        for e in ex:
            for x in (e,):
                if x.is_call and x.callee is not None and x.callee.cls is not None and x.callee.q.startswith(X + "ca_function::") and x.callee.q.rsplit("::", 1)[-1] in allf:
                    called[x.callee.q.rsplit("::", 1)[-1]] = x
        if not called:
            continue
        c.ob("evaluation of a function", "%s %s" % (what, name))
        if set(called) != {name}:
            c.violate("eval:%s:%s" % (what, name), f.loc(), "%s %s is evaluated by %s" % (what, name, ", ".join(sorted(called))))
            continue
        x = called[name]
        kinds, idx = set(), []
        for a in x.args:
            for y in sub(a):
                if y.k == "mcall" and (y.cq or "").startswith(NS + "context::SET_t::access_"):
                    kinds.add(y.cq[-1].upper())
                if y.is_call and (y.cq or "").endswith("::get_ith_param") and y.args and strip(y.args[0]).v is not None:
                    idx.append(int(strip(y.args[0]).v))
        if kinds and kinds != {ok}:
            c.violate("operands:%s:%s" % (what, name), x.loc(), "%s %s takes %s values but is given %s" % (what, name, ok, sorted(kinds)))
        if idx and idx != list(range(2 if name in TWO else 1)):
            c.violate("operands:%s:%s" % (what, name), x.loc(), "%s %s is given its parameters in the order %s" % (what, name, idx))


def operators(c, p):
    """operators computed in place"""
    f = p.fn(X + "ca_function_binary_operator::operation", required=False)
    if f is None:
        return
    key = None
    for n in f.nodes:
        if n.k == "member" and n.var is not None and n.t.s.replace("const ", "").endswith("ca_expr_ops"):
            key = canon(n)
    if key is None or len(f.params) < 2:
        return
    l, r = f.params[0], f.params[1]
    t = member_tags(p, OPS)
    inv = {n: v for v, n in short(p, OPS).items()}
    for name in OP["A"].keys() | OP["B"].keys():
        if name in FUNC or OP["A"].get(name, OP["B"].get(name))[2] != 2:
            continue
        ls, _ = t.results(f, key, inv[name])
        for n in ls:
            x = strip_all(n)
            sh = shape(x, l, r)
            if sh is None:
                continue
            c.ob("operator computed in place", "%s %s" % (name, x.loc()))
            want = SHAPES.get(name)
            if want is not None and sh not in want:
                c.violate("operator:" + name, x.loc(), "operator %s is computed as %s" % (name, sh))


SHAPES = {"AND": {"l&r", "l&&r"}, "OR": {"l|r", "l||r"}, "XOR": {"l^r", "l!=r", "!(l==r)"}, "AND_NOT": {"l&&!r"}, "OR_NOT": {"l||!r"},
          "XOR_NOT": {"l!=!r", "l==r", "l^!r", "!(l!=r)"}, "EQ": {"x==0", "!(x!=0)"}, "NE": {"x!=0", "!(x==0)"}, "LE": {"x<=0", "!(x>0)"}, "LT": {"x<0", "!(x>=0)"},
          "GE": {"x>=0", "!(x<0)"}, "GT": {"x>0", "!(x<=0)"}}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!=", "&": "&", "|": "|", "^": "^", "&&": "&&", "||": "||"}


def shape(n, l, r, d=0):
    n = strip_all(n)
    if n is None or d > 6:
        return None
    if n.v is not None and n.k in ("int", "bool", "icast"):
        return str(int(n.v))
    if n.k == "un" and n.op == "!":
        s = shape(n.ch[0], l, r, d + 1)
        return None if s is None else "!" + (s if len(s) == 1 else "(" + s + ")")
    if n.k == "bin" and n.op in SWAP:
        a, b = shape(n.ch[0], l, r, d + 1), shape(n.ch[1], l, r, d + 1)
        if a is None or b is None:
            return None
        if a == "0" or (a.lstrip("!") == "r" and b.lstrip("!") == "l"):
            return b + SWAP[n.op] + a
        return a + n.op + b
    vs = set()
    for x in sub(n):
        if x.k == "ref" and x.var is not None:
            if x.var is l or x.var is r:
                vs.add("l" if x.var is l else "r")
            elif x.var.kind == "local":
                return "x" if n.k == "ref" and n.t.s.replace("const ", "") == "int" else local(x, l, r, d)
    return vs.pop() if len(vs) == 1 else None


def local(x, l, r, d):
    ds = defs(x.fn).get(x.var, ())
    if len(ds) == 1 and ds[0] is not None:
        return shape(ds[0], l, r, d + 1)
    return None


def width(c, p):
    """arithmetic on values of conditional assembly does not wrap"""
    for f in p.funcs.values():
        if "/parser_library/" not in f.file:
            continue
        for n in f.nodes:
            ab = n.k == "call" and n.cq in ("std::abs", "abs") and len(n.args) == 1
            if n.v is not None or not (n.k == "bin" and n.op in ("+", "-", "*", "/") and len(n.ch) == 2 or n.k == "un" and n.op == "-" or ab):
                continue
            xs = list(n.args if ab else n.ch)
            if not any(is_a(x) for x in xs) and not all(is_a(x, True) for x in xs):
                if any(is_a(strip_cast(x), True) for x in xs):
                    c.ob("arithmetic on 32-bit values", n.loc())
                continue
            c.ob("arithmetic on 32-bit values", n.loc())
            op = n.op or "the absolute value"
            if n.t.s.replace("const ", "") == "int" and op != "/":
                c.violate("width:%s:%s" % (f.q, op), n.loc(), "%s on values of conditional assembly is computed in 32 bits: a result out of range wraps instead of being reported" % op)


def strip_cast(x):
    while x is not None and x.k in ("cast", "icast", "paren") and x.ch:
        x = x.ch[0]
    return x


def is_a(x, local=False):
    x = plain(x)
    if x is None:
        return False
    if x.k == "mcall" and (x.cq or "") == NS + "context::SET_t::access_a":
        return True
    if local and x.k == "ref" and x.var is not None and x.var.kind == "local":
        ds = defs(x.fn).get(x.var, ())
        return bool(ds) and all(d is not None and is_a(d) for d in ds)
    return False


def plain(x):
    """without parentheses and casts that keep the type int"""
    while x is not None and x.k in ("paren", "icast", "cast") and x.ch and x.t.s.replace("const ", "") == "int":
        x = x.ch[0]
    return x


def shifts(c, p):
    """what a shift gives is made from the value that is shifted"""
    f = p.fn(X + "ca_function_binary_operator::operation", required=False)
    if f is None or len(f.params) < 2:
        return
    inv = {n: v for v, n in short(p, OPS).items()}
    done = set()
    for n in f.nodes:
        if not n.is_call or n.callee is None or n.k == "ctor":
            continue
        pos = [i for i, a in enumerate(n.args) if a is not None and any(y.k == "ref" and y.var is f.params[0] for y in sub(a))]
        tag = [i for i, a in enumerate(n.args) if a is not None and a.t.s.replace("const ", "").endswith("ca_expr_ops")]
        if not pos or not tag:
            continue
        for g in p.targets(n):
            if g.usr in done or len(g.params) <= max(pos + tag):
                continue
            done.add(g.usr)
            c.seen(g)
            l, tp = g.params[pos[0]], g.params[tag[0]]
            t = tagged(p, OPS, tp)
            for name in ("SLA", "SLL", "SRA", "SRL"):
                ls, _ = t.results(g, vname(tp), inv[name])
                for x in ls:
                    c.ob("result of a shift", "%s %s" % (name, x.loc()))
                    if depends(x, l, set()) or x.v == 0:
                        continue
                    if x.v is not None and any(cond is not None and depends(cond, l, set()) for cond in conds(x)):
                        continue
                    c.violate("shift:" + name, x.loc(), "the result of %s does not depend on the value that is shifted" % name)


def depends(n, v, seen):
    for x in sub(n):
        if x.k == "ref" and x.var is not None:
            if x.var is v:
                return True
            if x.var.kind == "local" and x.var not in seen:
                seen.add(x.var)
                if any(d is not None and depends(d, v, seen) for d in defs(x.fn).get(x.var, ())):
                    return True
    return False


def conds(n):
    out = []
    a = n.parent
    while a is not None:
        if a.k == "cond":
            out.append(a.ch[0])
        elif a.k == "if":
            out += [x for x in a.ch[:3] if x is not None and x.k != "block"]
        a = a.parent
    return out


def ebcdic(c, p):
    ev = Ev(p)
    T = {}
    for n in ("a2e", "e2a"):
        v = ev.var(NS + "ebcdic_encoding::" + n)
        x = ev.ev(v.body) if v is not None else None
        if isinstance(x, list) and len(x) == 256 and all(isinstance(y, int) for y in x):
            T[n] = (x, v)
    if len(T) != 2:
        return
    a2e, e2a = T["a2e"][0], T["e2a"][0]
    for i in range(256):
        c.ob("character code", "%d -> %d" % (i, a2e[i]))
        if e2a[a2e[i]] != i:
            c.violate("inverse:%d" % i, T["a2e"][1].loc(), "character %d has EBCDIC code %d, which is converted back to %d" % (i, a2e[i], e2a[a2e[i]]))
    if len(set(e2a)) != 256:
        c.violate("inverse:e2a", T["e2a"][1].loc(), "two EBCDIC codes stand for the same character")
    # code page 037 and 1047 agree on these; 500 differs only in characters that are not listed
    inv = {" ": 0x40, ".": 0x4b, "<": 0x4c, "(": 0x4d, "+": 0x4e, "&": 0x50, "$": 0x5b, "*": 0x5c, ")": 0x5d, ";": 0x5e, "-": 0x60, "/": 0x61, ",": 0x6b, "%": 0x6c, "_": 0x6d,
           ">": 0x6e, "?": 0x6f, ":": 0x7a, "#": 0x7b, "@": 0x7c, "'": 0x7d, "=": 0x7e, '"': 0x7f}
    for i in range(9):
        inv["abcdefghi"[i]], inv["jklmnopqr"[i]] = 0x81 + i, 0x91 + i
        inv["ABCDEFGHI"[i]], inv["JKLMNOPQR"[i]] = 0xc1 + i, 0xd1 + i
    for i in range(8):
        inv["stuvwxyz"[i]], inv["STUVWXYZ"[i]] = 0xa2 + i, 0xe2 + i
    for i in range(10):
        inv[str(i)] = 0xf0 + i
    for ch, code in inv.items():
        c.ob("character code", "%r" % ch)
        if a2e[ord(ch)] != code:
            c.violate("code:%s" % ch, T["a2e"][1].loc(), "character %s has EBCDIC code %#x instead of %#x" % (ch, a2e[ord(ch)], code))


ATTR = NS + "context::data_attr_kind"
SA = NS + "context::symbol_attributes"


def attributes(c, p):
    V = Val(p)
    sh = short(p, ATTR)
    inv = {n: v for v, n in sh.items()}
    letters = [x for x in inv if len(x) == 1]
    f = p.fn(SA + "::transform_attr", required=False)
    if f is not None and f.params:
        c.seen(f)
        par = f.params[0]
        t = Tags(p, frozenset(ord(x) for x in letters), lambda n, k: n.k == "ref" and n.var is par, lambda n, k: None)
        for x in letters:
            vs = {V.of(n) for n in t.results(f, vname(par), ord(x))[0]}
            judge(c, "property of an attribute", "transform_attr", x, vs, x, f)
    for what, want in (("requires_ordinary_symbol", lambda x: int(x in "DLOSI")), ("is_ordinary_attribute", lambda x: int(x in "LIST")),
                       ("default_value", lambda x: 1 if x == "L" else 0), ("default_ca_value", lambda x: "U" if x in "TO" else 1 if x == "L" else 0)):
        r = results(c, p, SA + "::" + what, ATTR, V)
        for name, (vs, g) in (r or {}).items():
            if len(name) == 1 and not (what == "default_value" and name == "T"):
                judge(c, "property of an attribute", what, name, vs, want(name), g)
    g = p.fn(SA + "::get_attribute_value", required=False)
    if g is not None and g.params:
        c.seen(g)
        t = tagged(p, ATTR, g.params[0])
        for x, m in (("T", "type"), ("L", "length"), ("S", "scale"), ("I", "integer")):
            got = set()
            for n in t.results(g, vname(g.params[0]), inv[x])[0]:
                for y in sub(n):
                    if y.k in ("member", "mcall") and (y.cq if y.k == "mcall" else y.var.q if y.var is not None else "").startswith(SA + "::"):
                        got.add((y.cq if y.k == "mcall" else y.var.q).rsplit("::", 1)[-1].rstrip("_"))
            got &= {"type", "length", "scale", "integer"}
            if got:
                judge(c, "property of an attribute", "get_attribute_value", x, got if len(got) == 1 else {" or ".join(sorted(got))}, m, g)
    for h in p.funcs.values():
        if "/ca_symbol_attribute.cpp" in h.file and h.params and h.params[0].t.s.endswith("data_attr_kind") and len(h.params) == 1 and not h.q.startswith(SA):
            r = results(c, p, h.q, ATTR, V) if len(p.fns(h.q)) == 1 else None
            for name, (vs, g) in (r or {}).items():
                if len(name) == 1 and vs and all(isinstance(v, str) and v.endswith("_TYPE") for v in vs):
                    judge(c, "property of an attribute", "kind of value", name, vs, "C_TYPE" if name in "TO" else "A_TYPE", g)


LS = "hlasm_plugin::language_server::lsp::"
# which token type of the protocol shows which kind of text
TOKENS = ["class", "function", "comment", "event", "comment", "modifier", "keyword", "variable", "operator", "string", "number", "parameter", "regexp", "modifier", "modifier",
          "regexp", "parameter"]
CODES = {
    LS + "lsp_completion_item_kind": dict(text=1, method=2, function=3, constructor=4, field=5, variable=6, class_v=7, interface=8, module_v=9, property=10, unit=11, value=12,
                                          enum_v=13, keyword=14, snippet=15, color=16, file=17, reference=18, folder=19, enum_member=20, constant=21, struct_v=22, event=23,
                                          operator_v=24, type_parameter=25),
    NS + "completion_trigger_kind": dict(invoked=1, trigger_character=2, trigger_for_incomplete_completions=3),
    NS + "diagnostic_severity": dict(error=1, warning=2, info=3, hint=4),
    NS + "message_type": dict(MT_ERROR=1, MT_WARNING=2, MT_INFO=3, MT_LOG=4),
    LS + "feature_text_synchronization::text_document_sync_kind": dict(none=0, full=1, incremental=2),
}
SCOPES = ["label", "instruction", "remark", "ignored", "comment", "continuation", "seq_symbol", "var_symbol", "operator_symbol", "string", "number", "operand", "data_def_type",
          "data_def_modifier", "data_attr_type", "self_def_type", "ordinary_symbol"]


def strings(n):
    """strings of a tree in order of writing"""
    out, st = [], [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if x.k == "str" and x.s is not None:
            out.append(x.s)
        st += [y for y in reversed(x.ch)]
    return out


def legend(c, p):
    ev = Ev(p)
    V = Val(p)
    for q, want in CODES.items():
        if q not in p.enums:
            continue
        got = {n.rsplit("::", 1)[-1]: v for n, v in p.enums[q][0]}
        for n, v in want.items():
            if n in got:
                c.ob("code of the protocol", "%s::%s = %d" % (q.split("::")[-1], n, got[n]))
                if got[n] != v:
                    c.violate("code:%s:%s" % (q.split("::")[-1], n), "%s:%d" % (p.enums[q][1].replace("/repo/", ""), p.enums[q][2]), "%s::%s is sent as %d, the protocol says %d" % (q.split("::")[-1], n, got[n], v))
    hq = NS + "semantics::hl_scopes"
    scopes = {v: n.rsplit("::", 1)[-1] for n, v in p.enums[hq][0]} if hq in p.enums else {}
    for f in p.funcs.values():
        if not f.q.endswith("::register_capabilities"):
            continue
        tt = [n for n in f.nodes if n.k == "str" and n.s == "tokenTypes"]
        for n in tt:
            a = n.parent
            while a is not None and len(strings(a)) < 2:
                a = a.parent
            if a is None:
                continue
            ss = [s for s in strings(a) if s != "tokenTypes"]
            if len(ss) < 5 or "tokenModifiers" in ss:
                continue
            c.seen(f)
            if ss and scopes and len(ss) <= max(scopes):
                c.violate("legend:size", n.loc(), "the legend has %d token types, scopes go up to %d" % (len(ss), max(scopes)))
            want = dict(zip(SCOPES, TOKENS))
            for v, name in scopes.items():
                if v < len(ss) and name in want:
                    c.ob("entry of the legend", "%s -> %s" % (name, ss[v]))
                    if ss[v] != want[name]:
                        c.violate("legend:" + name, n.loc(), "%s is shown as %s instead of %s" % (name, ss[v], want[name]))
    # every kind of completion item has a code
    kq = NS + "completion_item_kind"
    for v in p.vars.values():
        if "completion_item_kind" in v.t.s and "map<" in v.t.s and kq in p.enums:
            t = V.norm(ev.ev(v.body))
            if not isinstance(t, tuple) or not all(isinstance(e, tuple) and len(e) == 2 for e in t):
                continue
            d = dict(t)
            want = dict(mach_instr="function", asm_instr="function", ca_instr="function", macro="file", var_sym="variable", seq_sym="reference")
            for n, _ in p.enums[kq][0]:
                n = n.rsplit("::", 1)[-1]
                c.ob("kind of completion item", "%s -> %s" % (n, d.get(n)))
                if n not in d:
                    c.violate("completion:" + n, v.loc(), "completion items of kind %s have no code of the protocol" % n)
                elif n in want and d[n] != want[n]:
                    c.violate("completion:" + n, v.loc(), "completion items of kind %s are shown as %s" % (n, d[n]))


def encoding(c, p):
    """five numbers per token, relative to the token sent before"""
    for f in p.funcs.values():
        if not f.file.endswith("feature_language_features.cpp") or not any("token_info" in q.t.s for q in f.params):
            continue
        loops = [n for n in f.nodes if n.k == "decl" and n.ch and any("token_info &" in f.unit.vd[d["d"]].t.s or f.unit.vd[d["d"]].t.s.replace("const ", "").endswith("token_info") for d in n.a["ds"])]
        arr = {n.ch[0].var for n in f.nodes if n.k == "mcall" and n.cq and n.cq.endswith("::push_back") and n.ch and n.ch[0] is not None and n.ch[0].k == "ref" and "json" in n.ch[0].t.s}
        if not arr:
            continue
        c.seen(f)
        bs = f.blocks
        # variables that remember the token before
        last = {v for v in defs(f) if v.kind == "local" and len(defs(f)[v]) > 1 and "token_info" in v.t.s}
        if not last:
            continue
        seen, work = set(), [(f.entry, 0, False)]
        where = None
        while work:
            b, n, u = work.pop()
            if (b, n, u) in seen or n > 12:
                continue
            seen.add((b, n, u))
            for e in bs[b].elems:
                if isinstance(e, tuple):
                    continue
                if e.k == "mcall" and e.cq and e.cq.endswith("::push_back") and e.ch and e.ch[0] is not None and e.ch[0].var in arr:
                    n += 1
                    where = where or e
                elif e.k in ("assign", "bin", "ocall") and e.op == "=" and strip(e.ch[0]).k == "ref" and strip(e.ch[0]).var in last:
                    u = True
                elif e.k == "decl" and any("token_info" in f.unit.vd[d["d"]].t.s and f.unit.vd[d["d"]] not in last for d in e.a["ds"]) and n + u:
                    report(c, f, where, n, u)
                    n, u = 0, False
            if b == f.exit:
                continue
            for s2 in bs[b].succ:
                if s2 >= 0:
                    work.append((s2, n, u))
        c.ob("encoding of semantic tokens", f.loc())


def report(c, f, where, n, u):
    if n not in (0, 5):
        c.violate("tokens:count", where.loc() if where is not None else f.loc(), "%d numbers are sent for a token, the protocol says 5" % n)
    elif n == 5 and not u:
        c.violate("tokens:last", where.loc(), "a token is sent without becoming the one the next is relative to")
