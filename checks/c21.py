"""C21  a statement cut short by a syntax error has no missing parts."""
import os, re
import grammar
from prog import strip
from paths import must
from mustdo import literals
import facts as F

D = "hlasm_plugin::parser_library::"
E, S = D + "expressions::", D + "semantics::"
POINT = S + "concatenation_point"


def untempl(q):
    return re.sub(r"<.*?>(?=::|$)", "", q)


def moved(n):
    """what an expression hands on: std::move and constructions from a pointer taken off"""
    n = strip(n)
    while n is not None:
        if n.is_call and n.callee is not None and n.callee.q in ("std::move", "std::forward") and n.args:
            n = strip(n.args[0])
        elif n.k == "ctor" and len([a for a in n.args if a is not None]) == 1:
            n = strip(n.args[0])
        else:
            return n
    return n


def bool_of(c):
    """the pointer whose presence a condition tests: (node, holds when present) or None"""
    n, pol = strip(c), True
    while n is not None:
        if n.k == "un" and n.op == "!":
            n, pol = strip(n.ch[0]), not pol
        elif n.k in ("bin", "ocall") and n.op in ("==", "!="):
            a = [strip(x) for x in n.ch if x is not None]
            if len(a) == 2 and any(x is not None and (x.k == "null" or "nullptr" in x.t.s) for x in a):
                o = next(x for x in a if not (x.k == "null" or "nullptr" in x.t.s))
                return o, pol == (n.op == "!=")
            return None
        elif n.k == "mcall" and n.callee is not None and n.callee.name in ("operator bool", "get"):
            n = strip(n.ch[0])
        else:
            return n, pol
    return None


def decls(n):
    return [(n.fn.unit.vd[d["d"]], c) for d, c in zip(n.a["ds"], n.ch)]


class NonNull:
    """does a function return a pointer that is never null?"""
    def __init__(self, p):
        self.p, self.memo = p, {}

    def fn(self, f, d=0):
        if f.usr not in self.memo:
            self.memo[f.usr] = False
            rets = [n for n in f.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
            self.memo[f.usr] = bool(rets) and all(self.ex(f, n.ch[0], n, d) for n in rets)
        return self.memo[f.usr]

    def ex(self, f, e, at, d):
        n = moved(e)
        if n is None or d > 3:
            return False
        if n.k == "cond":
            return all(self.ex(f, x, x, d) for x in n.ch[1:3])
        if n.k == "new":
            return True
        if n.is_call and n.callee is not None:
            if n.callee.q in ("std::make_unique", "std::make_shared"):
                return True
            t = self.p.targets(n)
            return bool(t) and all(self.fn(x, d + 1) for x in t)
        if n.k == "ref" and n.var is not None:
            v = n.var

            def step(x, val):
                if x.k == "ocall" and x.op == "=" and len(x.ch) == 2:
                    l = strip(x.ch[0])
                    if l is not None and l.k == "ref" and l.var is v:
                        return self.ex(f, x.ch[1], x, d + 1)
                if x.k == "decl":
                    for vv, init in decls(x):
                        if vv is v and init is not None:
                            return self.ex(f, init, x, d + 1)
                return val

            def edge(c, t):
                for x, tr in literals(c, t):
                    b = bool_of(x)
                    if b and b[0].k == "ref" and b[0].var is v and b[1] == tr:
                        return True
                return False
            m = must(f, False, step, edge)
            return m.get(n.id, False)
        return False


def check(c):
    p = c.p
    repo = F.REPO
    nn = NonNull(p)

    c.rule("a function that is trusted to supply a part never returns a null pointer; a constructor that accepts a missing "
           "part fills it in")
    suppliers = [f for f in p.funcs.values() if f.q == E + "mach_expression::assign_expr" and f.blocks]
    for f in suppliers:
        c.seen(f)
        c.ob("functions that supply what is missing", f.loc())
        if not nn.fn(f):
            c.violate("supply." + f.q, f.loc(), "%s may return a null pointer" % f.q)
    wrap = {}
    for f in p.funcs.values():
        if not f.cls or not re.match(re.escape(E) + r"mach_expr_\w+", f.cls) or not f.inits:
            continue
        base = untempl(f.cls).split("::")[-1]
        for fld, b, node, written in f.inits:
            if fld is None or node is None or not re.search(r"unique_ptr<.*mach_expression", fld.t.s):
                continue
            prm = [x for x in node.walk() if x.k == "ref" and x.var is not None and x.var.kind == "param" and re.search(r"unique_ptr", x.var.t.s)]
            if not prm:
                continue
            c.seen(f)
            ok = nn.ex(f, node, node, 0)
            wrap[base] = wrap.get(base, True) and ok
    c.rule("the actions of the grammar: after a syntax error a rule returns at once, and what it had not set yet is missing; "
           "nothing missing is handed to an object of the statement, dereferenced, or used through an element that was not matched")
    g = grammar.Analysis(os.path.join(repo, "parser_library/src/parsing/grammar"), repo)
    g.wrap = {k for k, v in wrap.items() if v}
    rep = g.run()
    for k, v in sorted(g.obs.items()):
        for x in sorted(v):
            c.ob(k, "%s:%d %s" % x)
    c.ob("rules of the grammar", "%d rules in %d files" % (len(g.rules), len(g.files)))
    for key, (file, line, msg) in sorted(rep.items()):
        c.violate("grammar.%s.%s" % key[1:], "%s:%d" % (file, line), msg)
    c.need("parts handed over", 100)
    c.need("elements of an alternative used", 200)

    c.rule("clear_concat_chain keeps a concatenation point only when it is there and is no variable symbol without a symbol")
    for f in [x for x in p.funcs.values() if x.q == POINT + "::clear_concat_chain" and x.blocks]:
        c.seen(f)
        c.ob("cleaning of chains", f.loc())
        chain(c, p, f)
    c.need("cleaning of chains", 1)

    c.rule("missing operands are replaced by empty ones before the statement is put together")
    for q, handover in ((S + "collector::extract_statement", re.compile(r"semantics::statement_si$")),
                        (D + "parsing::parser_impl::parse_operand_field", re.compile(r"semantics::operands_si$"))):
        for f in [x for x in p.funcs.values() if x.q == q and x.blocks]:
            c.seen(f)
            operands(c, p, f, handover)


def est(x, t, test):
    """does the condition x, having the value t, establish what test tells of single conditions?"""
    x = strip(x)
    if x is None:
        return False
    if test(x, t):
        return True
    if x.k == "un" and x.op == "!":
        return est(x.ch[0], not t, test)
    if x.k == "bin" and x.op in ("&&", "||"):
        r = [est(y, t, test) for y in x.ch]
        return any(r) if (x.op == "&&") == t else all(r)
    if x.k == "cond":
        return all(est(y, t, test) for y in x.ch[1:3])
    return False


def is_point(n):
    return n is not None and re.search(r"unique_ptr<.*concatenation_point", n.t.s) is not None


def bodies(p, f, d=0, seen=None):
    """f with its lambdas and the functions of the repository it calls"""
    seen = seen if seen is not None else {}
    if f is None or f.usr in seen or d > 2:
        return seen
    seen[f.usr] = f
    for n in f.nodes:
        if n.is_call:
            for t in p.targets(n):
                if t.file == f.file:
                    bodies(p, t, d + 1, seen)
        if n.k == "lambda":
            l = lambda_fn(p, n)
            if l is not None:
                bodies(p, l, d, seen)
    return seen


def lambda_fn(p, n):
    return p.funcs.get(n.callee.u) if n.callee is not None else None


def chain(c, p, f):
    fs = bodies(p, f)
    keep = []
    for n in f.nodes:
        if n.k == "ocall" and n.op == "=" and len(n.ch) == 2 and is_point(strip(n.ch[0])):
            keep.append((n, n.ch[1]))
        elif n.k == "mcall" and n.callee is not None and n.callee.name in ("push_back", "emplace_back") and n.args and is_point(moved(n.args[-1])):
            keep.append((n, n.args[-1]))

    def present(x, t):
        b = bool_of(x)
        return b is not None and is_point(b[0]) and b[1] == t

    def usable(x, t):
        b = bool_of(x)
        if b is not None and b[0].k == "member" and b[0].var is not None and b[0].var.q.endswith("var_sym_conc::symbol"):
            return b[1] == t
        x = strip(x)
        if x is not None and x.k == "bin" and x.op in ("==", "!=") and any(y.k == "ref" and y.var is not None and y.var.q.endswith("concat_type::VAR") for y in x.walk()):
            return (x.op == "==") != t
        return False
    if keep:
        for what, test in (("a missing point", present), ("a variable symbol without a symbol", usable)):
            m = must(f, False, lambda n, v: v, lambda cc, t: est(cc, t, test))
            for n, _ in keep:
                if not m.get(n.id, False):
                    c.violate("chain." + what, n.loc(), "%s may keep %s" % (f.q, what))
        return
    nodes = [n for g in fs.values() for n in g.nodes]
    if not any(bool_of(n) is not None and is_point(bool_of(n)[0]) for n in nodes if n.k == "mcall" or n.k in ("bin", "ocall")):
        c.violate("chain.a missing point", f.loc(), "%s does not test whether a point is there" % f.q)
    if not any(n.k == "member" and n.var is not None and n.var.q.endswith("var_sym_conc::symbol") for n in nodes):
        c.violate("chain.a variable symbol without a symbol", f.loc(), "%s does not look at the symbol of a variable symbol" % f.q)


def is_operand(n):
    return n is not None and re.search(r"unique_ptr<.*semantics::operand[ >]", n.t.s) is not None


def supplies(a, top):
    """the node a gives an operand that is missing a value"""
    if a.k == "ocall" and a.op == "=" and len(a.ch) == 2 and is_operand(strip(a.ch[0])):
        r = moved(a.ch[1])
        if r is not None and r.is_call and r.callee is not None and r.callee.q == "std::make_unique":
            return guarded_by_absence(a, top)
    return False


def fills(p, f, d=0):
    """loops of f that give every missing operand a value: list of the nodes that stand for them"""
    out = []
    for n in f.nodes:
        if n.k in ("for", "rfor", "while", "do"):
            for a in n.walk():
                ok = supplies(a, n)
                if not ok and a.is_call:
                    ok = any(any(is_operand_type(v.t.s) for v in t.params) and any(supplies(x, None) for x in t.nodes) for t in p.targets(a)) \
                        and guarded_by_absence(a, n)
                if ok and whole(n):
                    out.append(n)
        if n.is_call and d < 2:
            for t in p.targets(n):
                if t.usr != f.usr and any(re.search(r"vector<.*semantics::operand|op_rem|operand_list", v.t.s) for v in t.params) and fills(p, t, d + 1):
                    out.append(n)
            if n.callee is not None and n.callee.q in ("std::for_each", "std::transform", "std::ranges::for_each"):
                for a in n.args:
                    for x in (a.walk() if a is not None else ()):
                        l = lambda_fn(p, x) if x.k == "lambda" else None
                        if l is not None and any(supplies(y, None) for y in l.nodes):
                            out.append(n)
    return out


def is_operand_type(s):
    return re.search(r"unique_ptr<.*semantics::operand[ >]", s) is not None


def guarded_by_absence(a, loop):
    """the assignment happens for every operand that is missing: only the absence of the operand itself decides it"""
    ok = True
    child = a
    for x in a.up():
        if x is loop:
            break
        if x.k == "if":
            ch = [y for y in x.ch]
            cond = next((y for y in ch if y is not None and y.t.s == "bool"), None)
            b = bool_of(cond) if cond is not None else None
            then = None
            if b is None or not is_operand(b[0]):
                ok = False
            else:
                then = next((i for i, y in enumerate(ch) if y is child), None)
                # children of an if: init, variable, condition, then, else
                positive = then is not None and then == len(ch) - 2
                if b[1] == positive:
                    ok = False
        elif x.k in ("switch", "cond"):
            ok = False
        child = x
    return ok


def whole(n):
    """the loop runs over the whole list"""
    if n.k != "for":
        return True
    init = n.ch[0]
    if init is None or init.k != "decl":
        return True
    v = [x for _, x in decls(init) if x is not None]
    for x in v:
        y = strip(x)
        if y is not None and y.v is not None and y.v != 0:
            return False
    return True


def operands(c, p, f, handover):
    loops = fills(p, f)
    hand = [n for n in f.nodes if (n.k == "ctor" and n.t is not None and handover.search(n.t.s.replace("const ", ""))
            and len([a for a in n.args if a is not None]) > 1)
            or (n.is_call and n.callee is not None and n.callee.q in ("std::make_shared", "std::make_unique") and re.search(handover.pattern.replace("$", r">?$"), n.t.s))]
    ids = set()
    for l in loops:
        if l.is_call:
            ids.add(l.id)
        else:
            for part in l.ch[:-1]:
                if part is not None:
                    ids |= {x.id for x in part.walk()}
    m = must(f, False, lambda n, v: v or n.id in ids, lambda cc, t: False)
    for n in hand:
        c.ob("statements put together", n.loc())
        if not m.get(n.id, False):
            c.violate("operands." + f.q, n.loc(),
                      "%s puts operands into a statement without replacing the missing ones" % f.q)
