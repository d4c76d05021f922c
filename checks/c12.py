"""C12  every part of an expression or operand takes part in dependency resolution, attribute lookahead, location counter
substitution and the search for symbol occurrences."""
import re
from prog import strip
import prov
from mustdo import MustDo
from traverse import Traverse, owned, methods, untempl

D = "hlasm_plugin::parser_library::"
E, S = D + "expressions::", D + "semantics::"
THROUGH = {E + "nominal_value_t", E + "address_nominal", S + "variable_symbol", E + "data_definition"}
# parts that are no expressions to be evaluated
NOT_PART = {
    (E + "mach_expr_symbol::len_expr", "*"): "never evaluated: an unused companion of the symbol",
    (E + "data_definition::program_type", "get_dependencies"): "the program type is never evaluated",
    (E + "data_definition::nominal_value", "get_dependencies"): "symbols of V-type constants are external (tested by another rule)",
}


CREATED = S + "created_variable_symbol::created_name"
MAY_DECIDE = {"created", "type", "created_name", "kind", "symbol"}


def created_visit(p, T, f, d=0):
    """does f visit every variable symbol in the created name?  A visit of only their subscripts does not count, nor one that
    something else than the kind of the point decides."""
    for n in f.nodes:
        for e in T.visit(n) or ():
            if "f:" + CREATED not in T.fields(e) and not (d and T.fields(e)):
                continue
            if strip(e) is None or not re.search("variable_symbol|concat|var_sym_conc", strip(e).t.s):
                continue
            bad = False
            for a in n.up():
                if a.k in ("if", "cond"):
                    for x in (a.ch[0].walk() if a.ch and a.ch[0] is not None else ()):
                        if x.k == "member" and x.var is not None and x.var.q.split("::")[-1] not in MAY_DECIDE:
                            bad = True
            if not bad:
                return True
        if d < 2 and n.is_call and not T.visit(n):
            if any("f:" + CREATED in T.fields(a) for a in n.args if a is not None) or d:
                if any(created_visit(p, T, t, d + 1) for t in T.descend(n)):
                    return True
    return False


def check(c):
    p = c.p
    bases = {E + "ca_expression", E + "mach_expression"}
    nodes = set(bases)
    for b in bases:
        nodes |= p.derived(b)
    mach = {E + "mach_expression"} | p.derived(E + "mach_expression")
    ca = {E + "ca_expression"} | p.derived(E + "ca_expression")
    operands = {S + "operand"} | p.derived(S + "operand") | {S + "simple_expr_operand"}
    extra = {E + "data_definition", E + "nominal_value_exprs", E + "address_nominal"}

    def walk(method, classes, rule, visit, exempt=(), shortcut=False, also=()):
        c.rule(rule)
        T = Traverse(p, visit, shortcut=shortcut)
        for k in sorted(classes):
            own = [(a, l) for a, l in owned(p, k, nodes | set(also), 0, THROUGH)]
            if not own:
                continue
            for f in methods(p, k, method):
                if not f.blocks:
                    continue
                c.seen(f)
                miss = {(a.q, l.q) for a, l in T.missed(f, own)}
                for a, l in own:
                    if any((q, m) in NOT_PART for q in (untempl(a.q), untempl(l.q)) for m in ("*", method)):
                        continue
                    c.ob(method, "%s of %s.%s" % (method, untempl(k), l.name))
                    if (a.q, l.q) in miss:
                        c.violate("%s.%s.%s" % (method, untempl(k), l.name), f.loc(),
                                  "%s does not reach the part %s%s on every path on which it is there" % (
                                      untempl(f.q), a.name, "" if a is l else " / " + l.name))

    def named(*names, args=False):
        def visit(n):
            if n.k not in ("mcall", "call") or n.callee is None:
                return None
            if n.callee.name.split("<")[0] not in names:
                return None
            if n.k == "mcall" and n.ch[0] is not None and strip(n.ch[0]).k != "this":
                return [n.ch[0]]
            if args or n.k == "call":
                r = [a for a in n.args if a is not None]
                return r or None
            return None
        return visit

    walk("get_dependencies", mach | extra | {S + "data_def_operand"},
         "get_dependencies of an expression visits every sub-expression it owns on every path on which it is there",
         named("get_dependencies"), also={E + "data_definition", E + "address_nominal"})
    for m in ("has_dependencies", "has_error"):
        walk(m, operands, "%s of an operand asks every expression the operand owns unless one already decided" % m,
             named("get_dependencies", m), shortcut=True, also={E + "data_definition"})
    walk("fill_location_counter", mach, "fill_location_counter visits every sub-expression", named("fill_location_counter"))
    walk("assign_location_counter", extra, "the location counter is given to every expression of a data definition",
         named("fill_location_counter", "assign_location_counter"))
    walk("get_undefined_attributed_symbols", ca | operands,
         "the search for undefined attributed symbols visits every sub-expression and subscript",
         named("get_undefined_attributed_symbols", "get_undefined_attributed_symbols_vs", args=True),
         also={S + "variable_symbol", S + "concatenation_point"})
    Tv = Traverse(p, named("get_undefined_attributed_symbols", "get_undefined_attributed_symbols_vs", args=True))
    for f in methods(p, E + "ca_var_sym", "get_undefined_attributed_symbols_vs"):
        c.seen(f)
        for q in (S + "variable_symbol::subscript", S + "created_variable_symbol::created_name"):
            c.ob("get_undefined_attributed_symbols_vs", q)
            if "f:" + q not in Tv.all_inside(f) or (q.endswith("subscript") and "f:" + q not in Tv.done(f)) or \
                    (q == CREATED and not created_visit(p, Tv, f)):
                c.violate("get_undefined_attributed_symbols_vs." + q.split("::")[-1], f.loc(),
                          "%s does not reach the %s of the variable symbol" % (f.q, q.split("::")[-1]))
    walk("apply", mach | {E + "ca_binary_operator", E + "ca_unary_operator"} | p.derived(E + "ca_binary_operator") | p.derived(E + "ca_unary_operator"),
         "operators pass the visitor to every operand", named("apply"))

    # nominal value of every constant but V: one path may skip it, and that path must depend on the type
    f = next(iter(methods(p, E + "data_definition", "get_dependencies")), None)
    if f is not None:
        T = Traverse(p, named("get_dependencies"))
        c.ob("get_dependencies", "data_definition.nominal_value")
        got = set()
        for n in f.nodes:
            if n.is_call:
                for a in n.ch:
                    if a is not None:
                        got |= T.fields(a)
        if "f:" + E + "data_definition::nominal_value" not in got:
            c.violate("get_dependencies.data_definition.nominal_value", f.loc(),
                      "data_definition::get_dependencies does not visit the nominal value")

    # visitors: every visit(const X&) reaches the parts of X
    c.rule("a visitor's visit(X) passes itself to every expression X owns, or collects from every variable symbol and concatenation X owns")
    vis = p.derived(E + "mach_expr_visitor") | p.derived(E + "ca_expr_visitor")  # others only look at the operand itself
    parts = nodes | {S + "variable_symbol", S + "seq_sym", S + "concatenation_point"}

    def visit(n):
        if n.k not in ("mcall", "call") or n.callee is None:
            return None
        if n.callee.name == "apply" and n.k == "mcall":
            return [n.ch[0]]
        if (n.callee.cls or "") in vis and n.k == "mcall":
            return [a for a in n.args if a is not None]
        return None
    T = Traverse(p, visit)
    for v in sorted(vis):
        r = p.recs.get(v)
        for f in methods(p, v, "visit"):
            if not f.params or not f.blocks or f.cls != v:
                continue
            x = f.params[0].t.rec
            own = owned(p, x, parts, 0, THROUGH)
            c.seen(f)
            d = T.done(f)
            miss = T.missed(f, own)
            for a, l in own:
                if any((untempl(q), "*") in NOT_PART for q in (a.q, l.q)):
                    continue
                c.ob("visitor parts", "%s: %s.%s" % (f.q, x, l.name))
            for a, l in miss:
                if any((untempl(q), "*") in NOT_PART for q in (a.q, l.q)):
                    continue
                c.violate("visit.%s.%s.%s" % (v, x, l.name), f.loc(),
                          "%s(%s) does not reach the part %s%s" % (f.q, x, a.name, "" if a is l else " / " + l.name))
            # symbols named directly
        for f in methods(p, v, "visit") + methods(p, v, "get_occurence"):
            pass
    # a variable symbol's own parts
    c.rule("collecting from a variable symbol reaches its subscripts and, when it is created, its name")
    vs = [f for v in vis for f in p.funcs.values() if f.cls == v and f.params and f.params[0].t.rec == S + "variable_symbol" and f.blocks]
    for f in vs:
        c.seen(f)
        ins = T.all_inside(f)
        d = T.done(f)
        for q in (S + "variable_symbol::subscript", S + "created_variable_symbol::created_name"):
            c.ob("variable symbol parts", q)
            if "f:" + q not in ins or (q.endswith("subscript") and "f:" + q not in d) or (q == CREATED and not created_visit(p, T, f)):
                c.violate("visit.variable_symbol." + q.split("::")[-1], f.loc(),
                          "%s does not reach the %s of a variable symbol" % (f.q, q.split("::")[-1]))
    # statements: label, instruction and operands
    c.rule("the search for occurrences visits the label, the instruction and the operands of a statement on every path, and every form of label")
    L = D + "processing::lsp_analyzer::"
    OC = D + "processing::occurence_collector"

    def ev(n):
        if n.is_call and n.callee is not None and n.callee.name in ("label_ref", "instruction_ref", "operands_ref", "deferred_ref"):
            return {{"operands_ref": "operands", "deferred_ref": "operands"}.get(n.callee.name, n.callee.name[:-4])}
        return ()
    M = MustDo(p, ev)
    for f in p.fns(L + "collect_occurences"):
        c.seen(f)
        done = M.summary(f)
        for w in ("label", "instruction", "operands"):
            c.ob("parts of a statement", w)
            if w not in done:
                c.violate("statement." + w, f.loc(), "%s does not collect occurrences from the %s of the statement on every path" % (f.q, w))
    want = {S + "label_si": ("get_occurence(concat_chain)", "get_occurence(seq_sym)", "get_occurence(name)", "get_occurence(variable_symbol)"),
            S + "instruction_si": ("get_occurence(concat_chain)", "emplace"), S + "operands_si": ("apply",),
            S + "deferred_operands_si": ("get_occurence(variable_symbol)",)}

    def kind_of(n):
        q, cl = n.callee.name, n.callee.cls or ""
        if q == "get_occurence" and cl == OC and n.args:
            t = next((g.params[0].t for g in p.targets(n) if g.params), n.args[0].t)
            r = (t.rec or "").split("<")[0]
            if r == S + "variable_symbol" or r == S + "seq_sym":
                return "get_occurence(%s)" % r.split("::")[-1]
            if "vector" in (t.rec or t.s):
                return "get_occurence(concat_chain)"
            return "get_occurence(name)"
        return "apply" if q == "apply" else "emplace" if q in ("emplace_back", "push_back", "emplace", "insert") else None
    for f in p.fns(L + "collect_occurence"):
        r = f.params[0].t.rec if f.params else None
        if r not in want:
            continue
        c.seen(f)
        mine = {u for u in p.reach([f], stop=lambda g: not g.q.startswith(L)) if p.funcs[u].q.startswith(L)}
        for g in p.funcs.values():
            o = g
            while o.parent is not None and o.parent in p.funcs:
                o = p.funcs[o.parent]
            if o.usr in mine:
                mine.add(g.usr)
        got = {kind_of(n) for u in mine for n in p.funcs[u].nodes if n.is_call and n.callee is not None}
        for w in want[r]:
            c.ob("forms of statement parts", r + " " + w)
            if w not in got:
                c.violate("part.%s.%s" % (r.split("::")[-1], w), f.loc(), "%s(%s) never reaches %s" % (f.q, r, w))
    c.need("parts of a statement", 3)
    c.need("get_dependencies", 10)
    c.need("has_dependencies", 6)
    c.need("fill_location_counter", 3)
    c.need("get_undefined_attributed_symbols", 10)
    c.need("visitor parts", 15)
    c.need("variable symbol parts", 2)
