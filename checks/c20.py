"""C20  absent results are never used: lookups, optionals and nullable pointers are tested before they are dereferenced."""
import os, re
from collections import defaultdict
from facts import AnalysisError
from prog import strip, strip_all
from flow import canon, vname
from prov import defs
import absent

PL = "hlasm_plugin::parser_library::"
LS = "hlasm_plugin::language_server::"

# accessors that return nothing for a reason excluded long before: the processing format of the statement fixes the kind of its
# operands, and the instruction the type of the SET symbol
KNOWN_KIND = {PL + "context::hlasm_statement::access_resolved", PL + "context::hlasm_statement::access_deferred",
              PL + "semantics::operand::access_ca", PL + "semantics::operand::access_asm", PL + "semantics::operand::access_mac",
              PL + "semantics::operand::access_data_def", PL + "semantics::operand::access_mach",
              PL + "context::set_symbol_base::access_set_symbol"}
PR = PL + "processing::"
# the processors that get only statements of their format: there the kind of the operands is known. A definition (macro, copy
# member) and a lookahead read statements that may have been processed before in any format.
KIND_OWNER = {PL + "semantics::operand::access_ca": (PR + "ca_processor::",), PL + "semantics::operand::access_mac": (PR + "macro_processor::",),
              PL + "semantics::operand::access_asm": (PR + "asm_processor::", PR + "lookahead_processor::assign_EQU_attributes"),
              PL + "semantics::operand::access_data_def": (PR + "asm_processor::", PR + "data_def_postponed_statement"),
              PL + "semantics::operand::access_mach": (PR + "mach_processor::",)}
# (source, function that uses it): presence follows from an invariant of the tables
INVARIANT = {
    (PL + "workspaces::file_manager_impl::find_processor_file", PL + "workspace_manager::impl::semantic_tokens"): "the same file was found one line above",
    (PL + "checking::data_definition_operand::check_type_and_extension", PL + "checking::data_definition_operand::check"): "present when the accompanying flag is true",
    (PL + "checking::get_simple_operand", PL + "checking::alias::check"): "tested in the try block whose handler uses it",
    (PL + "checking::get_simple_operand", PL + "checking::end::check"): "the operand is complex or simple, and was found not complex",
    (PL + "checking::get_simple_operand", PL + "checking::external::check"): "the operand is complex or simple, and was found not complex",
    (PL + "checking::get_simple_operand", PL + "checking::ictl::check"): "every operand was tested by the loop above",
    (PL + "context::location_counter_data::fist_space", PL + "context::location_counter::restore_from_unresolved_value"): "an unresolved value has a space",
    (PL + "context::sequence_symbol::access_opencode_symbol", PL + "processing::processing_manager::jump_in_statements"): "not in a macro",
    (PL + "context::sequence_symbol::access_opencode_symbol", PL + "processing::processing_manager::register_sequence_symbol"): "not in a macro",
    (PL + "context::variable_symbol::access_set_symbol_base", PL + "processing::ca_processor::test_symbol_for_assignment"): "macro parameters excluded",
    (PL + "expressions::ca_expr_list::retrieve_term", PL + "expressions::ca_expr_list::resolve"): "the list is not empty",
    (PL + "expressions::nominal_value_t::access_exprs", PL + "expressions::data_definition::get_single_symbol_names"): "type R has expressions",
    (PL + "semantics::ca_operand::access_expr", PL + "processing::ca_processor::prepare_ACTR"): "operand kind VAR arises for GBL and LCL only",
    (PL + "semantics::ca_operand::access_expr", PL + "processing::ca_processor::prepare_SET_operands"): "operand kind VAR arises for GBL and LCL only",
    (PL + "semantics::concatenation_point::access_str", PL + "processing::macro_processor::get_keyword_arg"): "is_keyword saw a string",
    (PL + "semantics::concatenation_point::access_sub", PL + "processing::create_macro_data_inner"): "the size and type were tested",
    (PL + "semantics::concatenation_point::access_var", PL + "processing::occurence_collector::get_occurence"): "the variable point has a variable",
    (PL + "semantics::macro_operand::access_chain", PL + "processing::macro_processor::get_operand_args"): "operands of a resolved macro call are chains",
    (PL + "semantics::macro_operand::access_chain", PL + "processing::macrodef_processor::process_prototype_operand"): "operands of a prototype are chains",
}
# ... which the following tests establish: they must still be made on every path to the use (fact, value)
GUARD = {
    PL + "workspace_manager::impl::semantic_tokens": (r"^T:dyn<.*processor_file", True),
    PL + "checking::external::check": (r"^T:.*is_operand_complex\(", False),
    PL + "processing::processing_manager::jump_in_statements": (r"^Q:=1==.*\.kind$", False),
    PL + "processing::ca_processor::prepare_SET_operands": (r"^Q:.*\.type===6$", False),
    PL + "processing::macro_processor::get_operand_args": (r"^Q:.*\.type===6$", False),
    PL + "processing::macrodef_processor::process_prototype_operand": (r"^Q:.*\.type===6$", False),
    PL + "processing::occurence_collector::get_occurence": (r"^Q:.*\.type===1$", True),
}
INVARIANT_SRC = {  # source -> prefixes of classes that may rely on presence
    PL + "context::ordinary_assembly_context::get_symbol": (PL + "context::resolve_dependant_", PL + "context::symbol_dependency_tables"),
}
SEARCH_INV = (PL + "context::hlasm_context::add_", PL + "context::resolve_dependant_visitor::operator()",
              PL + "lsp::lsp_context::find_hover")
# fields that may be empty at run time
FIELDS = {
    LS + "dap::dap_feature": ["disconnect_listener_", "debugger"], LS + "message_router": ["default_route"],
    LS + "request_manager": ["cancel_"],
    PL + "processing::rebuilt_statement": ["rebuilt_label", "rebuilt_operands"], PL + "diagnostic_collector": ["diagnoser_"],
    PL + "debugging::debugger::impl": ["event_"], PL + "debugging::set_symbol_variable": ["index_"],
    PL + "debugging::variable": ["value_", "name_"], PL + "diagnostic_adder": ["s_diagnoser_", "op_diagnoser_"],
    PL + "expressions::ca_function": ["duplication_factor"], PL + "expressions::ca_string": ["duplication_factor"],
    PL + "expressions::data_definition": ["dupl_factor", "program_type", "length", "scale", "exponent"],
    PL + "expressions::mach_expr_location_counter": ["location_counter"], PL + "lexing::lexer": ["src_proc_"],
    PL + "parsing::parser_error_listener_ctx": ["substituted_"], PL + "parsing::parser_impl": ["rest_parser_"],
    PL + "processing::context_manager": ["eval_ctx_"], PL + "semantics::collector": ["def_"],
    PL + "semantics::address_machine_operand": ["first_par"], PL + "workspace_manager::impl": ["cancel_"],
    PL + "workspaces::processor_file_impl": ["cancel_", "analyzer_"], PL + "workspaces::workspace": ["message_consumer_", "cancel_"],
    PL + "lsp::lsp_context": ["opencode_"],
}
# the open code exists whenever a symbol occurrence does; completion needs no occurrence
OPENCODE_ONLY_FROM = PL + "lsp::lsp_context::completion"


def outermost(p, f):
    while f.parent is not None and f.parent in p.funcs:
        f = p.funcs[f.parent]
    return f


_KNOWN = set(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "functions.txt")).read().splitlines())


def within(p, f, pred, d=0):
    """f satisfies pred, or is a helper (not one of the functions the exceptions were written for) that only such functions call."""
    if pred(f):
        return True
    if d > 2 or f.q in _KNOWN:
        return False
    cs = {outermost(p, g).usr: outermost(p, g) for g, _ in p.callers().get(f.usr, ())}
    cs.pop(f.usr, None)
    return bool(cs) and len(cs) <= 3 and all(within(p, g, pred, d + 1) for g in cs.values())


def check(c):
    p = c.p
    c.rule("must-dataflow of presence tests: every dereference of the result of a search (find, find_if, lower_bound ...), of a "
           "function that returns null or nullopt on some path, or of a field that may be empty is dominated on every path by a "
           "test that it is there (or by an assignment of something that is)")
    mn = absent.may_null_functions(p)
    if len(mn) < 40:
        raise AnalysisError("only %d functions that can return nothing were recognised" % len(mn))

    def maynull(n):
        if n.k == "ctor":
            return False
        return any(t.usr in mn for t in p.targets(n))
    fields = {q + "::" + x: (q, x) for q, xs in FIELDS.items() for x in xs}
    have = {x.q for r in p.recs_by_usr.values() for x in r.fields}
    V = absent.Valid(p, maynull)
    nc = absent.null_components(p)
    oc = set(p.reach(p.fns(OPENCODE_ONLY_FROM)))

    def src_of(s, f):
        if absent.search_source(s) is not None:
            return "search", "search in " + (s.cq or "?")
        if s.is_call and maynull(s):
            return "call", s.cq
        if s.k == "ref" and s.var is not None and s.var.kind == "bind":
            init, i = absent.bindings(f).get(s.var, (None, 0))
            t = strip(init) if init is not None else None
            if t is not None and t.is_call and any(i in nc.get(x.usr, ()) for x in p.targets(t)):
                return "call", t.cq
        if s.k == "ref" and s.var is not None:
            for d in defs(f).get(s.var, ()):
                t = strip(d)
                if t is None:
                    continue
                if s.var.kind == "local" and (t.k == "null" or (t.k == "dyncast" and t.t.ptr)):
                    return "local", s.var.q
                if absent.search_source(t) is not None:
                    return "search", t.cq
                if t.is_call and maynull(t):
                    return "call", t.cq
        if s.k == "member" and s.var is not None and s.var.q in fields:
            return "field", s.var.q
        return None, None

    for f in p.src_funcs():
        cands = []
        for use, op in absent.derefs(f):
            s = strip(op)
            if s is None:
                continue
            kind, src = src_of(s, f)
            if kind is None:
                continue
            cands.append((use, s, kind, src))
        if not cands:
            continue
        outer = outermost(p, f)
        vf = V.of(f)
        for use, s, kind, src in cands:
            if use.id not in vf.at:
                continue
            if kind == "call":
                base = re.sub(r"<.*>(?=::)", "", src)
                if base in KNOWN_KIND and (base not in KIND_OWNER or within(p, outer, lambda g: any(g.q.startswith(x) for x in KIND_OWNER[base]))):
                    continue
                if within(p, outer, lambda g: (src, g.q) in INVARIANT):
                    gd = GUARD.get(outer.q)
                    if gd is None or any(re.search(gd[0], x) and y is gd[1] for x, y in vf.at[use.id].items()):
                        continue
                if within(p, outer, lambda g: any((g.cls or "").startswith(x) for x in INVARIANT_SRC.get(src, ()))):
                    continue
            elif kind == "local":
                if within(p, outer, lambda g: g.q.startswith(PL + "parsing::parser_error_listener_base::")):
                    continue
            elif kind == "search":
                if within(p, outer, lambda g: any(g.q.startswith(x) for x in SEARCH_INV)):
                    continue
            else:
                cls = outer.cls or ""
                if src.endswith("::opencode_") and outer.usr not in oc:
                    continue
                if (outer.name.split("<")[0] == cls.rsplit("::", 1)[-1]):
                    continue
            c.ob({"search": "uses of search results", "call": "uses of results that may be absent", "local": "uses of local pointers that may be null", "field": "uses of fields that may be empty"}[kind], use.loc())
            c.seen(f)
            facts = vf.at[use.id]
            k = canon(s)
            if k is not None and (facts.get("NE:" + k) or facts.get("T:" + k)):
                continue
            if kind == "call" and s.is_call and absent.present_by_kind(p, s, facts):
                continue
            c.violate("%s of %s in %s" % (kind, src, outer.q), use.loc(),
                      "%s uses the result of %s, which may be absent, without testing it on every path" % (outer.q, src))
    for q in fields:
        if q in have:
            c.ob("nullable fields", q)
    c.need("uses of search results", 40)
    c.need("uses of results that may be absent", 40)
    c.need("uses of fields that may be empty", 30)
