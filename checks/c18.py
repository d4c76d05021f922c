"""C18  every analysis comes to an end and can be cancelled."""
import os, re
from prog import strip
from flow import branch_cond, canon, norm_cond
from prov import defs
from mustdo import MustDo, literals
from facts import AnalysisError

D = "hlasm_plugin::parser_library::"
P, C = D + "processing::", D + "context::"
KNOWN = set(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "functions.txt")).read().splitlines())
FORWARD = P + "processing_manager::start_lookahead"      # continues where the lookahead before it stopped: only forward
BACK = P + "processing_manager::finish_lookahead"        # returns to where the lookahead was started
# analysis without a flag: the debugger's analysis of libraries, which checks its own flag between statements
NO_FLAG = {D + "workspaces::processor_file_impl::parse_no_lsp_update", D + "parser_library::parse"}


def target(n):
    """the lvalue a node writes, and how"""
    if n.k == "un" and n.op in ("++", "--"):
        return strip(n.ch[0]), n.op
    if n.k in ("assign", "ocall", "bin") and n.op in ("=", "+=", "-=") and n.ch:
        return strip(n.ch[0]), n.op
    return None, None


def field(n, name):
    return n is not None and n.k == "member" and n.var is not None and n.var.q.rsplit("::", 1)[-1] == name


def mentions(n, pred):
    return n is not None and any(pred(x) for x in n.walk())


def calls(n, *names):
    return n is not None and n.is_call and n.callee is not None and n.callee.name in names


def between(f, start, goal, hit=lambda n: False, edge=lambda x, t: False):
    """is there a path from start (a node, a block id, or None for the entry) to a node satisfying goal (None: the normal exit)
    without passing a node with hit or a branch with edge?"""
    bs = f.blocks
    seen, st = set(), []
    if start is None:
        st.append((f.entry, 0))
    elif isinstance(start, int):
        st.append((start, 0))
    else:
        st += [(b.id, i + 1) for b in bs.values() for i, e in enumerate(b.elems) if not isinstance(e, tuple) and e is start]
    while st:
        bid, i = st.pop()
        if (bid, i) in seen:
            continue
        seen.add((bid, i))
        b, stop = bs[bid], False
        for e in b.elems[i:]:
            if isinstance(e, tuple):
                continue
            if goal is not None and goal(e):
                return True
            if e.k == "throw" or hit(e):
                stop = True
                break
        if stop:
            continue
        if b.id == f.exit:
            if goal is None:
                return True
            continue
        if b.nr:
            continue
        c = branch_cond(b) if len(b.succ) == 2 and b.tk not in ("CXXTryStmt", "SwitchStmt") else None
        for k, s in enumerate(b.succ):
            if s < 0 or (c is not None and any(edge(x, t) for x, t in lits(f, c, k == 0))):
                continue
            st.append((s, 0))
    return False


def lits(f, c, val, d=0):
    """conditions known on an edge; a boolean local stands for what it was computed from"""
    for x, t in literals(c, val):
        yield x, t
        s = strip(x)
        if d < 3 and s is not None and s.k == "ref" and s.var is not None and s.var.kind == "local" and s.var.t.s in ("bool", "const bool"):
            ds = defs(f).get(s.var, [])
            if len(ds) == 1 and ds[0] is not None:
                yield from lits(f, ds[0], t, d + 1)


def compare(x, t):
    """(left, operator, right) that holds when the comparison x has truth t"""
    s = strip(x)
    if s is None or s.k not in ("bin", "ocall") or s.op not in ("<", ">", "<=", ">=", "==", "!=") or len(s.ch) != 2:
        return None
    op = s.op if t else {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[s.op]
    return strip(s.ch[0]), op, strip(s.ch[1])


def sides(x, t):
    r = compare(x, t)
    if r is None:
        return
    a, op, b = r
    yield a, op, b
    yield b, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op], a


def check(c):
    p = c.p

    # ---- the counter of branches
    c.rule("the branch counter of a scope is only counted down, or set anew together with the count of such settings, which only grows")

    def ev(n):
        out = set()
        l, op = target(n)
        if field(l, "branch_counter") and (op == "--" or (op == "-=" and strip(n.ch[1]).v is not None and strip(n.ch[1]).v > 0)):
            out.add("dec")
        if field(l, "branch_counter_change") and (op == "++" or (op == "+=" and strip(n.ch[1]).v is not None and strip(n.ch[1]).v > 0)):
            out.add("change")
        if field(l, "current_statement") and (op == "++" or (op == "+=" and strip(n.ch[1]).v is not None and strip(n.ch[1]).v > 0)):
            out.add("adv")
        if field(l, "finished_flag_") and op == "=" and strip(n.ch[1]).v == 1:
            out.add("fin")
        if calls(n, "pop_back") and field(strip(n.ch[0]), "scope_stack_"):
            out.add("leave")
        if calls(n, "pop_back") and field(strip(n.ch[0]), "copy_stack"):
            out.add("leave copy")
        if calls(n, "pop_back") and field(strip(n.ch[0]), "proc_stack_"):
            out.add("pop")
        if calls(n, "pop_back") and field(strip(n.ch[0]), "procs_"):
            out.add("drop")
        if calls(n, "emplace_back", "push_back") and field(strip(n.ch[0]), "proc_stack_"):
            out.add("push")
        if calls(n, "emplace_back", "push_back") and field(strip(n.ch[0]), "procs_"):
            out.add("start")
        if calls(n, "end_processing"):
            out.add("end")
        if calls(n, "add_symbol_reference"):
            out.add("reg")
        if n.is_call and n.callee is not None and n.callee.name in ("finish_lookahead",):
            out.add("handed")
        return out

    def outcome(t, val, d):
        """limits known to be kept when the predicate t returns val"""
        key = (t.usr, val)
        if key not in memo:
            memo[key] = frozenset()
            at, _ = M.flow(t, d=d)
            got = None
            for r in t.nodes:
                if r.k != "return" or not r.ch or r.ch[0] is None or r.id not in at:
                    continue
                e = strip(r.ch[0])
                if e.v is not None and bool(e.v) != val:
                    continue
                x = set(at[r.id])
                if e.v is None:
                    for y, tv in lits(t, e, val):
                        x |= set(kept(y, tv))
                got = x if got is None else got & x
            memo[key] = frozenset(got or ())
        return memo[key]
    memo = {}

    def limit(x):
        """which limit a node is measured against"""
        if calls(x, "size") and mentions(x, lambda y: calls(y, "scope_stack") or field(y, "scope_stack_")):
            return "nesting"
        if calls(x, "get_branch_counter") or field(x, "branch_counter"):
            return "branches"
        if field(x, "branch_counter_change"):
            return "settings"
        return None

    def kept(x, t, d=0):
        out = set()
        for a, op, b in sides(x, t):
            k = limit(a)
            if k == "branches" and op in (">=", ">") and b.v is not None and b.v >= -1:
                out.add(k)
            if k in ("nesting", "settings") and op in ("<=", "<") and b.v is not None and 0 < b.v <= 10000:
                out.add(k)
            if op == "!=" and calls(a, "get_symbol_reference") and b.k == "null":
                out.add("reg")
        s = strip(x)
        if t and calls(s, "get_symbol_reference"):
            out.add("reg")
        if s is not None and s.is_call and s.t.s == "bool" and d < 3:
            ts = p.targets(s)
            if len(ts) == 1 and (ts[0].cls or "").startswith(P):
                out |= outcome(ts[0], t, d + 1)
        if s is not None and s.k == "ref" and s.var is not None and s.var.kind == "local" and s.var.t.s in ("bool", "const bool"):
            ds = defs(s.fn).get(s.var, [])
            if len(ds) == 1 and ds[0] is not None:
                for y, tv in literals(ds[0], t):
                    out |= kept(y, tv, d + 1)
        return out

    M = MustDo(p, ev, kept)

    def exits(f, d):
        x = M.flow(f)[1]
        return x if x is not None else (d,)

    def does(n, what):
        return what in M.node(n, 0)

    wr = {"branch_counter": [], "branch_counter_change": [], "current_statement": []}
    for f in p.src_funcs():
        for n in f.nodes:
            l, op = target(n)
            for k in wr:
                if field(l, k) and l.var.q.startswith(C):
                    wr[k].append((f, n, op))
    for f, n, op in wr["branch_counter"]:
        c.ob("writes of the branch counter", n.loc())
        c.seen(f)
        if "dec" in ev(n):
            continue
        if "change" not in exits(f, "change"):
            c.violate("counter.%s" % f.q, n.loc(), "%s sets the branch counter without counting it as a setting on every path" % f.q)
    for f, n, op in wr["branch_counter_change"]:
        c.ob("writes of the count of settings", n.loc())
        if "change" not in ev(n):
            c.violate("settings.%s" % f.q, n.loc(), "%s changes the number of ACTR settings other than by counting up" % f.q)
    c.need("writes of the branch counter", 2)
    c.need("writes of the count of settings", 1)

    # ---- every branch that is taken is counted
    c.rule("wherever execution is moved to another statement, the branch counter is counted down on every path through the move; except a lookahead "
           "that continues forward from where the last one stopped, and the return from a lookahead")
    jump = {f.usr for f in p.fns(P + "processing_manager::perform_opencode_jump")}
    if not jump:
        raise AnalysisError("perform_opencode_jump is gone")

    def moves(f):
        for n in f.nodes:
            if n.is_call and any(t.usr in jump for t in p.targets(n)):
                yield n
            l, op = target(n)
            if field(l, "current_statement") and l.var.q.startswith(C) and "adv" not in ev(n):
                yield n
    todo = [(f, n) for f in p.src_funcs() if f.usr not in jump for n in moves(f)]
    done = set()
    while todo:
        f, n = todo.pop()
        if (f.usr, n.id) in done:
            continue
        done.add((f.usr, n.id))
        c.ob("moves to another statement", n.loc())
        c.seen(f)
        if f.q == BACK:
            continue
        if f.q == C + "hlasm_context::apply_source_snapshot":
            continue                # part of the move itself
        if f.q == FORWARD:
            def fwd(x, t):
                return any(op == "<" and mentions(a, lambda y: field(y, "end_index")) and not mentions(a, lambda y: field(y, "lookahead_stop_")) and
                           mentions(b, lambda y: field(y, "lookahead_stop_")) for a, op, b in sides(x, t))
            if between(f, None, lambda e: e is n, edge=fwd):
                c.violate("forward", n.loc(), "a lookahead is continued at the place where the last one stopped although that may lie before the current statement")
            continue
        pre = between(f, None, lambda e: e is n, hit=lambda e: does(e, "dec"))
        post = between(f, n, None, hit=lambda e: does(e, "dec"))
        if not (pre and post):
            continue
        cs = p.callers().get(f.usr, ())
        if f.q in KNOWN or not cs:
            c.violate("uncounted.%s" % f.q, n.loc(), "%s moves to another statement on a path that does not count the branch" % f.q)
        else:
            todo += [(g, m) for g, m in cs]
    c.need("moves to another statement", 4)

    # ---- limits are looked at before every statement
    c.rule("before a statement is executed, the nesting of macros, the branch counter and the number of ACTR settings are compared with their limits on every path")
    execs = 0
    for f in p.src_funcs():
        if f.cls != P + "ordinary_processor":
            continue
        at = None
        for n in f.nodes:
            if not (calls(n, "process") and n.callee.cls and n.callee.cls in p.derived(P + "instruction_processor") | {P + "instruction_processor"}):
                continue
            execs += 1
            c.ob("statements executed", n.loc())
            c.seen(f)
            at = at or M.flow(f, entry=entry_of(p, M, f))[0]
            miss = {"nesting", "branches", "settings"} - set(at.get(n.id, ("nesting", "branches", "settings")))
            if miss:
                c.violate("limits.%s" % "+".join(sorted(miss)), n.loc(), "%s executes a statement on a path on which the limit of %s was not looked at" % (f.q, ", ".join(sorted(miss))))
    if execs < 4:
        raise AnalysisError("only %d places where statements are executed were found" % execs)
    # enter_macro is only reached that way
    for f, n in [(f, n) for q in (C + "hlasm_context::enter_macro",) for t in p.fns(q) for f, n in p.callers().get(t.usr, ())]:
        c.ob("calls of macros", n.loc())
        if not (f.cls in p.derived(P + "instruction_processor")):
            c.violate("macro.%s" % f.q, n.loc(), "%s calls a macro without going through the statement processor, which keeps the limit of nesting" % f.q)

    c.rule("when a limit is exceeded the analysis gives up: nested macros are left all together, a loop is left with its macro or the analysis is finished, excessive ACTR ends the analysis")

    def exceeded(x, t):
        for a, op, b in sides(x, t):
            k = limit(a)
            if k == "branches" and op in ("<", "<="):
                return k
            if k in ("nesting", "settings") and op in (">", ">=") and b.v is not None and b.v > 1:
                return k
        return None
    found = set()
    for f in p.src_funcs():
        if f.cls != P + "ordinary_processor":
            continue
        for b in f.blocks.values():
            cd = branch_cond(b) if len(b.succ) == 2 and b.tk not in ("CXXTryStmt", "SwitchStmt") else None
            if cd is None:
                continue
            for i, s in enumerate(b.succ):
                ks = {exceeded(x, t) for x, t in lits(f, cd, i == 0)} - {None}
                for k in ks if s >= 0 else ():
                    found.add(k)
                    c.ob("exceeded limits", "%s %s" % (f.q, k))
                    if k == "nesting":
                        bad = between(f, s, None, hit=lambda e: does(e, "fin"),
                                      edge=lambda x, t: calls(strip(x), "is_in_macro") and not t)
                    elif k == "branches":
                        bad = between(f, s, None, hit=lambda e: does(e, "fin") or does(e, "leave"))
                    else:
                        bad = between(f, s, None, hit=lambda e: does(e, "fin"))
                    if bad:
                        c.violate("exceeded.%s" % k, cd.loc(), "%s: when the limit of %s is exceeded there is a path that does not give up" % (f.q, k))

    if found != {"nesting", "branches", "settings"}:
        # reported above as a limit that is not looked at
        for k in {"nesting", "branches", "settings"} - found:
            c.violate("exceeded.%s" % k, "parser_library/src/processing/statement_processors/ordinary_processor.cpp", "nothing is done when the limit of %s is exceeded" % k)

    # ---- the main loop
    c.rule("between two statements the flag that cancels the analysis and the end of the processor are looked at; the flag is handed down to every analysis")
    for f in p.fns(P + "processing_manager::start_processing"):
        flag = [v for v in f.params if "atomic<bool>" in v.t.s]
        nx = [n for n in f.nodes if calls(n, "get_next")] or [n for n in f.nodes if n.is_call and any(
            any(calls(m, "get_next") for m in t.nodes) for t in p.targets(n) if t.q not in KNOWN)]
        if not flag or not nx:
            raise AnalysisError("start_processing was not recognised")
        for n in nx:
            def polled(x, t):
                return not t and mentions(x, lambda y: y.k == "ref" and y.var in flag)

            def ended(x, t):
                return not t and mentions(x, lambda y: calls(y, "finished") and y.obj is not None and "statement_processor" in y.obj.t.s)
            for nm, e in (("the cancel flag", polled), ("the end of the processor", ended)):
                c.ob("tests between statements", nm)
                if between(f, None, lambda y: y is n, edge=e) or between(f, n, lambda y: y is n, edge=e):
                    c.violate("loop.%s" % nm.split()[-1], n.loc(), "%s fetches a statement on a path on which %s was not looked at" % (f.q, nm))
        c.seen(f)
    for q in (P + "processing_manager::start_processing", D + "analyzer::analyze"):
        for t in p.fns(q):
            for f, n in p.callers().get(t.usr, ()):
                if f.q in NO_FLAG or not f.relfile.startswith("parser_library/src"):
                    continue
                c.ob("flags handed down", n.loc())
                a = strip(n.args[0]) if n.args and n.args[0] is not None else None
                if a is None or a.k in ("defarg", "null") or (a.v is not None):
                    c.violate("flag.%s" % f.q, n.loc(), "%s starts an analysis that cannot be cancelled" % f.q)
    c.need("flags handed down", 3)

    # ---- COPY
    c.rule("a member is entered only after it was looked for among all members being copied, in all sources on the stack, and not found")
    for t in p.fns(C + "hlasm_context::enter_copy_member"):
        for f, n in p.callers().get(t.usr, ()):
            c.ob("entered copy members", n.loc())
            c.seen(f)
            name = canon(n.args[0])

            def stack_var(y, d=0):
                """y denotes the list of all members being copied"""
                s = strip(y)
                if s is None or d > 3:
                    return False
                if s.is_call and s.callee is not None and s.callee.name == "whole_copy_stack":
                    return True
                if s.k == "ref" and s.var is not None:
                    return any(stack_var(x, d + 1) for x in defs(f).get(s.var, ()) if x is not None)
                if s.k in ("mcall", "ctor") and s.ch:
                    return any(stack_var(x, d + 1) for x in s.ch if x is not None)
                return False

            def search(y, d=0):
                s = strip(y)
                if s is None or d > 3:
                    return False
                if s.is_call and s.callee is not None and s.callee.q in ("std::find", "std::count", "std::any_of", "std::none_of", "std::find_if"):
                    return len(s.args) > 1 and all(a is not None and calls(strip(a), "begin", "cbegin", "end", "cend", "rbegin", "rend") and stack_var(a) for a in s.args[:2]) and (s.callee.q not in ("std::find", "std::count") or canon(s.args[-1]) == name)
                if s.k == "ref" and s.var is not None and s.var.kind == "local":
                    return any(search(x, d + 1) for x in defs(f).get(s.var, ()) if x is not None)
                return False

            def absent(x, t):
                for a, op, b in sides(x, t):
                    if search(a) and ((op == "==" and (calls(b, "end", "cend") or b.v == 0)) or (op == "<=" and b.v == 0)):
                        return True
                s = strip(x)
                if s is not None and s.is_call:
                    if search(s):
                        return t if s.callee.q == "std::none_of" else not t
                    return not t and s.t.s == "bool" and any(g.q not in KNOWN and any(calls(m, "whole_copy_stack") for m in g.nodes) for g in p.targets(s))
                return False
            looped = any(m.k == "rfor" and any(stack_var(x) for x in m.ch if x is not None and x.k != "block") and
                         any(e.k in ("bin", "ocall") and e.op in ("==", "!=") and any(canon(z) == name for z in e.ch if z is not None) for e in m.walk()) and
                         any(e.k in ("return", "assign", "break") for e in m.walk()) for m in f.nodes)
            if not looped and between(f, None, lambda e: e is n, edge=absent):
                c.violate("copy.%s" % f.q, n.loc(), "%s copies a member on a path on which it was not made sure that the member is not being copied already" % f.q)
    for f in p.fns(C + "hlasm_context::whole_copy_stack"):
        c.seen(f)
        c.ob("entered copy members", f.loc())
        whole = any(n.k == "rfor" and mentions(n, lambda y: field(y, "source_stack_")) for n in f.nodes) or \
            any(calls(n, "begin", "cbegin", "rbegin", "crbegin", "size") and mentions(n, lambda y: field(y, "source_stack_")) for n in f.nodes)
        part = any(calls(n, "back", "front") and mentions(n, lambda y: field(y, "source_stack_") or field(y, "copy_stack")) for n in f.nodes) or \
            any(n.k == "break" for n in f.nodes) or \
            any(n.k == "if" and not any(calls(y, "empty") for y in n.ch[0].walk()) for n in f.nodes if n.ch and n.ch[0] is not None) or sum(n.k == "return" for n in f.nodes) > 1
        if not whole or part:
            c.violate("copy.stack", f.loc(), "%s does not list all members being copied in all sources on the stack" % f.q)
    c.need("entered copy members", 2)

    # ---- reading on
    c.rule("reading a statement of a member advances the position on every path, and leaves the member at its end")
    for q, ev_leave in ((P + "macro_statement_provider", "leave"), (P + "copy_statement_provider", "leave copy")):
        fs = [f for f in p.fns(q + "::get_next") if not f.params]
        if not fs:
            raise AnalysisError("%s::get_next is gone" % q)
        for f in fs:
            c.ob("statements read from members", f.q)
            c.seen(f)
            if "adv" not in (M.flow(f)[1] or ()):
                c.violate("advance.%s" % q, f.loc(), "%s does not advance on every path" % f.q)

            def at_end(x, t):
                def at(y):
                    return field(y, "current_statement") or y.k == "ref" and y.var is not None and y.var.kind == "local" and \
                        any(mentions(z, lambda w: field(w, "current_statement")) for z in defs(f).get(y.var, ()) if z is not None)
                return any(op in ("<", "!=") and mentions(a, at) for a, op, b in sides(x, t))
            if between(f, None, None, hit=lambda e: does(e, ev_leave), edge=at_end):
                c.violate("end.%s" % q, f.loc(), "%s can pass the end of a member without leaving it" % f.q)

    c.rule("a remembered position of a member is not set back before its first statement")
    for f in p.src_funcs():
        for n in f.nodes:
            lv, op = target(n)
            if lv is None or lv.k != "member" or lv.var is None or lv.var.q not in (C + "copy_frame::statement_offset", C + "copy_member_invocation::current_statement"):
                continue
            if not (op in ("--", "-=")):
                continue
            c.ob("positions set back", n.loc())
            c.seen(f)

            def ok(x, t):
                return any(mentions(a, lambda y: field(y, "statement_offset") or field(y, "current_statement")) and b.v is not None and
                           ((op == ">=" and b.v >= 0) or (op == ">" and b.v >= -1) or (op == "!=" and b.v == -1)) for a, op, b in sides(x, t))
            if between(f, None, lambda e: e is n, edge=ok):
                c.violate("position.%s" % f.q, n.loc(), "%s sets the position of a copied member back although none of its statements may have been read: a statement before the first one would be read" % f.q)
    c.need("positions set back", 1)

    # ---- lookahead
    c.rule("a lookahead that ends registers every symbol it did not find, so that the statement that needs it is not held up again; a symbol is looked for only if it is not registered")
    for f in p.fns(P + "lookahead_processor::end_processing"):
        c.ob("ends of a lookahead", f.q)
        c.seen(f)
        ok = False
        for n in f.nodes:
            if n.k in ("rfor", "for", "while") and mentions(n, lambda y: field(y, "to_find_")) and not any(x.k in ("if", "break", "continue", "cond") for x in n.walk()) and \
                    any(x.is_call and does(x, "reg") for x in n.walk()):
                ok = n
            if n.is_call and n.callee is not None and n.callee.q in ("std::for_each",) and mentions(n, lambda y: field(y, "to_find_")):
                ok = n
            if n.is_call and n.k != "ctor" and not ok:
                for t in p.targets(n):
                    if t.q not in KNOWN and any(x.k in ("rfor", "for", "while") and mentions(x, lambda y: field(y, "to_find_")) and
                                                any(z.is_call and does(z, "reg") for z in x.walk()) for x in t.nodes):
                        ok = n
        if not ok:
            c.violate("lookahead.unfound", f.loc(), "%s does not register the symbols that were not found" % f.q)
        else:
            rng = {x.id for x in ok.walk()}
            if between(f, None, None, hit=lambda e: e.id in rng):
                c.violate("lookahead.unfound", f.loc(), "%s can end without registering the symbols that were not found" % f.q)
    for f in p.src_funcs():
        if f.cls != P + "lookahead_processor":
            continue
        for n in f.nodes:
            if not (calls(n, "erase", "extract", "clear") and n.obj is not None and field(strip(n.obj), "to_find_")):
                continue
            c.ob("symbols found", n.loc())
            c.seen(f)

            if between(f, n, None, hit=lambda e: does(e, "reg"), edge=lambda x, t: "reg" in kept(x, t)):
                c.violate("lookahead.found.%s" % f.q, n.loc(), "%s stops looking for a symbol on a path on which it is not registered: the statement that needs it would be held up for ever" % f.q)
    c.need("symbols found", 1)
    for f in p.fns(D + "expressions::ca_symbol_attribute::get_undefined_attributed_symbols"):
        c.seen(f)
        for r in f.nodes:
            if r.k != "return" or not r.ch or r.ch[0] is None:
                continue
            e = strip(r.ch[0])
            own = [x for x in e.walk() if (x.k in ("ref",) and x.var is not None and "id_index" in x.var.t.s or x.k == "ref" and x.var is not None and x.var.kind == "bind")
                   or (x.is_call and x.callee is not None and x.callee.q.startswith("std::get"))]
            if not own:
                continue
            c.ob("symbols looked for", r.loc())
            if between(f, None, lambda y: y is r, edge=lambda x, t: not t and calls(strip(x), "get_symbol_reference") or
                       any(op == "==" and calls(a, "get_symbol_reference") and b.k == "null" for a, op, b in sides(x, t))):
                c.violate("lookahead.again", r.loc(), "%s asks for a symbol that may be registered already: the statement would be held up for ever" % f.q)
    c.need("symbols looked for", 2)

    # ---- what is started is ended
    c.rule("every kind of processing that is started pushes one frame and one processor, and its end removes exactly one of each")
    ov = [f for f in p.src_funcs() if f.name == "end_processing" and f.cls != P + "empty_processor" and f.cls in p.derived(P + "statement_processor")]
    if len(ov) < 4:
        raise AnalysisError("only %d kinds of processing were found" % len(ov))
    for f in ov:
        c.ob("ends of processing", f.q)
        c.seen(f)
        if "pop" not in exits(f, "pop"):
            c.violate("pop.%s" % f.cls, f.loc(), "%s does not remove its frame on every path" % f.q)
        pops = [n for n in f.nodes if n.is_call and does(n, "pop")]
        for n in pops:
            if between(f, n, lambda e: e in pops):
                c.violate("pop.%s" % f.cls, n.loc(), "%s can remove more than one frame" % f.q)
    for f in p.src_funcs():
        if f.cls != P + "processing_manager" or f.name == "processing_manager":
            continue
        st = [n for n in f.nodes if "start" in ev(n)]
        for n in st:
            c.ob("starts of processing", f.q)
            c.seen(f)
            at, ex = M.flow(f)
            if "push" not in (ex if ex is not None else ("push",)) or any(between(f, m, lambda e: e is not m and does(e, "push")) for m in f.nodes if m.is_call and does(m, "push")):
                cs = p.callers().get(f.usr, ())
                if f.q not in KNOWN and cs:
                    continue
                c.violate("start.%s" % f.q, n.loc(), "%s starts processing without pushing exactly one frame" % f.q)
    for f in p.fns(P + "processing_manager::finish_processor"):
        c.ob("ends of processing", f.q)
        at, ex = M.flow(f)
        drops = [n for n in f.nodes if "drop" in ev(n)]
        if "drop" not in (ex or ()) or "end" not in (ex or ()) or any("end" not in at.get(n.id, ("end",)) for n in drops):
            c.violate("finish", f.loc(), "%s does not end the processor and then remove it on every path" % f.q)
    c.need("starts of processing", 3)


def entry_of(p, M, f):
    """events that hold whenever f is called (helpers of one class only)"""
    if f.q in KNOWN:
        return frozenset()
    cs = p.callers().get(f.usr, ())
    got = None
    for g, n in cs:
        at, _ = M.flow(g)
        x = at.get(n.id, frozenset())
        got = x if got is None else got & x
    return got or frozenset()
