"""C10  every diagnostic that is raised reaches the user."""
import re
from prog import strip
import prov
from mustdo import MustDo
from paths import avoids
from traverse import Traverse, owned, methods, untempl

D = "hlasm_plugin::parser_library::"
LS = "hlasm_plugin::language_server::"
THROUGH = {D + "expressions::nominal_value_t", D + "semantics::variable_symbol", D + "expressions::address_nominal"}
# parts that hold no diagnostics of their own when their owner is asked
NOTHING = {
    D + "expressions::ca_function::parameters": "resolved, and their diagnostics taken, by the grammar",
    D + "expressions::ca_function::duplication_factor": "resolved, and its diagnostics taken, by the grammar",
    D + "expressions::mach_expr_symbol::len_expr": "never evaluated",
    D + "workspace_manager::impl::implicit_workspace_": "has no configuration and no libraries",
    D + "workspaces::workspace::implicit_proc_grp": "has no libraries",
    D + "workspaces::processor_file_impl::analyzer_": "taken when the analysis ends",
}
# (type, function): diagnostics dropped on purpose
DROPPED = {
    (D + "parsing::parser_error_listener_ctx", D + "parsing::parser_impl::parse_lookahead_operands"): "operands are parsed again when the statement is processed",
    (D + "analyzer", D + "debugging::debugger::impl::launch"): "the debugged text is analysed by the language server, too",
    (D + "analyzer", D + "workspaces::processor_file_impl::parse_no_lsp_update"): "handed to parse_inner",
}
EVENTS = ("add_workspace", "remove_workspace", "did_open_file", "did_change_file", "did_close_file", "did_change_watched_files")


def outer(p, f):
    while f.parent is not None and f.parent in p.funcs:
        f = p.funcs[f.parent]
    return f


def collects(n):
    """expressions whose diagnostics node n collects"""
    if n.k in ("mcall", "call") and n.callee is not None:
        nm = n.callee.name
        if nm == "collect_diags_from_child":
            return n.args[:1]
        if nm == "collect_diags" and n.k == "mcall" and n.ch[0] is not None and strip(n.ch[0]).k != "this":
            return [n.ch[0]]
    return None


def root_of(e):
    e = strip(e)
    while e is not None and (e.k in ("mcall", "ocall", "un", "member", "dyncast", "cast", "icast") or (e.k == "call" and e.cq.startswith("std::"))) and e.ch:
        e = strip(e.ch[0])
    return e


def check(c):
    p = c.p
    names = set()
    for q in (D + "collectable", D + "collectable_impl"):
        names |= p.derived(q)

    # 1 the tree of collectables
    c.rule("collect_diags of every class collects from every collectable part the object owns, on every path on which the part is there")
    T = Traverse(p, collects)
    for k in sorted(names):
        own = owned(p, k, names, 0, THROUGH)
        if not own:
            continue
        for f in methods(p, k, "collect_diags"):
            if not f.blocks:
                continue
            c.seen(f)
            miss = {(a.q, l.q) for a, l in T.missed(f, own)}
            for a, l in own:
                if untempl(l.q) in NOTHING or untempl(a.q) in NOTHING:
                    continue
                c.ob("parts that hold diagnostics", "%s.%s" % (untempl(k), l.name))
                if (a.q, l.q) in miss:
                    c.violate("collect.%s.%s" % (untempl(k), l.name), f.loc(), "%s does not collect the diagnostics of the part %s%s on every path" % (
                        untempl(f.q), a.name, "" if a is l else " / " + l.name))

    # a diagnostic that is made is also handed on
    c.rule("the diagnostic a call makes is passed on, returned or stored; a local variable that holds one is used")
    for f in p.src_funcs():
        for n in f.nodes:
            if not n.is_call or n.k == "ctor" or n.callee is None or n.callee.r is None or n.callee.r.ref or \
                    n.t.s.replace("const ", "").rsplit("::", 1)[-1] not in ("diagnostic_s", "diagnostic_op"):
                continue
            up = next((a for a in n.up() if a.k not in ("paren", "cast", "cleanups", "temp", "cond")), None)
            c.ob("diagnostics made", n.loc())
            lost = up is None or up.k in ("block", "compound", "if", "for", "rfor", "while", "do", "switch", "case", "default", "label", "try", "catch")
            if up is not None and up.k == "decl":
                vs = [v for v, init in ((f.unit.vd[d["d"]], x) for d, x in zip(up.a["ds"], up.ch)) if init is not None and any(y is n for y in init.walk())]
                lost = any(not any(m.k == "ref" and m.var is v for g in p.src_funcs() if g is f or outer(p, g) is outer(p, f) for m in g.nodes) for v in vs)
            if lost:
                c.violate("lost.%s.%s" % (n.callee.name, outer(p, f).q), n.loc(), "%s makes the diagnostic %s and drops it" % (untempl(outer(p, f).q), n.callee.name))

    # 2 objects that live in one function
    c.rule("a local object that gathers diagnostics is collected on every path before it goes out of scope, unless it forwards to its evaluation context")

    def hit_of(var):
        def one(e):
            r = root_of(e)
            return r is not None and r.k == "ref" and r.var is var

        def hit(n, d=0):
            got = collects(n)
            if got:
                return any(one(e) for e in got)
            if n.is_call and d < 3:
                for t in p.targets(n):
                    for v, a in zip(t.params, n.args):
                        if a is not None and one(a) and t.blocks and (v.t.ref or v.t.ptr):
                            h = hit_of(v)
                            if not avoids(t, None, lambda x: h(x, d + 1)):
                                return True
            return False
        return hit
    adders = {}

    def can_add(t):
        if t.usr not in adders:
            adders[t.usr] = any(p.funcs[u].name == "add_diagnostic" for u in p.reach([t]) if u in p.funcs) or \
                any(n.is_call and n.callee is not None and n.callee.name == "add_diagnostic" for n in t.nodes)
        return adders[t.usr]

    def noisy(f, v, d=0):
        """may a method that adds diagnostics be called on the object?"""
        for x in f.nodes:
            if not x.is_call or x.k == "ctor":
                continue
            o = x.obj
            if o is not None and strip(o) is not None and strip(o).k == "ref" and strip(o).var == v:
                if any(can_add(t) for t in p.targets(x)) or not p.targets(x):
                    return True
            for i, a in enumerate(x.args):
                s = strip(a) if a is not None else None
                if s is not None and s.k == "un" and s.op == "&":
                    s = strip(s.ch[0])
                if s is not None and s.k == "ref" and s.var == v:
                    ts = p.targets(x)
                    if d > 2 or not ts or any(i < len(t.params) and noisy(t, t.params[i], d + 1) for t in ts):
                        return True
        return False
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k != "decl":
                continue
            for dd, init in zip(n.a["ds"], n.ch):
                v = f.unit.vd[dd["d"]]
                m = re.match(r"^std::unique_ptr<([\w:]+)(, .*)?>$", v.t.s)
                r = v.t.rec if not v.t.ref and not v.t.ptr and v.t.rec in names else None
                if m and m.group(1) in names and m.group(1) == D + "analyzer":
                    r = m.group(1)
                if r is None or r == D + "workspaces::processor_group":
                    continue
                o = outer(p, f)
                if any(r == a and (o.q == b or o.q.startswith(b + "(")) for a, b in DROPPED):
                    continue
                args = [a for a in (init.walk() if init is not None else ()) if (a.t.rec or "").endswith("evaluation_context") or "evaluation_context" in a.t.s]
                if r == D + "processing::context_manager" and args:
                    c.ob("objects that forward their diagnostics", n.loc())
                    continue
                if r == D + "processing::context_manager" and not noisy(f, v):
                    continue
                c.ob("local objects that gather diagnostics", n.loc())
                c.seen(f)
                if avoids(f, n, hit_of(v)):
                    c.violate("local.%s.%s" % (o.q, r.split("::")[-1]), n.loc(), "%s: diagnostics of the local %s are not collected on every path" % (o.q, v.q.split("::")[-1]))

    # 3 the collecting function
    c.rule("collecting from a child asks the child first, takes all its diagnostics, and empties it only when they were moved")
    for f in p.funcs.values():
        if f.name != "collect_diags_from_child" or not f.params:
            continue
        c.seen(f)
        c.ob("collecting functions", f.q)
        ch = f.params[0]

        def on_child(n, name):
            return n.k == "mcall" and n.callee is not None and n.callee.name == name and strip(n.ch[0]) is not None and strip(n.ch[0]).k == "ref" and strip(n.ch[0]).var == ch
        if avoids(f, None, lambda n: on_child(n, "collect_diags")):
            c.violate("child.collect", f.loc(), "%s does not ask the child to collect on every path" % f.q)
        ins = {n.id: n for n in f.nodes if n.is_call and n.callee is not None and n.callee.name in ("insert", "push_back", "emplace_back", "add_diagnostic", "append")}

        def takes(n):
            if n.id not in ins:
                return False
            for a in n.args:
                for x in (a.walk() if a is not None else ()):
                    if on_child(x, "diags"):
                        return True
                    if x.k == "ref" and x.var is not None and x.var.kind == "local" and any(on_child(y, "diags") for d in prov.defs(f).get(x.var, ()) for y in d.walk()):
                        return True
            return False
        empty_loop = lambda x, t: not t and x.k in ("ocall", "bin") and x.op == "!="  # the end of a range-for over the child's diagnostics
        if avoids(f, None, takes, edge=lambda x, t: empty_loop(x, t) and any(takes(y) for y in f.nodes)):
            c.violate("child.take", f.loc(), "%s does not take over the diagnostics of the child on every path" % f.q)
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and n.callee.name in ("clear", "erase", "pop_back", "resize") and on_child(strip(n.ch[0]), "diags"):
                if before_without(f, n, takes):
                    c.violate("child.clear", n.loc(), "%s empties the child before its diagnostics were taken" % f.q)

    # 4 what outlives a notification keeps its diagnostics; what only passes them on does not
    c.rule("objects that stay in the workspace keep the diagnostics they add outside collect_diags (is_once_only is false); objects that only pass on give theirs away (true)")
    live, st = set(), [D + "workspace_manager::impl"]
    while st:
        k = st.pop()
        if k in live:
            continue
        live.add(k)
        for a, _ in owned(p, k, names, 0, THROUGH):
            for x in re.findall(r"[\w:]+", a.t.s):
                if x in names and x.startswith((D + "workspaces::", D + "workspace_manager")):
                    st.append(x)
                    st += [d for d in p.derived(x)]
    for k in sorted(live):
        if k == D + "workspace_manager::impl":
            continue
        adds = [n for f in p.funcs.values() if outer(p, f).cls == k and outer(p, f).name != "collect_diags" and f.blocks for n in f.nodes
                if n.is_call and n.callee is not None and n.callee.name in ("add_diagnostic", "collect_diags_from_child")]
        pas = [n for f in methods(p, k, "collect_diags") for n in f.nodes if n.is_call and n.callee is not None and n.callee.name in ("add_diagnostic", "collect_diags_from_child")]
        if not adds and not pas:
            continue
        for f in methods(p, k, "is_once_only"):
            rs = {x.v for n in f.nodes if n.k == "return" for x in n.walk() if x.k in ("bool", "int")}
            if not rs:
                continue
            c.seen(f)
            c.ob("objects that stay", k)
            want = 0 if adds else 1
            if rs != {want}:
                c.violate("keep." + k, f.loc(), ("%s adds diagnostics but gives them away at the first notification" if adds else
                                                 "%s passes diagnostics on and keeps them, so that they are repeated at every notification") % k)

    # 5 processors
    c.rule("a statement processor is collected before it is removed")
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and n.callee.name in ("pop_back", "pop", "erase", "clear", "resize", "reset"):
                x = strip(n.ch[0])
                if x is None or x.k != "member" or x.var is None or "statement_processor" not in x.var.t.s:
                    continue
                c.ob("removed processors", n.loc())
                c.seen(f)
                if before_without(f, n, lambda y: bool(collects(y)) or any(is_collector(p, t) for t in (p.targets(y) if y.is_call else ()))):
                    c.violate("processor.%s" % f.q, n.loc(), "%s removes a statement processor whose diagnostics were not collected" % f.q)

    # 6 emptied containers
    c.rule("diagnostics of another object are emptied only after each of them was passed on")
    for f in p.src_funcs():
        if f.name == "collect_diags_from_child":
            continue
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and n.callee.name == "clear":
                x = strip(n.ch[0])
                if x is None or not x.is_call or x.callee is None or x.callee.name != "diags":
                    continue
                o = strip(x.ch[0]) if x.k == "mcall" else None
                if o is None or o.k == "this":
                    continue
                if outer(p, f).q == D + "workspaces::workspace::delete_diags" or all(
                        g.q == D + "workspaces::workspace::delete_diags" for g, _ in p.callers().get(f.usr, ())) and p.callers().get(f.usr):
                    continue
                c.ob("emptied containers", n.loc())
                c.seen(f)
                adds = [y for y in f.nodes if y.is_call and y.callee is not None and (y.callee.name in ("add_diagnostic", "push_back", "emplace_back", "insert", "for_each")
                                                                                           or (y.k == "ocall" and y.op == "()"))]
                src = [y for y in adds if any(z.is_call and z.callee is not None and z.callee.name == "diags" for a in y.args if a is not None
                                              for z in walk_defs(f, a))]
                if not src:
                    c.violate("emptied." + f.q, n.loc(), "%s empties the diagnostics of another object without passing them on" % f.q)
                elif any(a.k in ("if", "switch", "cond") and not any(b is n for b in a.walk()) for y in src for a in y.up()):
                    c.violate("emptied." + f.q, n.loc(), "%s passes on only some of the diagnostics it empties" % f.q)
    # 7 events
    c.rule("after every document or workspace event the diagnostics are gathered anew and every consumer is told, unless the analysis was cancelled")
    M = D + "workspace_manager::impl::"

    def cancelled(x, t):
        x = strip(x)
        return t and x is not None and any(y.k == "member" and y.var is not None and y.var.q.endswith("::cancel_") for y in x.walk()) and \
            (x.k in ("mcall", "un", "ocall", "icast") and not (x.k == "member"))

    def notifies(n, d=0):
        if not n.is_call:
            return False
        for t in p.targets(n):
            if t.name == "consume_diagnostics":
                return True
            if (t.cls or "") == M[:-2] and t.blocks and d < 3 and not avoids(t, None, lambda x: notifies(x, d + 1) or consumer_loop(x)):
                return True
        return n.callee is not None and n.callee.name == "consume_diagnostics"

    def consumer_loop(n):
        """a node of the range over all consumers"""
        return any(y.k == "member" and y.var is not None and y.var.q == M + "diag_consumers_" for y in n.walk()) and \
            any(z.is_call and z.callee is not None and z.callee.name == "consume_diagnostics" for g in p.funcs.values() if outer(p, g).usr == outer(p, n.fn).usr for z in g.nodes)
    for e in EVENTS:
        for f in p.fns(M + e):
            c.seen(f)
            c.ob("events", e)
            changes = lambda x: x.is_call and any(y.k == "member" and y.var is not None and y.var.q in (M + "workspaces_", M + "file_manager_") for y in x.walk()) and \
                x.callee is not None and (x.callee.name in ("emplace", "erase", "insert", "try_emplace") or x.callee.name.startswith("did_"))
            starts = [x for x in f.nodes if changes(x)] or [None]
            for s in starts:
                if avoids(f, s, notifies, edge=cancelled):
                    c.violate("event." + e, f.loc() if s is None else s.loc(), "%s can end without telling the diagnostics consumers" % f.q)
                    break
    for f in p.fns(M + "notify_diagnostics_consumers"):
        c.seen(f)
        c.ob("notification", f.q)
        fresh = [n for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name == "collect_diags"]
        cl = [n for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name == "clear"]
        mk = [n for n in f.nodes if n.k == "ctor" and (n.t.rec or "").endswith("diagnostic_list")]
        if not fresh or not mk or any(before_without(f, m, lambda n: any(n is x for x in fresh)) for m in mk if len(m.ch) >= 2):
            c.violate("notify.collect", f.loc(), "%s does not collect the diagnostics before it passes them on" % f.q)
        if fresh and cl and any(leads_to(f, x, y) for x in fresh for y in cl):
            c.violate("notify.clear", f.loc(), "%s empties the diagnostics after they were collected" % f.q)
        if not cl or any(before_without(f, x, lambda n: any(n is y for y in cl)) for x in fresh):
            c.violate("notify.stale", f.loc(), "%s does not drop the diagnostics of the previous notification" % f.q)
        for n in f.nodes:
            if n.is_call and n.callee is not None and n.callee.name == "consume_diagnostics":
                if any(a.k in ("if", "cond", "switch") for a in n.up()):
                    c.violate("notify.some", n.loc(), "%s tells only some consumers" % f.q)

    # 8 the message
    c.rule("the published message carries each field of every diagnostic, and files whose diagnostics vanished get an empty list")
    want = {"range": {"get_range"}, "code": {"code"}, "source": {"source"}, "message": {"message"}, "severity": {"severity"},
            "relatedInformation": {"related_info_size", "related_info", "diagnostic_related_info_to_json"}}
    for f in p.fns(LS + "lsp::server::consume_diagnostics"):
        fs = [g for g in p.funcs.values() if g.usr in p.reach([f], stop=lambda g: not g.q.startswith(LS + "lsp::server::")) and g.q.startswith(LS + "lsp::")
              and g.name not in ("notify",) and (g.cls or "") in (LS + "lsp::server", "") or outer(p, g).usr == f.usr]
        ks = {}
        for g in fs:
            c.seen(g)
            if g.name == "diagnostic_related_info_to_json":
                continue
            for n in g.nodes:
                if n.k == "str" and n.s in want:
                    ks.setdefault(n.s, []).append(n)
        for k, acc in want.items():
            c.ob("fields of the message", k)
            ok = False
            for n in ks.get(k, ()):
                prev = n
                for a in n.up():
                    got = {x.callee.name for y in a.walk() if not any(z is prev for z in [y]) for x in walk_defs(n.fn, y)
                           if x.is_call and x.callee is not None and x.callee.name in set().union(*want.values())}
                    if got:
                        ok = ok or bool(got & acc)
                        break
                    if a.k in ("compound", "block"):
                        break
            if not ok:
                c.violate("message." + k, f.loc(), "the published message has no '%s' made from the diagnostic's own" % k)
        push = lambda n: n.is_call and n.callee is not None and n.callee.name in ("push_back", "emplace_back", "insert", "emplace")
        for g in fs:
            for n in g.nodes:
                if n.k != "if":
                    continue
                arms = [a for a in n.ch[1:] if a is not None]
                has = [any(push(x) for x in a.walk()) for a in arms]
                skip = [any(x.k in ("continue", "break") for x in a.walk()) for a in arms]
                if any(a.k in ("for", "rfor", "while") for a in n.up()) and (
                        (any(has) and not all(has[-2:] if len(arms) > 1 else has + [False]) and not any(skip)) or any(s and not h for s, h in zip(skip, has))):
                    c.violate("message.skip", n.loc(), "%s skips diagnostics" % f.q)
        L = LS + "lsp::server::last_diagnostics_files_"
        c.ob("vanished diagnostics", f.q)
        sets = lambda n: n.k in ("ocall", "assign") and n.op == "=" and any(x.k == "member" and x.var is not None and x.var.q == L for x in n.ch[0].walk()) or \
            (n.k in ("mcall", "call") and n.callee is not None and n.callee.name == "swap" and any(x.k == "member" and x.var is not None and x.var.q == L for x in n.walk()))
        if avoids(f, None, sets):
            c.violate("message.files", f.loc(), "%s does not remember the files it published diagnostics for" % f.q)
        pub = [n for g in fs for n in g.nodes if n.is_call and n.callee is not None and n.callee.name == "notify"
               and any(a.k in ("rfor", "for", "while") and any(x.k == "member" and x.var is not None and x.var.q == L for y in a.ch[:4] if y is not None for x in y.walk()) for a in n.up())]
        alg = [n for g in fs for n in g.nodes if n.k == "call" and n.cq.startswith("std::for_each") and any(x.k == "member" and x.var is not None and x.var.q == L for x in n.walk())]
        if not pub and not alg:
            c.violate("message.empty", f.loc(), "%s does not clear the diagnostics of files that have none any more" % f.q)
    c.need("parts that hold diagnostics", 40)
    c.need("local objects that gather diagnostics", 4)
    c.need("events", 6)
    c.need("objects that stay", 4)
    c.need("emptied containers", 2)
    c.need("removed processors", 1)


def walk_defs(f, e, seen=None):
    seen = seen if seen is not None else set()
    for x in e.walk():
        yield x
        if x.k == "ref" and x.var is not None and x.var.kind in ("local", "bind") and x.var not in seen:
            seen.add(x.var)
            g = x.fn
            for d in prov.defs(g).get(x.var, ()):
                yield from walk_defs(g, d, seen)


def is_collector(p, t, d=0):
    return bool(t.blocks) and d < 2 and any(collects(n) for n in t.nodes) and not avoids(t, None, lambda n: bool(collects(n)))


def before_without(f, target, hit):
    """some path from the entry reaches target without hit"""
    return leads_to(f, None, target, hit)


def leads_to(f, start, target, hit=lambda n: False):
    """some path leads from start (or the entry) to target without hit"""
    bs = f.blocks
    st = []
    seen = set()
    if start is None:
        st.append((f.entry, 0))
    else:
        for b in bs.values():
            for i, e in enumerate(b.elems):
                if not isinstance(e, tuple) and e is start:
                    st.append((b.id, i + 1))
    while st:
        bid, i = st.pop()
        if (bid, i) in seen:
            continue
        seen.add((bid, i))
        stop = False
        for e in bs[bid].elems[i:]:
            if isinstance(e, tuple):
                continue
            if e is target:
                return True
            if hit(e):
                stop = True
                break
        if not stop:
            st.extend((s, 0) for s in bs[bid].succ if s >= 0)
    return False
