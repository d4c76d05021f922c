"""C02  nothing that is received, opened or configured ends a thread or the server by an exception."""
from facts import AnalysisError
from prog import strip, strip_all
from flow import MustFacts, reaching
from exc import Escapes, library, caught, try_handlers, is_a, STOX

LS = "hlasm_plugin::language_server::"
PL = "hlasm_plugin::parser_library::"
# throws that cannot happen, one reason each
EXEMPT = {
    PL + "workspaces::file_impl::index_from_position": "the text was made valid UTF-8 when it was loaded (C23) or parsed as JSON",
}
QUERIES = ("definition", "references", "hover", "completion", "semantic_tokens", "document_symbol", "find_workspace")
DBG = ("stack_frames", "scopes", "variables", "breakpoint", "breakpoints", "next", "step_in", "continue_debug", "disconnect")
EVENTS = ("did_open_file", "did_change_file", "did_close_file", "did_change_watched_files", "add_workspace", "remove_workspace",
          "configuration_changed")


def local_json(n):
    """an operation on a JSON value that the function itself builds"""
    o = strip_all(n.ch[0]) if n.ch else None
    while o is not None and o.k in ("ocall", "mcall") and o.ch:
        o = strip_all(o.ch[0])
    return o is not None and o.k == "ref" and o.var is not None and o.var.kind == "local" and not o.var.t.ref and \
        (n.callee.name in ("push_back", "emplace_back") or n.op == "[]" or n.callee.name.startswith("operator[]"))


def lib(p):
    def f(n):
        ts = library(n)
        if not ts:
            # a handler reached through std::function: it may fail with any standard exception
            if n.k == "ocall" and n.op == "()" and n.ch and n.ch[0] is not None and "std::function<" in n.ch[0].t.s and \
                    "basic_json" in n.ch[0].t.s and n.ch[0].t.s.count("basic_json") >= 2:
                return ("std::exception",)
            return ()
        if ts[0].startswith("nlohmann::") and local_json(n):
            return ()
        if "std::regex_error" in ts:
            a = [strip_all(x) for x in n.ch if x is not None and x.k != "defarg"]
            if a and a[0] is not None and a[0].k == "str":
                return ()
        return ts
    return f


def sync_call(n):
    """message_received called directly by add_request, under the policy that runs requests without a worker (tests only)"""
    if n.callee is None or n.callee.name != "message_received":
        return False
    f = n.fn
    m = f.__dict__.get("_mf02")
    if m is None:
        m = f.__dict__["_mf02"] = MustFacts(f)
    return any("async_policy" in k and v for k, v in m.at.get(n.id, {}).items())


def thread_roots(p):
    out = []
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k == "ctor" and n.callee is not None and n.callee.q.startswith("std::thread::thread") and n.ch and n.ch[0] is not None:
                for x in n.ch[0].walk():
                    if x.callee is not None and x.callee.u in p.funcs and not x.is_call:
                        out.append((p.funcs[x.callee.u], n))
                        break
    return out


def check(c):
    p = c.p
    c.rule("escape analysis (explicit throws and a table of throwing library calls, propagated over the call graph, stopped by "
           "matching handlers, discharged by dominating tests): nothing escapes the entry function of any thread, main, a destructor or "
           "a noexcept function; nothing escapes the body of a loop that serves messages; the language queries and debugger queries let "
           "nothing escape; opening, changing and configuring let no conversion, JSON, file system or regex error escape")
    thr = set()
    for f, n in thread_roots(p):
        thr.add((n.fn.usr, n.id))

    def edge(n, t):
        u = n.parent
        while u is not None and u.k in ("icast", "cast"):
            u = u.parent
        if u is not None and (u.fn.usr, u.id) in thr:
            return False
        if n.is_call and sync_call(n):
            return False
        return True
    E = Escapes(p, lib=lib(p), edge=edge, want=lambda t, n: n.fn.q not in EXEMPT)

    def report(kind, f, k):
        o = p.funcs[k[1]]
        c.violate("%s %s: %s from %s" % (kind, f.q, k[0], o.q), E.esc[f.usr][k][0].loc(),
                  "%s can be left by %s: %s" % (f.q, k[0], E.chain(f, k)))

    roots = [f for f, _ in thread_roots(p)] + p.fns("main")
    for f in {r.usr: r for r in roots}.values():
        c.ob("thread entry functions", f.loc())
        c.seen(f)
        for k in E.esc[f.usr]:
            report("thread", f, k)
    c.need("thread entry functions", 4)
    for f in p.src_funcs():
        if f.is_var or f.decl is None:
            continue
        if "n" in f.decl.fl or "D" in f.decl.fl:
            c.ob("destructors and noexcept functions", f.loc())
            for k in E.esc[f.usr]:
                report("noexcept", f, k)
    # service loops
    served = reaching(p, lambda n: False)
    serve_calls = {LS + "server::message_received", LS + "json_source::read"}

    def serves(n):
        return n.is_call and n.callee is not None and (
            n.callee.name == "message_received" or n.callee.q == LS + "json_source::read" or
            (n.callee.name == "read" and n.callee.cls and n.callee.cls.startswith(LS)) or
            (n.callee.name in ("wait", "pop") and n.callee.cls and ("condition_variable" in n.callee.cls or "blocking_queue" in n.callee.cls)) or
            (n.callee.name == "parse" and n.callee.q.startswith("nlohmann::basic_json")))
    direct = {f.usr for f in p.src_funcs() if f.file.startswith("/repo/language_server/src/") and any(serves(n) for n in f.nodes)}
    cg = p.callgraph()
    for f in p.src_funcs():
        if not f.file.startswith("/repo/language_server/src/") or "emscripten" in f.file:
            continue
        for L in f.nodes:
            if L.k not in ("for", "while", "do", "rfor"):
                continue
            inside = set(x.id for x in L.walk())
            if not any(x.id in inside and (serves(x) or any(t.usr in direct for n, t in cg.get(f.usr, ()) if n is x))
                       for x in f.nodes if x.is_call):
                continue
            c.ob("service loops", L.loc())
            c.seen(f)
            esc = []
            for x in f.nodes:
                if x.id not in inside:
                    continue
                # direct origins
                ts = []
                if x.k == "throw" and x.ch and x.ch[0] is not None:
                    from exc import norm_type
                    ts = [(norm_type(strip(x.ch[0]).t.s), None)]
                elif x.is_call:
                    tg = [t for n, t in cg.get(f.usr, ()) if n is x]
                    if not tg:
                        from exc import guarded
                        ts = [(t, None) for t in lib(p)(x) if not guarded(x)]
                    elif edge(x, tg[0]):
                        ts = [(k[0], (t, k)) for t in tg for k in E.esc[t.usr]]
                for t, via in ts:
                    ok = False
                    for u, hs in try_handlers(x):
                        if u.id in inside and any(h is None or is_a(t, h) for h, _ in hs):
                            ok = True
                    if not ok:
                        esc.append((x, t, via))
            for x, t, via in esc:
                c.violate("loop in %s: %s at %s" % (f.q, t, x.cq or x.k), x.loc(),
                          "the loop of %s that serves messages is ended by %s%s" % (
                              f.q, t, " from " + E.chain(via[0], via[1]) if via else ""))
    c.need("service loops", 3)
    # queries
    qs = [f for nm in QUERIES for f in p.fns(PL + "workspace_manager::" + nm)]
    qs += [f for nm in DBG for f in p.fns(PL + "debugging::debugger::" + nm)]
    for f in qs:
        c.ob("queries", f.loc())
        c.seen(f)
        for k in E.esc[f.usr]:
            if k[0] != "std::bad_variant_access":
                report("query", f, k)
    c.need("queries", 8)
    # events
    for nm in EVENTS:
        for f in p.fns(PL + "workspace_manager::" + nm):
            c.ob("document and workspace events", f.loc())
            c.seen(f)
            for k in E.esc[f.usr]:
                o = p.funcs[k[1]].nodes[k[2]]
                if o.k == "throw":
                    if k[0].startswith("nlohmann::"):
                        report("event", f, k)
                    continue
                # (that the text of a number consists of digits is the grammar's business, its magnitude is the user's)
                if (o.cq in STOX and k[0] == "std::out_of_range") or k[0] == "std::length_error" or k[0].startswith("nlohmann::") or (
                        k[0] == "std::filesystem::filesystem_error" and o.cq != "std::filesystem::absolute") or (
                        k[0] == "std::regex_error" and "wildcard" not in o.fn.q):
                    report("event", f, k)
    n = 0
    for f in p.funcs.values():
        for x in f.nodes:
            if x.is_call and x.cq in STOX:
                c.ob("conversions of text to numbers", x.loc())
    c.need("document and workspace events", 4)
    c.assumption("exhaustion of memory and operating system resources is not modelled; libraries throw only as listed in lib/exc.py")
