"""C08  every thread is told to stop and joined before what it uses goes away."""
from collections import defaultdict
from facts import AnalysisError
from prog import strip, strip_all
from mustdo import MustDo, literals
from locks import untempl

LS = "hlasm_plugin::language_server::"
PL = "hlasm_plugin::parser_library::"
# what makes the thread of a class finish: fields set to true, queues terminated
STOP = {
    LS + "request_manager": [("set", "end_worker_")],
    LS + "dap::session": [("call", "queue", "terminate")],
    "main_program": [("set", "cancel"), ("call", "lsp_queue", "terminate")],
    PL + "debugging::debugger::impl": [("set", "disconnected_"), ("set", "continue_"), ("set", "cancel_")],
}


def is_thread(t):
    s = t.s.replace("const ", "")
    return s == "std::thread"


def thread_fields(p):
    out = {}
    for r in p.recs_by_usr.values():
        for x in r.fields:
            if is_thread(x.t):
                out[x.q] = (r, x)
    return out


def last(q):
    return q.rsplit("::", 1)[-1]


def true_const(n):
    n = strip_all(n)
    return n is not None and ((n.k == "bool" and n.v == 1) or n.v == 1)


def field_of(n):
    """the field an expression names; a parameter of the function stands for what is passed"""
    n = strip_all(n)
    if n is not None and n.k == "member" and n.var is not None:
        return n.var.q
    if n is not None and n.k == "ref" and n.var is not None and n.var.kind == "param" and n.var in n.fn.params:
        return "$%d" % n.fn.params.index(n.var)
    return None


def subst(e, n, t):
    if "$" not in e:
        return e
    i = e.index("$") + 1
    j = i
    while j < len(e) and e[j].isdigit():
        j += 1
    a = n.args
    k = int(e[i:j])
    q = field_of(a[k]) if k < len(a) else None
    return None if q is None else e[:i - 1] + q + e[j:]


def check(c):
    p = c.p
    c.rule("a class that owns a thread joins it on every path of its destructor, or every object of it is guarded, from the statement after "
           "its creation, by an object whose destructor joins it")
    c.rule("on every path to the join, the state that makes the thread finish has been set")
    c.rule("a thread started by a constructor's initialisers uses only members initialised before it")
    c.rule("a server is left only after its requests are finished: no running request of it, none in the queue")
    c.rule("a variable that a thread writes is read only after the thread's owner is gone")
    tf = thread_fields(p)
    if len(tf) < 3:
        raise AnalysisError("only %d classes that own threads were found" % len(tf))
    stopf = {}
    for r, x in tf.values():
        k = next((k for k in STOP if r.q == k or r.q.endswith("::" + k)), None)
        names = {y.name for y in r.fields}
        stopf[r.q] = [s for s in STOP.get(k, ()) if s[1] in names]

    def event(n):
        if n.k == "mcall" and n.callee is not None:
            nm = n.callee.name
            fq = field_of(n.ch[0])
            if nm == "join" and (fq in tf or (fq or "").startswith("$")):
                yield "join:" + fq
            elif fq is not None:
                yield "call:%s:%s" % (fq, nm)
                if nm == "store" and n.args and true_const(n.args[0]):
                    yield "set:" + fq
        if n.k in ("assign", "ocall") and n.op == "=" and len(n.ch) == 2 and true_const(n.ch[1]):
            fq = field_of(n.ch[0])
            if fq:
                yield "set:" + fq

    def cond(n, truth):
        if not truth and n.k == "mcall" and n.callee is not None and n.callee.name == "joinable":
            fq = field_of(n.ch[0])
            if (fq or "").startswith("$"):
                yield "join:" + fq
            if fq in tf:
                yield "join:" + fq
                # there is no thread: nothing to tell
                for s in stopf[tf[fq][0].q]:
                    yield ("set:%s::%s" % (tf[fq][0].q, s[1])) if s[0] == "set" else "call:%s::%s:%s" % (tf[fq][0].q, s[1], s[2])
    M = MustDo(p, event, cond, subst=subst)
    methods = defaultdict(list)
    for f in p.src_funcs():
        if f.cls:
            methods[f.cls].append(f)
    joiners = defaultdict(set)   # class -> methods that always join its thread
    for fq, (r, x) in tf.items():
        c.ob("classes that own a thread", r.q)
        ms = methods[r.q]
        for f in ms:
            if "join:" + fq in M.summary(f):
                joiners[r.q].add(f.usr)
        dt = [f for f in ms if f.decl is not None and "D" in f.decl.fl]
        if dt and dt[0].usr in joiners[r.q]:
            c.ob("destructors that join", dt[0].loc())
            c.seen(dt[0])
        else:
            if not joiners[r.q]:
                c.violate("%s never joined" % fq, "%s:%d" % (r.file.replace("/repo/", ""), r.line), "no method of %s joins its thread %s on every path" % (r.q, x.name))
            guarded_uses(c, p, M, r, fq, joiners[r.q], dt)
        # stop before join
        for f in ms + [g for g in p.src_funcs() if g.parent is not None and g.cls and g.q.startswith(r.q + "::")]:
            js = [n for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name == "join" and field_of(n.ch[0]) == fq]
            js += [n for n in f.nodes if n.k == "call" and any(a is not None and field_of(a) == fq for a in n.ch) and
                   any("join:$%d" % i in M.summary(t) for t in p.targets(n) for i, a in enumerate(n.ch) if a is not None and field_of(a) == fq)]
            if not js:
                continue
            at = entry_events(p, M, f)
            for n in js:
                for s in stopf[r.q]:
                    c.ob("stop signals before a join", n.loc())
                    c.seen(f)
                    want = ("set:%s::%s" % (r.q, s[1])) if s[0] == "set" else "call:%s::%s:%s" % (r.q, s[1], s[2])
                    if want not in at.get(n.id, ()):
                        c.violate("%s before join in %s" % (s[1], f.q), n.loc(), "%s joins %s on a path where %s was not %s: the thread may never finish" % (
                            f.q, x.name, s[1], "set" if s[0] == "set" else s[2] + "d"))
        order(c, p, r, x, ms)
    c.need("classes that own a thread", 3)
    c.need("stop signals before a join", 4)
    finishing(c, p)
    results(c, p, tf)


def entry_events(p, M, f):
    """events done before each node, given what all callers (of the same class) did before the call."""
    ent = None
    for g, n in p.callers().get(f.usr, ()):
        if g.cls != f.cls or g.usr == f.usr or not n.is_call:
            ent = frozenset()
            break
        a = M.flow(g)[0].get(n.id, frozenset())
        ent = a if ent is None else ent & a
    return M.flow(f, ent or frozenset())[0]


def guarded_uses(c, p, M, r, fq, js, dt):
    """objects of a class that does not join by itself."""
    n_obj = 0
    for f in list(p.src_funcs()):
        for n in f.nodes:
            if n.k == "new" and n.t.s.replace(" *", "") == r.q:
                pass
            if n.k != "decl":
                continue
            for ds, ini in zip(n.a["ds"], n.ch):
                v = f.unit.vd[ds["d"]]
                if v.kind != "local" or v.t.s.replace("const ", "") != r.q:
                    continue
                n_obj += 1
                c.ob("objects that own a thread", n.loc())
                c.seen(f)
                blk = n.parent
                ok = False
                if blk is not None and blk.k == "block":
                    i = blk.ch.index(n)
                    for j in range(i + 1, len(blk.ch)):
                        s = blk.ch[j]
                        if s is not None and s.k == "decl" and joins_at_exit(p, s, v, js):
                            # nothing in between may leave the scope
                            ok = not any(y is not None and any(z.is_call and not quiet(z) or z.k in ("return", "throw", "break", "continue", "goto")
                                                               for z in y.walk()) for y in blk.ch[i + 1:j])
                            break
                if not ok:
                    c.violate("%s %s in %s" % (r.q, v.q, f.q), n.loc(), "%s creates %s, whose thread is not joined on every way out of its scope" % (f.q, v.q))
    for r2 in p.recs_by_usr.values():
        for x in r2.fields:
            if x.t.s.replace("const ", "") == r.q:
                n_obj += 1
                d = [f for f in p.funcs.values() if f.cls == r2.q and f.decl is not None and "D" in f.decl.fl]
                c.ob("objects that own a thread", x.q)

                def ev(n, x=x):
                    if n.k == "mcall" and n.callee is not None and n.callee.u in js and field_of(n.ch[0]) == x.q:
                        yield "j"
                if not d or "j" not in MustDo(p, ev).summary(d[0]):
                    c.violate("%s in %s" % (x.name, r2.q), "%s:%d" % (r2.file.replace("/repo/", ""), r2.line), "%s owns %s but its destructor does not join its thread" % (r2.q, x.name))
    if not n_obj:
        c.violate("%s not joined" % fq, dt[0].loc() if dt else "%s:%d" % (r.file.replace("/repo/", ""), r.line),
                  "the destructor of %s can be left without joining its thread" % r.q)


def quiet(n):
    """construction of another local object (it does not run the loop and throws only when memory is exhausted)"""
    if n.k == "ctor":
        return True
    return n.parent is not None and n.parent.k in ("ctor", "decl", "cast", "icast")


def joins_at_exit(p, s, v, js):
    """a declaration whose object runs, when destroyed, a lambda that joins v's thread."""
    for ini in s.ch:
        if ini is None:
            continue
        x = strip(ini)
        if x is None or x.k != "ctor" or not x.callee.cls:
            continue
        # the class calls what it was given in its destructor
        dts = [f for f in p.funcs.values() if f.cls == x.callee.cls and f.decl is not None and "D" in f.decl.fl]
        if not dts or not any(n.is_call for n in dts[0].nodes):
            continue
        for l in x.walk():
            if l.k == "lambda" and l.callee is not None and l.callee.u in p.funcs:
                def ev(n):
                    if n.k == "mcall" and n.callee is not None and n.callee.u in js:
                        o = strip_all(n.ch[0])
                        if o is not None and o.k == "ref" and o.var is not None and o.var.q == v.q:
                            yield "j"
                if "j" in MustDo(p, ev).summary(p.funcs[l.callee.u]):
                    return True
            if l.k == "ref" and l.var is v and x.callee.cls:
                # a dedicated guard class: its destructor joins through a reference
                def ev2(n):
                    if n.k == "mcall" and n.callee is not None and n.callee.u in js:
                        yield "j"
                if "j" in MustDo(p, ev2).summary(dts[0]):
                    return True
    return False


def order(c, p, r, x, ms):
    """a thread started in the initialiser list uses members that are initialised before it."""
    names = [y.name for y in r.fields]
    ti = names.index(x.name)
    for f in ms:
        if f.decl is None or "C" not in f.decl.fl:
            continue
        for m, b, n, w in f.inits:
            if m is None or m.q != x.q or n is None:
                continue
            starts = [y for y in n.walk() if y.k == "ctor" and y.callee.q.startswith("std::thread::thread") and y.ch]
            if not starts:
                continue
            roots = [p.funcs[y.callee.u] for y in n.walk() if y.k in ("fref", "lambda") and y.callee is not None and y.callee.u in p.funcs]
            used = set()
            for u in p.reach(roots):
                g = p.funcs[u]
                if g.cls == r.q or (g.parent and g.q.startswith(r.q + "::")):
                    for y in g.nodes:
                        if y.k == "member" and y.var is not None and y.var.q.startswith(r.q + "::"):
                            used.add(last(y.var.q))
            c.ob("members used by a thread started by initialisers", f.loc(), len(used))
            c.seen(f)
            for u in sorted(used):
                if u in names and names.index(u) > ti:
                    c.violate("%s before %s" % (x.q, u), f.loc(), "%s starts its thread before %s, which the thread uses, is initialised" % (r.q, u))


def finishing(c, p):
    add = {f.usr for f in p.fns(LS + "request_manager::add_request")}
    fin = {f.usr for f in p.fns(LS + "request_manager::finish_server_requests")}
    if not add or not fin:
        raise AnalysisError("request_manager::add_request / finish_server_requests not found")

    def ev(n):
        if n.k == "mcall" and n.callee is not None and n.callee.u in fin:
            yield "fin"
    M = MustDo(p, ev)
    callers = {}
    for f in p.src_funcs():
        if any(n.is_call and n.callee is not None and n.callee.u in add for n in f.nodes):
            callers[f.usr] = f
    loops = [f for f in callers.values() if f.cls == LS + "dispatcher"]
    if not loops:
        raise AnalysisError("no dispatcher function adds requests")
    todo = list(loops)
    done = set()
    while todo:
        f = todo.pop()
        if f.usr in done:
            continue
        done.add(f.usr)
        c.ob("functions that queue requests of a server", f.loc())
        c.seen(f)
        if "fin" in M.summary(f):
            continue
        # a helper: its callers in the class carry the obligation
        cs = [g for g, n in p.callers().get(f.usr, ()) if g.cls == f.cls]
        if cs and f.name != "run_server_loop":
            todo += cs
            continue
        c.violate("finish in %s" % f.q, f.loc(), "%s can be left while requests of its server are still queued or running" % f.q)
    # finishing waits for the running request and takes the queued ones away
    for u in fin:
        f = p.funcs[u]
        ps = f.params

        def is_run(n):
            n = strip_all(n)
            if n is not None and n.k == "mcall" and n.callee is not None and n.callee.name in ("load",) or (
                    n is not None and n.k == "mcall" and n.callee is not None and "::operator " in n.callee.q):
                n = strip_all(n.ch[0])
            return n is not None and n.k == "member" and n.var is not None and last(n.var.q) == "currently_running_server_"

        def is_par(n):
            n = strip_all(n)
            return n is not None and n.k == "ref" and n.var is not None and n.var in ps

        def cond(n, t):
            if n.k in ("bin", "ocall") and n.op in ("==", "!=") and len(n.ch) == 2 and (
                    (is_run(n.ch[0]) and is_par(n.ch[1])) or (is_run(n.ch[1]) and is_par(n.ch[0]))):
                if (n.op == "==") != t:
                    yield "idle"

        def ev3(n):
            if n.is_call and n.callee is not None and n.callee.name in ("wait", "wait_for", "wait_until") and "condition_variable" in n.callee.q:
                for l in n.walk():
                    if l.k == "lambda" and any(is_run(y) for y in p.funcs[l.callee.u].nodes if y.k == "member"):
                        yield "idle"
            if n.k == "mcall" and n.callee is not None and n.callee.name in ("erase", "remove_if", "clear", "swap") and field_of(n.ch[0]) == LS + "request_manager::requests_":
                yield "gone"
            if n.is_call and n.callee is not None and n.callee.q.startswith("std::erase_if"):
                yield "gone"
        ex = MustDo(p, ev3, cond).summary(f)
        for k, t in (("idle", "while its current request is still running"), ("gone", "while requests of the server may still be queued")):
            c.ob("guarantees of finish_server_requests", f.loc())
            c.seen(f)
            if k not in ex:
                c.violate("%s %s" % (f.q, k), f.loc(), "%s can return %s" % (f.q, t))
    c.need("functions that queue requests of a server", 1)


def results(c, p, tf):
    """locals handed by reference to an owner of a thread that writes them."""
    owners = {r.q for r, _ in tf.values()}
    wpar = set()   # (ctor usr, param index): captured by reference by the thread
    for f in p.src_funcs():
        if f.decl is None or "C" not in f.decl.fl or f.cls not in owners:
            continue
        for n in f.nodes:
            if n.k == "lambda":
                for ch in n.ch:
                    x = strip(ch)
                    if x is not None and x.k == "ref" and x.var in f.params and x.var.t.ref and not x.var.t.const:
                        g = p.funcs.get(n.callee.u)
                        if g is None:
                            continue
                        if any(y.k == "assign" and strip(y.ch[0]) is not None and strip(y.ch[0]).k == "ref" and strip(y.ch[0]).var.q == x.var.q for y in g.nodes):
                            wpar.add((f.usr, f.params.index(x.var)))
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k != "decl":
                continue
            for ds, ini in zip(n.a["ds"], n.ch):
                x = strip(ini) if ini is not None else None
                if x is None or x.k != "ctor":
                    continue
                for i, a in enumerate(x.ch):
                    if (x.callee.u, i) not in wpar or a is None:
                        continue
                    y = strip(a)
                    if y is None or y.k != "ref" or y.var.kind != "local":
                        continue
                    c.ob("results written by a thread", n.loc())
                    c.seen(f)
                    inside = set(z.id for z in n.parent.walk())
                    for z in f.nodes:
                        if z.k == "ref" and z.var is y.var and z.id in inside and z.id > n.id and z is not y:
                            # a plain read while the owner of the thread is still alive
                            c.violate("%s read in %s" % (y.var.q, f.q), z.loc(), "%s reads %s while the thread that writes it may still be running" % (f.q, y.var.q))
