"""C01  every supported request is answered exactly once, with its own id; notifications never are."""
from facts import AnalysisError
from prog import strip
from flow import Sim, reaching, norm_cond
from prov import tags
import proto
from proto import NS


class Count(Sim):
    """counts response events on every path (saturating at 2)"""

    def __init__(self, p, is_event, reach, check_event=None):
        super().__init__(p)
        self.is_event, self.reach, self.check_event = is_event, reach, check_event

    def descend(self, f, n, st):
        return f.usr in self.reach and not self.is_event_fn(f)

    def is_event_fn(self, f):
        return False

    def absval(self, n, env):
        return tags(self.p, n, env)

    def event(self, n, st, env):
        if n.is_call and self.is_event(n):
            if self.check_event:
                self.check_event(n, env)
            return [min(2, st + 1)]
        return None


def find_key(p, c, env, msgkeys):
    """condition 'iterator == end()' about the message member KEY -> (key, polarity)"""
    k, pol, n = norm_cond(c)
    if n is None or n.k not in ("bin", "ocall") or n.op not in ("==", "!=") or len(n.ch) != 2:
        if n is not None and n.k == "mcall" and n.callee is not None and n.callee.name == "contains":
            t = tags(p, n.ch[1], env)
            for m in msgkeys:
                if "s:" + m in t:
                    return m, not pol
        return None
    a, b = strip(n.ch[0]), strip(n.ch[1])
    for x, y in ((a, b), (b, a)):
        if y.k == "mcall" and y.callee is not None and y.callee.name in ("end", "cend"):
            t = tags(p, x, env)
            for m in msgkeys:
                if "s:" + m in t:
                    return m, pol
    return None


def check(c):
    p = c.p
    c.rule("for every registered request handler: on every CFG path to a normal exit (helpers inlined) exactly one "
           "respond/respond_error, whose id argument is built from the handler's request id and, in DAP, whose command is "
           "the registered one; for notification and reply handlers: none")
    c.rule("respond/respond_error implementations send exactly one message, with id/request_seq (and command) from their "
           "own parameters; message_received hands each well-formed request to call_method exactly once with the message's "
           "own id, method and params; call_method calls the found handler exactly once with that id and params; the worker "
           "hands every request it takes from the queue to the server exactly once")
    pm = proto.provider_methods(p)
    answer = pm["respond"] | pm["respond_error"]

    def is_ans(n):
        return n.callee is not None and n.callee.u in answer
    reach = reaching(p, is_ans)
    reg = proto.registered(p)
    if len(reg) < 20:
        raise AnalysisError("only %d registered handlers found" % len(reg))
    for name, f, dap, node in reg:
        req = dap or name in proto.LSP_REQUESTS
        ntf = not dap and not req
        c.seen(f)
        bad = []

        def chk(n, env, name=name, dap=dap, bad=bad):
            c.ob("response call sites", n.loc())
            a = n.args
            t = tags(p, a[0], env)
            if "ID" not in t:
                bad.append((n, "answers with an id that does not come from the request it handles"))
            if dap:
                lit = {x[2:] for x in tags(p, a[1], env) if x.startswith("s:")}
                if lit and name not in lit:
                    bad.append((n, "answers request '%s' as command %s" % (name, sorted(lit))))
                elif not lit:
                    bad.append((n, "answers request '%s' without its command name" % name))
        sim = Count(p, is_ans, reach, chk)
        env = {f.params[0]: "ID", f.params[1]: "PARAMS"}
        outs, _ = sim.run(f, 0, env)
        for u in sim.fns:
            c.fns.add(u)
        for n, m in bad:
            c.violate("%s:%s" % (f.q, m.split(" ")[0] + m[-20:]), n.loc(), "%s (%s) %s" % (f.q, name, m))
        if req:
            c.ob("request handlers", "%s -> %s" % (name, f.q))
            for (k, _), tr in outs.items():
                if k != 1:
                    c.violate("%s:%s" % (f.q, "unanswered" if k == 0 else "answered twice"), f.loc(),
                              "request '%s': a path through %s %s (branches at lines %s)" % (
                                  name, f.q, "ends without any response" if k == 0 else "responds more than once",
                                  list(tr)))
        elif ntf:
            c.ob("notification handlers", "%s -> %s" % (name, f.q))
            for (k, _), tr in outs.items():
                if k != 0:
                    c.violate("%s:notification answered" % f.q, f.loc(),
                              "notification '%s' is answered by %s (branches at lines %s)" % (name, f.q, list(tr)))
    c.need("request handlers", 12)
    c.need("notification handlers", 6)

    # implementations of respond / respond_error
    reply = set()
    r = p.rec(NS + "send_message_provider")
    for fd, ov, acc, imp in r.methods:
        if fd.name == "reply":
            reply = {fd.u} | set(p.overriders(fd.u))

    def is_reply(n):
        return n.callee is not None and n.callee.u in reply
    rreach = reaching(p, is_reply)
    for kind in ("respond", "respond_error"):
        for u in pm[kind]:
            f = p.funcs.get(u)
            if f is None or "/language_server/" not in f.file:
                continue
            dap = "::dap::" in f.q
            c.ob("response builders", f.q)
            c.seen(f)
            pairs = []
            env0 = {f.params[0]: "ID", f.params[1]: "CMD"}
            for i, v in enumerate(f.params[2:]):
                env0[v] = "ARG%d" % (i + 2)

            sim = Count(p, is_reply, rreach)
            outs, _ = sim.run(f, 0, env0)
            for (k, _), tr in outs.items():
                if k != 1:
                    c.violate("%s:sends %d" % (f.q, k), f.loc(), "%s sends %s messages on a path (branches at lines %s)" % (
                        f.q, "no" if k == 0 else "several", list(tr)))
            # gather pairs in f and the local helpers it calls
            todo, done = [(f, env0, 0)], set()
            while todo:
                g, env, d = todo.pop()
                if g.usr in done:
                    continue
                done.add(g.usr)
                for k, v, n in proto.json_pairs(g):
                    pairs.append((k, tags(p, v, env), n))
                if d < 3:
                    for n in g.nodes:
                        if n.is_call:
                            for t in p.targets(n):
                                if "/language_server/" in t.file and not is_reply(n):
                                    e2 = {pv: tags(p, a, env) for pv, a in zip(t.params, n.args) if a is not None}
                                    todo.append((t, e2, d + 1))
            want = [("request_seq", "ID"), ("command", "CMD")] if dap else [("id", "ID")]
            for key, tg in want:
                got = [(t, n) for k, t, n in pairs if k == key]
                if not any(tg in t for t, n in got):
                    c.violate("%s:%s" % (f.q, key), (got[0][1].loc() if got else f.loc()),
                              "%s builds a response whose \"%s\" is not the one of the request it was given" % (f.q, key))
            ks = {k for k, t, n in pairs}
            if not dap:
                if ("result" in ks) == ("error" in ks) or (kind == "respond") != ("result" in ks):
                    c.violate("%s:kind" % f.q, f.loc(), "%s does not carry exactly the %s member" % (
                        f.q, "result" if kind == "respond" else "error"))
            else:
                suc = [t for k, t, n in pairs if k == "success"]
                exp = "i:1" if kind == "respond" else "i:0"
                if suc and not any(exp in t for t in suc):
                    c.violate("%s:success" % f.q, f.loc(), "%s reports the wrong success flag" % f.q)
    c.need("response builders", 4)

    # dispatch
    cm = p.fn(NS + "server::call_method")
    mr = [p.funcs[u] for fd, ov, a, i in p.rec(NS + "server").methods if fd.name == "message_received"
          for u in p.overriders(fd.u) if u in p.funcs]
    mr = [f for f in mr if "/language_server/" in f.file]
    if len(mr) < 2:
        raise AnalysisError("message_received implementations not found")

    def is_cm(n):
        return n.callee is not None and n.callee.u == cm.usr
    cmreach = reaching(p, is_cm)
    for f in mr:
        dap = "::dap::" in f.q
        c.ob("message dispatchers", f.q)
        c.seen(f)
        keys = {"method": "command", "id": "seq", "params": "arguments"} if dap else {
            "method": "method", "id": "id", "params": "params"}
        for present in ((True, True), (True, False)) if dap else ((True, True), (False, True), (True, False), (False, False)):
            # LSP: with id (request) / without (notification);   DAP: with / without arguments
            hasid, haspar = present

            class D(Count):
                def decide(self, cnd, env):
                    for key, there in ((keys["method"], True), (keys["id"], hasid), (keys["params"], haspar),
                                       ("result", False), ("error", False), ("type", True)):
                        fk = find_key(p, cnd, env, [key])
                        if fk is not None:
                            return fk[1] != there
                    # DAP: the message type is "request"
                    if dap:
                        k, pol, n = norm_cond(cnd)
                        if n is not None and n.k in ("ocall", "bin") and n.op in ("==", "!=") and len(n.ch) == 2:
                            t = tags(p, n, env)
                            if "s:type" in t and "s:request" in t:
                                return pol
                    return None
            bad = []

            def chk(n, env):
                a = n.args
                c.ob("call_method sites", n.loc())
                t0, t1, t2 = (tags(p, x, env) for x in a[:3])
                if "s:" + keys["method"] not in t0:
                    bad.append((n, "method", "calls a method that is not the message's \"%s\"" % keys["method"]))
                if hasid and "s:" + keys["id"] not in t1:
                    bad.append((n, "id", "dispatches a request without the message's \"%s\"" % keys["id"]))
                if haspar and "s:" + keys["params"] not in t2:
                    bad.append((n, "params", "dispatches without the message's \"%s\"" % keys["params"]))
            sim = D(p, is_cm, cmreach, None)
            ev = sim.event

            def event(n, st, env, ev=ev):
                r = ev(n, st, env)
                if r is not None:
                    chk(n, env)
                return r
            sim.event = event
            outs, _ = sim.run(f, 0, {f.params[0]: "MSG"})
            for n, k, m in bad:
                c.violate("%s:%s" % (f.q, k), n.loc(), "%s %s" % (f.q, m))
            for (k, _), tr in outs.items():
                if k != 1:
                    c.violate("%s:dispatch %s %d" % (f.q, present, k), f.loc(),
                              "%s: a well-formed %s is dispatched %s (branches at lines %s)" % (
                                  f.q, "%s %s parameters" % ("request" if hasid else "notification", "with" if haspar else "without"), "not at all" if k == 0 else "twice", list(tr)))
    # call_method -> handler
    c.ob("method lookup", cm.q)

    def is_handler_call(n):
        return n.k == "ocall" and n.op == "()" and n.callee is not None and n.callee.q.startswith("std::function<void (const nlohmann")

    hreach = reaching(p, is_handler_call)

    class H(Count):
        def decide(self, cnd, env):
            k, pol, n = norm_cond(cnd)
            if n is not None and n.k in ("bin", "ocall") and n.op in ("==", "!=") and len(n.ch) == 2:
                for y in n.ch:
                    y = strip(y)
                    if y.k == "mcall" and y.callee is not None and y.callee.name in ("end", "cend"):
                        return not pol
            if n is not None and n.k == "mcall" and n.callee is not None and n.callee.name in ("contains", "count"):
                return pol
            return None
    bad = []

    def chk2(n, env):
        a = [tags(p, x, env) for x in n.ch[1:]]
        if len(a) == 2 and ("ID" not in a[0] or "ARGS" not in a[1]):
            bad.append(n)
    sim = H(p, is_handler_call, hreach, chk2)
    outs, _ = sim.run(cm, 0, {cm.params[0]: "METHOD", cm.params[1]: "ID", cm.params[2]: "ARGS"})
    for n in bad:
        c.violate("%s:args" % cm.q, n.loc(), "%s calls a handler without the request's own id and parameters" % cm.q)
    for (k, _), tr in outs.items():
        if k != 1:
            c.violate("%s:calls %d" % (cm.q, k), cm.loc(), "%s: a path with a registered method calls its handler %s (branches at lines %s)" % (
                cm.q, "not at all" if k == 0 else "twice", list(tr)))

    # worker: every request taken from the queue is handed over exactly once
    mru = set()
    for fd, ov, a, i in p.rec(NS + "server").methods:
        if fd.name == "message_received":
            mru = {fd.u} | set(p.overriders(fd.u))
    rm = p.rec(NS + "request_manager")
    qf = [x for x in rm.fields if "deque<" in x.t.s or "queue<" in x.t.s or "list<" in x.t.s or "vector<" in x.t.s]
    qf = [x for x in qf if "request" in x.t.s]
    if not qf:
        raise AnalysisError("anchor not found: request queue of request_manager")
    qn = {x.q for x in qf}

    def is_take(n):
        if n.k == "mcall" and n.callee is not None and n.callee.name in ("pop_front", "pop", "pop_back", "erase", "clear"):
            o = strip(n.ch[0])
            return o is not None and o.k == "member" and o.var is not None and o.var.q in qn
        return False

    class W(Sim):
        def descend(self, f, n, st):
            return f.usr in wreach and f.cls is not None and f.cls.endswith("request_manager")

        def event(self, n, st, env):
            if is_take(n):
                if st == "taken":
                    lost.append(n)
                return ["taken"]
            if n.is_call and n.callee is not None and n.callee.u in mru:
                if st != "taken":
                    dup.append(n)
                return ["done"]
            return None
    wreach = reaching(p, lambda n: is_take(n) or (n.is_call and n.callee is not None and n.callee.u in mru))
    workers = [f for f in p.src_funcs() if f.cls == rm.q and any(is_take(n) and n.callee.name in ("pop_front", "pop", "pop_back")
                                                                 for n in f.nodes)]
    # the worker is the outermost function of the class that reaches the take
    roots = set()
    for f in workers:
        g = f
        while True:
            cs = [h for h, _ in p.callers().get(g.usr, ()) if h.cls == rm.q and h.usr != g.usr and h.name != rm.q.rsplit("::", 1)[-1]]
            cs = [h for h in cs if h.parent is None]
            if not cs:
                break
            g = cs[0]
        roots.add(g)
    for f in roots:
        lost, dup = [], []
        c.ob("queue workers", f.q)
        c.seen(f)
        sim = W(p)
        outs, _ = sim.run(f, "idle")
        for n in lost:
            c.violate("%s:lost" % f.q, n.loc(), "%s: a request taken from the queue can be dropped without being handed to its server" % f.q)
        for n in dup:
            c.violate("%s:dup" % f.q, n.loc(), "%s: a request can be handed to its server again" % f.q)
        for (st, _), tr in outs.items():
            if st == "taken":
                c.violate("%s:lost at exit" % f.q, f.loc(), "%s can end after taking a request without handing it over" % f.q)
    c.need("queue workers", 1)
    c.assumption("handlers that end by throwing (malformed parameters) are outside this property")
