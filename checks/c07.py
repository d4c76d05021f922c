"""C07  no deadlock, no lost wake-up: balance of locks, acyclic order, condition variables used correctly."""
from collections import defaultdict
from facts import AnalysisError
from prog import strip, strip_all
from flow import Sim, norm_cond, evalc, reaching
from prov import defs
import locks, dispatch
from locks import Locks, LockFlow, direct_acquires, untempl, guards, mutex_of


def short(m):
    return "::".join(untempl(m).split("::")[-2:])


def in_thread_ctor(n):
    for a in n.up():
        if a.k == "ctor" and a.callee is not None and a.callee.q.startswith("std::thread::thread"):
            return True
        if a.k in ("block", "decl"):
            break
    return False


def chain(p, acq, u, m):
    out = []
    while True:
        n, t = acq[u][m]
        out.append("%s at %s" % (p.funcs[u].q.rsplit("::", 2)[-2:] and "::".join(p.funcs[u].q.split("::")[-2:]), n.loc()))
        if t is None or len(out) > 12:
            return " -> ".join(out)
        u = t.usr


def forwarded_calls(p):
    """call nodes inside forwarding helpers (resolved per caller)"""
    s = set()
    for f in p.funcs.values():
        for calls in dispatch.forwards(p, f).values():
            for c in calls:
                s.add((f.usr, c.id))
    return s


def thread_arg(p, f, var):
    """the field a parameter of a thread's entry function is bound to"""
    if f is None or var not in f.params:
        return None
    i = f.params.index(var)
    for g in p.src_funcs():
        for n in g.nodes:
            if n.k == "ctor" and n.callee is not None and n.callee.q.startswith("std::thread::thread"):
                a = n.ch
                if any(x.k == "fref" and x.callee is not None and x.callee.u == f.usr for x in n.walk()):
                    j = i + (2 if f.cls else 1)
                    if j < len(a) and a[j] is not None:
                        x = strip_all(a[j])
                        if x is not None and x.var is not None:
                            return untempl(x.var.q)
    return None


def field_reads(p, n, f):
    out = set()
    for x in n.walk():
        if x.k == "member" and x.var is not None and x.var.kind == "field":
            out.add(untempl(x.var.q))
        elif x.k == "ref" and x.var is not None and x.var.kind in ("param", "capture", "local"):
            g = f
            d = 0
            while g is not None and d < 4:
                q = thread_arg(p, g, x.var)
                if q:
                    out.add(q)
                g = p.funcs.get(g.parent) if g.parent else None
                d += 1
    return out


ENABLE = {"push_back", "emplace_back", "push_front", "insert", "emplace", "push", "try_emplace", "append", "store"}
DISABLE = {"pop_front", "pop_back", "pop", "erase", "clear", "front", "back"}


def enabling(n):
    """field written by n in a way that may make a waiting thread's condition true"""
    if n.k == "assign" and n.op in ("=", "|=", "+="):
        l = strip(n.ch[0])
        if l is not None and l.k == "member" and l.var is not None:
            r = strip(n.ch[1])
            if r is not None and r.v == 0:
                return None
            return untempl(l.var.q)
    if n.k == "ocall" and n.op == "=" and len(n.ch) == 2:
        l = strip(n.ch[0])
        if l is not None and l.k == "member" and l.var is not None:
            r = strip_all(n.ch[1])
            if r is not None and r.v == 0:
                return None
            return untempl(l.var.q)
    if n.k == "mcall" and n.callee is not None and n.callee.name in ENABLE and n.obj is not None:
        l = strip(n.obj)
        if l is not None and l.k == "member" and l.var is not None:
            if n.callee.name == "store" and n.args and strip_all(n.args[0]) is not None and strip_all(n.args[0]).v == 0:
                return None
            return untempl(l.var.q)
    if n.k == "un" and n.op in ("++",):
        l = strip(n.ch[0])
        if l is not None and l.k == "member" and l.var is not None:
            return untempl(l.var.q)
    return None


def check(c):
    p = c.p
    L = Locks(p)
    c.rule("every explicit lock/unlock is balanced on all paths; no lock is taken while it is already held and the held->taken "
           "relation over all call chains (virtual calls narrowed by receiver type) has no cycle")
    # --- balance
    n_bal = 0
    for u in sorted(L.lockers):
        f = p.funcs[u]
        if f.file.startswith("/repo") is False and "generated" in f.relfile:
            continue
        c.seen(f)
        c.ob("functions that lock", f.q)
        lf = L.of(f)
        ent = L.entry.get(u, frozenset())
        for n, m in lf.relock:
            c.violate("relock %s in %s" % (short(m), f.q), n.loc(), "%s locks %s while it already holds it" % (f.q, short(m)))
        for n, m in lf.unlock_unheld:
            if strip_all(n.obj) is not None and strip_all(n.obj).var in guards(f):
                c.violate("unlock %s in %s" % (short(m), f.q), n.loc(), "%s unlocks a guard of %s that may not own it" % (f.q, short(m)))
            elif m not in ent:
                c.violate("unlock %s in %s" % (short(m), f.q), n.loc(), "%s unlocks %s, which may not be locked there" % (f.q, short(m)))
        explicit = [n for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name in ("lock", "unlock") and
                    n.obj is not None and mutex_of(n.obj)]
        if explicit or ent:
            must = {m for m, _ in (lf.exit or frozenset())}
            for m in ent:
                if any(mutex_of(n.obj) == m for n in explicit):
                    c.ob("explicit unlock/lock pairs", f.q)
                    if m not in must and lf.exit is not None:
                        c.violate("balance %s in %s" % (short(m), f.q), f.loc(),
                                  "%s is entered with %s locked and can return without holding it" % (f.q, short(m)))
            may = LockFlow(f, ent, may=True)
            for m, h in (may.exit or ()):
                if h is None and m not in ent:
                    c.violate("leak %s in %s" % (short(m), f.q), f.loc(), "%s can return with %s still locked" % (f.q, short(m)))
    c.need("functions that lock", 10)

    # --- order
    acq = acquires_narrow(p, L)
    edges = defaultdict(dict)
    for u, (ent, lf) in list(L.flow.items()):
        f = p.funcs[u]
        lf = L.of(f)
        for m, n in direct_acquires(f):
            for h in lf.held(n):
                if h != m:
                    edges[h].setdefault(m, "%s at %s" % (f.q, n.loc()))
        for n, t, sk in dispatch.edges(p, f):
            if n.k in ("lambda", "fref") and (in_thread_ctor(n) or not n.parent):
                continue
            held = lf.held(n)
            if not held:
                continue
            c.ob("calls made while holding a lock", n.loc())
            for m in acq.get(t.usr, {}):
                for h in held:
                    # only locks held locally or at every entry: report at the function that takes them
                    if h == m:
                        if h in ent and h in L.entry.get(t.usr, ()):
                            continue
                        c.violate("self %s in %s" % (short(m), f.q), n.loc(), "%s calls, while holding %s, a function that locks it again: %s" % (
                            f.q, short(m), chain(p, acq, t.usr, m)))
                    else:
                        edges[h].setdefault(m, "%s at %s -> %s" % (f.q, n.loc(), chain(p, acq, t.usr, m)))
    # cycles
    for a in sorted(edges):
        seen, st = set(), [(a, [a])]
        while st:
            x, path = st.pop()
            for b in edges.get(x, ()):
                if b == a:
                    key = "cycle " + "<->".join(sorted(short(z) for z in path))
                    c.violate(key, edges[x][b].split(" at ")[-1].split(" ->")[0],
                              "locks are taken in conflicting order: %s" % "; ".join(
                                  "%s then %s (%s)" % (short(path[i]), short((path + [a])[i + 1]), edges[path[i]][(path + [a])[i + 1]])
                                  for i in range(len(path))))
                elif b not in seen:
                    seen.add(b)
                    st.append((b, path + [b]))
    for a in edges:
        for b in edges[a]:
            c.ob("lock order pairs", "%s before %s" % (short(a), short(b)))

    # --- condition variables
    c.rule("every wait on a condition variable re-checks its condition (predicate or loop) under the mutex it waits with; every "
           "write that can make the condition true is made under that mutex and followed by a notification on every path")
    cvs = {}
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and n.callee.q.startswith("std::condition_variable") and n.callee.name.split("<")[0] in (
                    "wait", "wait_for", "wait_until"):
                cv = strip_all(n.obj)
                if cv is None or cv.var is None:
                    continue
                q = untempl(cv.var.q)
                c.ob("waits", n.loc())
                c.seen(f)
                args = n.args
                g = strip_all(args[0])
                mx = guards(f).get(g.var, ((None,), 1))[0][0] if g is not None and g.k == "ref" else None
                held = L.held(f, n)
                if mx is None or mx not in held:
                    c.violate("wait unlocked in %s" % f.q, n.loc(), "%s waits on %s without holding the mutex" % (f.q, short(q)))
                preds = set()
                lam = [x for a in args[1:] if a is not None for x in a.walk() if x.k in ("lambda", "fref")]
                if lam:
                    for x in lam:
                        t = p.funcs.get(x.callee.u)
                        if t is not None and t.body is not None:
                            preds |= field_reads(p, t.body, t)
                            for y in t.nodes:
                                if y.is_call:
                                    for z in p.targets(y):
                                        if z.body is not None and z.file.startswith("/repo"):
                                            preds |= field_reads(p, z.body, z)
                else:
                    loop = None
                    for a in n.up():
                        if a.k in ("while", "for", "do"):
                            loop = a
                            break
                    if loop is None:
                        c.violate("wait without condition in %s" % f.q, n.loc(),
                                  "%s waits on %s without re-checking a condition (a spurious wake-up is taken for the event, an "
                                  "earlier notification is lost)" % (f.q, short(q)))
                    else:
                        for x in loop.ch:
                            if x is not None and x.k not in ("block",):
                                preds |= field_reads(p, x, f)
                        if not preds:
                            preds |= field_reads(p, loop, f)
                cvs.setdefault(q, []).append((mx, preds, f))
    c.need("waits", 2)
    for q, ws in cvs.items():
        fieldset = set()
        for mx, preds, f in ws:
            fieldset |= preds
        mxs = {mx for mx, _, _ in ws if mx}
        if len(mxs) > 1:
            c.violate("cv %s mutexes" % short(q), ws[0][2].loc(), "%s is waited on with different mutexes" % short(q))
        mx = next(iter(mxs)) if mxs else None

        def is_notify(n):
            if n.k == "mcall" and n.callee is not None and n.callee.name in ("notify_one", "notify_all"):
                o = strip_all(n.obj)
                return o is not None and o.var is not None and untempl(o.var.q) == q
            return False
        nreach = reaching(p, lambda n: is_notify(n) or enabling(n) in fieldset)

        class S(Sim):
            def descend(self, f, n, st):
                return f.usr in nreach and "/repo" in f.file

            def event(self, n, st, env):
                e = enabling(n)
                if e in fieldset:
                    return ["pending"]
                if is_notify(n):
                    return ["idle"]
                return None

            def decide(self, cnd, env):
                # "was empty before": the waiting thread sleeps only then
                k, pol, n = norm_cond(cnd)
                s = strip(cnd)
                if s is not None and s.k == "ref" and s.var is not None:
                    for d in defs(s.fn).get(s.var, ()):
                        k2, pol2, n2 = norm_cond(d)
                        if k2 and k2.startswith("E:") and n2 is not None and field_reads(p, n2, s.fn) & fieldset:
                            return pol2
                return None
        roots = []
        writers = {}
        for f in p.src_funcs():
            ws_ = [n for n in f.nodes if enabling(n) in fieldset]
            if ws_:
                writers[f.usr] = ws_
        for u, ns in writers.items():
            f = p.funcs[u]
            fc = untempl(f.cls or "")
            if f.name.split("<")[0] in (fc.rsplit("::", 1)[-1], "~" + fc.rsplit("::", 1)[-1]):
                continue
            for n in ns:
                c.ob("condition writes", n.loc())
                if mx is not None and mx not in L.held(f, n):
                    c.violate("write %s in %s" % (short(enabling(n)), f.q), n.loc(),
                              "%s changes %s, which a thread waits for, without holding %s: the wake-up can be lost" % (
                                  f.q, short(enabling(n)), short(mx)))
        # every outermost function of the owning class that writes must notify
        for u in writers:
            f = p.funcs[u]
            own = untempl(q).rsplit("::", 1)[0]
            top = {f.usr: f}
            work = [f]
            tops = []
            seen = {f.usr}
            while work:
                g = work.pop()
                cs = [h for h, n in p.callers().get(g.usr, ()) if untempl(h.cls or "").startswith(own) and h.usr not in seen and n.is_call]
                fc = untempl(g.cls or "")
                ctor = g.name.split("<")[0] in (fc.rsplit("::", 1)[-1],)
                if ctor:
                    continue
                # notify may be done by the function itself or by its in-class callers
                sim = S(p)
                outs, _ = sim.run(g, "idle")
                bad = [tr for (st, _), tr in outs.items() if st == "pending"]
                if bad and cs and g.usr not in public_methods(p, own):
                    for h in cs:
                        seen.add(h.usr)
                        work.append(h)
                elif bad:
                    c.violate("notify %s in %s" % (short(q), g.q), g.loc(),
                              "%s can make the condition of %s true and return without notifying the waiting thread (branches at lines %s)" % (
                                  g.q, short(q), list(bad[0])))
                else:
                    c.ob("notifying functions", g.q)

    # --- joins
    c.rule("a thread is joined only while holding no lock that the joined thread takes")
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and n.callee.q == "std::thread::join":
                c.ob("joins", n.loc())
                h = L.held(f, n)
                if h:
                    c.violate("join in %s" % f.q, n.loc(), "%s waits for a thread to end while holding %s" % (
                        f.q, ", ".join(sorted(short(m) for m in h))))
    c.need("joins", 2)


def public_methods(p, cls):
    r = p.recs.get(cls)
    if r is None:
        return set()
    return {fd.u for fd, ov, acc, imp in r.methods if acc in ("public", "0", 0)}


def acquires_narrow(p, L):
    """usr -> {mutex: (node, next Func or None)}: mutexes a call of the function may lock.  A callback with a lock contract
    (entered with a lock that it releases and takes back) is analysed on its own with that contract."""
    acq = defaultdict(dict)
    rev = defaultdict(list)
    fwd = forwarded_calls(p)
    for u, f in p.funcs.items():
        for m, n in direct_acquires(f):
            acq[u].setdefault(m, (n, None))
        for n, t, skip in dispatch.edges(p, f):
            if n.k in ("lambda", "fref") and in_thread_ctor(n):
                continue
            if (u, n.id) in fwd or t.usr in L.over_entry:
                continue
            rev[t.usr].append((f, n))
    work = list(acq)
    while work:
        u = work.pop()
        for g, n in rev.get(u, ()):
            ch = False
            for m in list(acq[u]):
                if m not in acq[g.usr]:
                    acq[g.usr][m] = (n, p.funcs[u])
                    ch = True
            if ch:
                work.append(g.usr)
    return acq
