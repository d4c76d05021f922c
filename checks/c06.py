"""C06  state shared between threads is only touched while holding the lock that protects it."""
from collections import defaultdict
from facts import AnalysisError
from prog import strip, strip_all
import locks
from locks import Locks, is_mutex_type, untempl
from flow import written

PL = "hlasm_plugin::parser_library::"
LS = "hlasm_plugin::language_server::"

# data that is known to be used by more than one thread (must be protected even if its class had no lock at all)
SHARED = {
    PL + "workspaces::file_manager_impl": ["files_"],
    LS + "request_manager": ["requests_", "currently_running_file_", "currently_running_server_", "end_worker_"],
    LS + "server": ["shutdown_request_received_", "exit_notification_received_"],
    LS + "dap::server": ["last_seq_"],
    LS + "dap::session": ["running"],
    LS + "blocking_queue": ["queue", "terminated"],
    LS + "base_protocol_channel": ["output"],
    LS + "logger": ["file_"],
    PL + "debugging::debugger::impl": ["variables_", "stack_frames_", "scopes_", "proc_stack_", "breakpoints_", "debug_ended_",
                                       "next_var_ref_", "disconnected_", "continue_"],
}
# fields of lock-owning classes that one thread uses alone, or that are set up before any other thread exists
SINGLE = {
    LS + "base_protocol_channel": {"input", "message_buffer"},       # only the reading thread
    PL + "debugging::debugger::impl": {"event_"},                    # set before the debuggee is launched
}
SYNC = ("std::atomic<", "std::condition_variable", "std::thread", "std::mutex", "std::once_flag")


def roots_of(x):
    """member nodes an lvalue expression goes through"""
    out = []
    x = strip_all(x)
    d = 0
    while x is not None and d < 12:
        d += 1
        if x.k == "member":
            out.append(x)
            x = strip_all(x.ch[0]) if x.ch else None
        elif x.k in ("index", "ocall", "mcall", "call", "un") and x.ch:
            x = strip_all(x.ch[0])
        else:
            break
    return out


def check(c):
    p = c.p
    c.rule("static lockset analysis (guards tracked through the CFG, entry locksets intersected over all call sites, thread "
           "entry points start without locks): for every field of a class that owns a mutex, and for the known shared tables "
           "and queues, one and the same mutex is held at every access outside construction and destruction; fields that are "
           "never written after construction, atomics and synchronisation objects are exempt")
    L = Locks(p)
    acc = defaultdict(list)
    fields = {}
    for r in p.recs_by_usr.values():
        if not r.file.startswith("/repo/") and "/language_server/" not in r.file and "/parser_library/" not in r.file:
            continue
        own = any(is_mutex_type(x.t) for x in r.fields)
        sh = SHARED.get(r.q, [])
        if not own and not sh:
            continue
        for x in r.fields:
            if x.t.s.replace("const ", "").startswith(SYNC):
                continue
            if x.name in SINGLE.get(r.q, ()):
                continue
            if own or x.name in sh:
                fields[untempl(x.q)] = (r, x)
    if not fields:
        raise AnalysisError("no lock-owning classes found")
    classes = {untempl(r.q) for r, _ in fields.values()}
    thread_makers = set()
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k == "ctor" and n.callee is not None and n.callee.q.startswith("std::thread::thread") and n.ch:
                thread_makers.add(f.usr)
    # code that runs while no other thread can see the object: constructors, destructors, what precedes the start of the
    # thread in the function that starts it, and helpers called from such places only
    starts = {}
    for u in thread_makers:
        ls = [n.line for n in p.funcs[u].nodes if n.k == "ctor" and n.callee is not None and
              n.callee.q.startswith("std::thread::thread") and n.ch]
        starts[u] = min(ls)
    rc = p.callers()
    memo = {}

    def ctorlike(f):
        fc = untempl(f.cls or "")
        last = fc.rsplit("::", 1)[-1]
        return fc in classes and f.name.split("<")[0] in (last, "~" + last)

    def alone(f, d=0):
        if ctorlike(f):
            return True
        if f.usr in memo:
            return memo[f.usr]
        memo[f.usr] = False
        cs = rc.get(f.usr, ())
        r = bool(cs) and d < 5 and f.parent is None and all(
            (g.usr in starts and n.line < starts[g.usr] and n.is_call) or (n.is_call and alone(g, d + 1)) for g, n in cs)
        memo[f.usr] = r
        return r

    for f in p.src_funcs():
        if f.is_var:
            continue
        isctor = alone(f)
        wr = set()
        start = None
        for n in f.nodes:
            for w in written(n):
                for m in roots_of(w):
                    wr.add(m.id)
            if f.usr in thread_makers and n.k == "ctor" and n.callee is not None and n.callee.q.startswith("std::thread::thread"):
                start = n.line if start is None else min(start, n.line)
        for n in f.nodes:
            if n.k == "member" and n.var is not None:
                q = untempl(n.var.q)
                if q in fields:
                    # before the thread is started, the starting function is alone
                    pre = start is not None and n.line <= start and f.parent is None
                    acc[q].append((f, n, L.held(f, n), isctor, pre, n.id in wr))
    covered = 0
    for q, (r, x) in sorted(fields.items()):
        a = [z for z in acc[q] if not z[3] and not z[4]]
        if not a:
            continue
        forced = x.name in SHARED.get(r.q, ())
        if not any(z[5] for z in a) and not forced:
            c.ob("fields never written after construction", q)
            continue
        covered += 1
        c.ob("shared fields", q)
        inter = None
        cnt = defaultdict(int)
        for f, n, h, _, _, _ in a:
            c.ob("accesses", n.loc())
            c.seen(f)
            inter = h if inter is None else inter & h
            for m in h:
                cnt[m] += 1
        if not inter:
            best = max(cnt, key=lambda m: cnt[m]) if cnt else None
            for f, n, h, _, _, _ in a:
                if best is None or best not in h:
                    c.violate("%s in %s" % (q, f.q), n.loc(),
                              "%s accesses %s without %s, which protects it everywhere else" % (
                                  f.q, q, best or "any lock") if best else
                              "%s accesses %s, which other threads use, without any lock" % (f.q, q))
    c.need("shared fields", 10)
    c.assumption("locks are identified by the member that holds them (all objects of a class share one identity)")
