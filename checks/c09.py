"""C09  analyses and servers do not influence each other through static storage; no non-reentrant library state is shared."""
import re
from facts import AnalysisError
from prog import strip, strip_all
from flow import written
from locks import Locks, is_mutex_type

NONREENTRANT = {
    "time": set("ctime asctime localtime gmtime".split()), "strtok": {"strtok"}, "rand": {"rand", "srand", "random", "srandom", "drand48", "lrand48"},
    "locale": {"setlocale", "localeconv"}, "strerror": {"strerror"}, "env": {"getenv", "setenv", "putenv", "unsetenv"},
    "net": {"gethostbyname", "gethostbyaddr", "inet_ntoa"}, "tmp": {"tmpnam"}, "dir": {"readdir"}, "conv": {"ecvt", "fcvt", "mblen", "mbtowc", "wctomb"},
    "term": {"getlogin", "ttyname", "getpwnam", "getpwuid"},
}
FAM = {x: k for k, xs in NONREENTRANT.items() for x in xs}
SELF_SYNC = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::condition_variable", "std::atomic<", "std::once_flag",
             "std::atomic_flag", "std::recursive_timed_mutex", "std::timed_mutex")


def name(q):
    return q.split("::")[-1].split("<")[0]


def escapes(n):
    """how a reference to a static object lets it be changed (text), or None when the use only reads it."""
    x = n
    while True:
        u = x.parent
        if u is None:
            return None
        if u.k in ("icast", "cast"):
            if x is not n and u.t.s and not u.t.ref and not u.t.ptr and u.k == "icast":
                pass
            x = u
            continue
        if u.k in ("member", "index") and u.ch and u.ch[0] is x:
            if x.t.const:
                return None
            x = u
            continue
        if u.k == "un" and u.op == "*":
            x = u
            continue
        break
    if x.t.const and not x.t.ptr:
        return None
    for w in written(u):
        if w is x:
            return "modified"
    if u.k == "assign" and u.ch[0] is x:
        return "assigned"
    if u.k == "un" and u.op in ("++", "--"):
        return "modified"
    if u.k == "un" and u.op == "&":
        return addr(u)
    if u.k in ("mcall", "ocall") and u.callee is not None:
        d = u.callee
        if u.obj is x:
            if "c" in d.fl or "s" in d.fl:
                return None
            nm = d.name.split("<")[0]
            # iteration and lookup: what comes back decides
            if nm in ("begin", "end", "cbegin", "cend", "find", "lower_bound", "upper_bound", "at", "operator[]", "data", "front", "back", "get",
                      "operator->", "operator*", "rbegin", "rend", "equal_range"):
                if nm == "operator[]" and ("map<" in x.t.s):
                    return "subscripted with insertion"
                if u.t.s.find("const_iterator") >= 0 or u.t.const:
                    return None
                if nm in ("begin", "end", "find", "lower_bound", "upper_bound", "rbegin", "rend", "equal_range"):
                    return None
                return escapes(u)
            return "modified by %s" % nm
    if u.k == "decl":
        for ds, ini in zip(u.a["ds"], u.ch):
            if ini is x:
                v = u.fn.unit.vd[ds["d"]]
                if v.t.ref and not v.t.const:
                    return "bound to a reference" if alias_written(u.fn, v) else None
                if v.t.ptr and not v.t.const and x.t.ptr is False:
                    return "address kept"
    if u.k == "return":
        t = u.fn.decl.r if u.fn.decl is not None else None
        if t is not None and t.ref and not t.const:
            return "handed out by reference"
    return None


def alias_written(f, v):
    for n in f.nodes:
        if n.k == "ref" and n.var is v and escapes(n):
            return True
    return False


def addr(u):
    p = u.parent
    while p is not None and p.k in ("icast", "cast"):
        p = p.parent
    if p is None:
        return None
    if p.is_call and p.callee is not None:
        for a, t in zip(p.args, p.callee.p):
            if strip(a) is strip(u) and t.ptr and not t.const:
                return "address passed to %s" % p.callee.name
        return None
    if p.k == "return" and p.fn.decl.r.ptr and "const" not in p.fn.decl.r.s:
        return "address handed out"
    return None


def has_lock(p, t):
    r = p.recs.get(t.rec)
    return r is not None and any(is_mutex_type(x.t) for x in r.fields)


def check(c):
    p = c.p
    c.rule("every object with static storage is constant, synchronises itself, is per thread, or is never modified after its (thread-safe) "
           "initialisation; a modification is accepted only under a lock held at every access")
    c.rule("library functions that keep hidden static state are called only while one common lock is held")
    L = Locks(p)
    statics = {}
    for v in p.vars.values():
        if v.unit.name.endswith("hlasmparser.cpp") and v.file.find("/.cache/gen/") >= 0:
            continue
        statics.setdefault((v.q, v.fl.find("l") >= 0), []).append(v)
    uses = {}
    for f in list(p.funcs.values()):
        if "/.cache/gen/" in f.file:
            continue
        for n in f.nodes:
            if n.k in ("ref", "member") and n.var is not None and n.var.kind not in ("local", "param", "bind", "enum", "field", "func"):
                uses.setdefault((n.var.q, n.var.kind), []).append((f, n))
    init_lambda = initialisers(p)
    for (q, loc), vs in sorted(statics.items()):
        for v in vs:
            c.ob("objects with static storage", "%s %s" % (v.loc(), q))
            t = v.t.s.replace("const ", "")
            if "t" in v.fl or t.startswith(SELF_SYNC) or has_lock(p, v.t):
                continue
            if "c" in v.fl and not mutable_inside(p, v.t):
                continue
            if stateless(p, v.t):
                continue
            us = [(f, n) for (uq, k), l in uses.items() if uq == v.q for f, n in l if not loc or f.file == v.file]
            bad = []
            for f, n in us:
                c.ob("uses of non-constant objects with static storage", n.loc())
                c.seen(f)
                w = escapes(n)
                if w and not in_initialiser(p, f, init_lambda) and f.q not in SETUP:
                    bad.append((f, n, w))
            if not bad:
                continue
            held = None
            for f, n in us:
                if in_initialiser(p, f, init_lambda):
                    continue
                h = L.held(f, n)
                held = h if held is None else held & h
            if held:
                continue
            for f, n, w in bad:
                c.violate("%s %s in %s" % (v.q, w, f.q), n.loc(), "%s: static object %s is %s without a lock held at every use; concurrent analyses "
                          "share it" % (f.q, v.q, w))
    # hidden static state of the library
    fam = {}
    for f in p.funcs.values():
        for n in f.nodes:
            if n.k in ("call", "fref") and n.callee is not None and n.callee.u not in p.funcs and name(n.callee.q) in FAM and \
                    (n.callee.q.count("::") == 0 or n.callee.q.startswith("std::")):
                fam.setdefault(FAM[name(n.callee.q)], []).append((f, n))
    for k, l in fam.items():
        held = None
        for f, n in l:
            c.ob("calls of non-reentrant library functions", n.loc())
            c.seen(f)
            h = L.held(f, n)
            held = h if held is None else held & h
        if not held:
            for f, n in l:
                if not L.held(f, n) or len(l) > 1:
                    c.violate("%s in %s" % (name(n.callee.q), f.q), n.loc(),
                              "%s calls %s, whose result lives in storage shared by all threads, without one common lock" % (f.q, name(n.callee.q)))
    c.need("objects with static storage", 150)
    c.need("calls of non-reentrant library functions", 1)


def stateless(p, t):
    """objects of this class are never modified: nothing but constructors writes its fields."""
    r = p.recs.get(t.rec)
    if r is None:
        return False
    for q in [r.q] + list(p.bases(r.q)):
        b = p.recs.get(q)
        if b is None:
            if q.startswith("std::") :
                return False
            continue
        for x in b.fields:
            if x.mut or any(not f.is_var and f.name.split("<")[0] != name(b.q) for f in direct_writers(p, x.q)):
                return False
    return True


def direct_writers(p, fq):
    m = p.__dict__.get("_dw")
    if m is None:
        m = p._dw = {}
        for f in p.funcs.values():
            for n in f.nodes:
                for w in written(n):
                    x = strip(w)
                    while x is not None:
                        if x.k == "member" and x.var is not None:
                            m.setdefault(x.var.q, set()).add(f)
                        x = strip(x.ch[0]) if x.k in ("member", "index") or (x.k == "ocall" and x.op in ("[]",)) else None
    return m.get(fq, ())


# written once with the same constant while the streams are set up, before any thread exists
SETUP = {"hlasm_plugin::language_server::newline_is_space::get_table"}


def mutable_inside(p, t):
    r = p.recs.get(t.rec)
    return r is not None and any(x.mut and not x.t.s.startswith(SELF_SYNC) for x in r.fields)


def initialisers(p):
    """functions that run only as (part of) the initialiser of an object with static storage: their usrs."""
    roots = set()
    for v in p.vars.values():
        for n in v.nodes:
            if n.k in ("lambda", "fref") or n.is_call:
                if n.callee is not None:
                    roots.add(n.callee.u)
    return roots


def in_initialiser(p, f, roots, d=0):
    if f.is_var:
        return True
    rc = p.callers().get(f.usr, ())
    if d > 4:
        return False
    # every caller is an initialiser of a static object (those calls are not in the call graph of functions)
    if f.usr in roots and not rc:
        return True
    if f.usr in roots:
        return all(static_init_site(g, n) or in_initialiser(p, g, roots, d + 1) for g, n in rc)
    return bool(rc) and all(static_init_site(g, n) or in_initialiser(p, g, roots, d + 1) for g, n in rc)


def static_init_site(g, n):
    x = n
    for u in n.up():
        if u.k == "decl":
            for ds, ini in zip(u.a["ds"], u.ch):
                if ini is not None and any(y is n for y in ini.walk()):
                    return g.unit.vd[ds["d"]].kind == "slocal"
        if u.k in ("block", "if", "while", "for"):
            return False
    return False
