"""C04  protocol output: whole frames, correct length, nothing else on the channel."""
from facts import AnalysisError
from prog import strip, strip_all
from flow import Sim
from prov import defs
from locks import Locks, is_guard_type
import strval
from strval import pieces, number, join

LS = "hlasm_plugin::language_server::"
CH = LS + "base_protocol_channel"
OUT_FUNCS = {"printf", "puts", "putchar", "putc", "fputs", "fputc", "fprintf", "vprintf", "vfprintf", "fwrite", "putchar_unlocked"}


def is_ostream(t):
    return "basic_ostream<" in t.s or "basic_iostream<" in t.s


class Frames(Sim):
    """state: (pieces written since the start, flags)"""

    def __init__(self, c, outfield):
        super().__init__(c.p)
        self.c = c
        self.outfield = outfield
        self.env_streams = set()
        self.writes = []

    def is_out(self, n, env):
        s = strip(n)
        k = 0
        while s is not None and k < 40:
            k += 1
            if s.k == "member" and s.var is not None and s.var.q == self.outfield:
                return True
            if s.k == "ref" and s.var is not None:
                if env.get(s.var) == "OUT":
                    return True
                ds = defs(s.fn).get(s.var, [])
                if len(ds) == 1 and is_ostream(s.var.t):
                    s = strip(ds[0])
                    continue
                return False
            if s.k == "ocall" and s.op == "<<" and s.ch:
                s = strip(s.ch[0])
                continue
            if s.k == "call" and s.callee is not None and s.callee.name.startswith("operator<<") and s.ch:
                s = strip(s.ch[0])
                continue
            if s.k == "mcall" and s.callee is not None and s.callee.name in ("write", "put", "flush") and s.ch and is_ostream(s.ch[0].t):
                s = strip(s.ch[0])
                continue
            return False
        return False

    def event(self, n, st, env):
        ps, fl = st
        if n.k == "mcall" and n.callee is not None and n.ch and n.ch[0] is not None and is_ostream(n.ch[0].t) and self.is_out(n.ch[0], env):
            nm = n.callee.name
            if nm == "write" and len(n.ch) == 3:
                self.writes.append(n)
                x = pieces(self.p, n.ch[1], env)
                ln = number(self.p, n.ch[2], env)
                if ln[0] == "lit":
                    ok = len(x) == 0 and ln[1] == "0" or (len(x) == 1 and x[0][0] == "lit" and str(len(x[0][1])) == ln[1])
                    if not ok and len(x) == 1 and x[0][0] == "lit":
                        x = (("lit", x[0][1][:int(ln[1])]),)
                elif ln[0] in ("len", "num"):
                    ok = ln[1] == x
                    if not ok:
                        x = (("part", repr(x), repr(ln[1])),)
                else:
                    x = (("?", "length of a write"),)
                return [(join(ps + x), fl)]
            if nm in ("put",):
                self.writes.append(n)
                return [(join(ps + pieces(self.p, n.ch[1], env)), fl)]
            if nm == "flush":
                return [(ps + (("flush",),), fl)] if ps and ps[-1] != ("flush",) else [(ps, fl)]
            if nm.startswith("operator<<") and len(n.ch) == 2:
                return self.shift(n, n.ch[1], ps, fl, env)
            return None
        if n.k == "ocall" and n.op == "<<" and len(n.ch) == 2 and self.is_out(n.ch[0], env):
            return self.shift(n, n.ch[1], ps, fl, env)
        if n.k == "mcall" and n.callee is not None and n.callee.name == "unlock":
            return [(ps + (("rel",),), fl)] if ps else [st]
        return None

    def shift(self, n, a, ps, fl, env):
        self.writes.append(n)
        s = strip(a)
        if s is not None and s.k == "fref" or (s is not None and s.k == "ref" and s.callee is not None):
            nm = s.callee.name if s.callee is not None else ""
            if nm.startswith("endl"):
                return [(join(ps + (("lit", "\n"),)) + (("flush",),), fl)]
            if nm.startswith("flush"):
                return [(ps + (("flush",),), fl)]
            return [(ps, fl)]
        if strval.text_type(s.t) or s.k == "chr" or s.t.s in ("char", "const char"):
            x = pieces(self.p, a, env)
        else:
            x = (number(self.p, a, env),)
        return [(join(ps + x), fl)]

    def dtor(self, v, st, env, f):
        ps, fl = st
        if is_guard_type(v.t) and ps and ps[-1] != ("rel",):
            return (ps + (("rel",),), fl)
        return st

    def absval(self, n, env):
        s = strip(n)
        if s is None:
            return None
        if is_ostream(s.t):
            return "OUT" if self.is_out(s, env) else None
        if strval.text_type(s.t):
            return pieces(self.p, n, env)
        if s.t.w and s.t.w > 1:
            z = number(self.p, n, env)
            return (z,) if z[0] != "?" else None
        if "basic_json" in s.t.s:
            return (("val", strval.ident(self.p, s, env)),)
        return None

    def descend(self, f, n, st):
        return f.file.startswith("/repo/language_server/src/") and (f.cls == CH or any(is_ostream(v.t) for v in f.params) or
                                                                     any(is_ostream(x.t) for x in f.nodes if x.k in ("member", "ref")))


def frame_error(ps):
    """None if ps is one frame or nothing"""
    if not ps:
        return None
    core = list(ps)
    # what follows the last release is outside
    rel = [i for i, x in enumerate(core) if x == ("rel",)]
    data_after = lambda i: any(x[0] not in ("rel", "flush") for x in core[i + 1:])
    if any(data_after(i) for i in rel):
        return "the lock is released between parts of one message"
    unk = [x for x in core if x[0] == "?"]
    if unk:
        return "?" + repr(unk)
    core2 = join([x for x in core if x[0] not in ("rel", "flush")])
    if not core2:
        return None
    if any(x[0] == "part" for x in core2):
        return "the number of bytes written is not the length of the text: %r" % (core2,)
    # header: literal 'Content-Length: ' , len X, '\r\n\r\n', X
    if len(core2) < 4 or core2[0] != ("lit", "Content-Length: ") or core2[1][0] != "len" or core2[2] != ("lit", "\r\n\r\n"):
        # other headers are allowed in front or behind, ended by an empty line
        return "the output is not 'Content-Length: <length>', empty line, body: %r" % (core2,)
    if tuple(core2[3:]) != tuple(core2[1][1]):
        return "the announced length is the length of something else than the body: %r" % (core2,)
    # flushed after the last data
    last = max(i for i, x in enumerate(ps) if x[0] not in ("rel", "flush"))
    if not any(x == ("flush",) for x in ps[last:]):
        return "the message is not flushed"
    return None


def check(c):
    p = c.p
    c.rule("on every path through the channel's write functions the bytes put on the output stream are nothing, or exactly "
           "'Content-Length: ' + decimal length of the body + CRLF CRLF + body, then flushed, the body being the serialised message; "
           "the write lock is held from the first to the last byte; standard output is used by nothing but the channel")
    r = p.rec(CH)
    outs = [f for f in r.fields if is_ostream(f.t)]
    if not outs:
        raise AnalysisError("the channel no longer has an output stream member")
    outf = outs[0].q
    roots = [f for f in p.src_funcs() if f.cls == CH and f.name == "write"]
    c.ob("write entry points", n=len(roots))
    c.need("write entry points", 1)
    L = Locks(p)
    dumpers = set()
    for f in roots:
        c.seen(f)
        s = Frames(c, outf)
        res, exc = s.run(f, ((), 0), {v: (("val", "message"),) for v in f.params})
        for (st, _), tr in res.items():
            c.ob("paths of write functions", "%s lines %s" % (f.loc(), list(tr)))
            e = frame_error(st[0])
            if e and e.startswith("?"):
                c.ob("paths whose text could not be followed", "%s %s" % (f.loc(), e))
                continue
            if e:
                c.violate("frame in %s" % f.q, f.loc(), "%s: %s" % (f.q, e))
            elif st[0]:
                body = repr(st[0][-1:] if st[0][-1][0] == "val" else st[0])
                if "dump" not in body:
                    c.violate("body in %s" % f.q, f.loc(), "%s writes a body that is not the serialised message: %s" % (f.q, body))
        if not any(st[0] for (st, _) in res):
            c.violate("no output in %s" % f.q, f.loc(), "%s writes nothing on any path" % f.q)
        common = None
        for w in s.writes:
            c.ob("writes to the output stream", w.loc())
            h = L.held(w.fn, w)
            common = h if common is None else common & h
            if not h:
                c.violate("unlocked write in %s" % w.fn.q, w.loc(), "%s writes to the protocol output without holding the write lock" % w.fn.q)
        for u in s.fns:
            c.seen(p.funcs[u])
    c.need("writes to the output stream", 1)
    # all writers of the stream member are covered by the entry points
    live = p.reach([f for f in p.src_funcs() if f.file.startswith("/repo/language_server/src/")])
    for f in p.src_funcs():
        if f.usr not in live and not f.is_var:
            continue
        for n in f.nodes:
            if n.k == "member" and n.var is not None and n.var.q == outf and f.usr not in c.fns:
                par = n.parent
                if not (f.name == "base_protocol_channel"):
                    c.violate("output used in %s" % f.q, n.loc(), "%s uses the protocol output outside the framed write" % f.q)
            # standard output
            if n.k == "ref" and n.var is not None and n.var.q in ("std::cout", "stdout", "std::wcout", "std::clog") and n.var.q != "std::clog":
                c.ob("uses of standard output", n.loc())
                par = n.parent
                while par is not None and par.k in ("icast", "cast"):
                    par = par.parent
                ok = par is not None and (
                    (par.k == "ctor" and par.callee is not None and par.callee.cls in (CH,)) or
                    (par.k == "mcall" and par.callee is not None and par.callee.name in ("imbue", "tie", "sync_with_stdio", "flush", "rdbuf")) or
                    (par.k == "call" and par.callee is not None and par.callee.name in ("_fileno", "fileno", "_setmode", "setvbuf", "fflush")) or
                    par.k in ("decl", "return", "ilist", "cond"))
                if not ok:
                    c.violate("stdout in %s" % f.q, n.loc(), "%s writes to standard output, which carries the protocol" % f.q)
            if n.k == "call" and n.callee is not None and n.callee.name in OUT_FUNCS and n.callee.q in (n.callee.name, "std::" + n.callee.name):
                a = [strip_all(x) for x in n.ch if x is not None]
                if any(x is not None and x.k == "ref" and x.var is not None and x.var.q == "stderr" for x in a):
                    continue
                if n.callee.name in ("fputs", "fputc", "putc", "fprintf", "vfprintf", "fwrite") and not any(
                        x is not None and x.k == "ref" and x.var is not None and x.var.q == "stdout" for x in a):
                    continue
                c.violate("stdout in %s" % f.q, n.loc(), "%s writes to standard output (%s), which carries the protocol" % (f.q, n.callee.name))
    c.need("uses of standard output", 1)
    c.rule("every stage between the reader and a server, and between a server and the channel (router, sessions, queues, wrappers), "
           "hands each message on exactly once on every path")
    forwarding(c)


class Forward(Sim):
    """counts how often a message is handed on"""

    def __init__(self, p, sinks):
        super().__init__(p)
        self.sinks = sinks
        self.sites = []

    def is_forward(self, n):
        d = n.callee
        return n.k == "mcall" and d is not None and d.cls is not None and (
            (d.name in ("write", "reply") and d.cls in self.sinks) or
            (d.name == "push" and "blocking_queue" in d.cls))

    def event(self, n, st, env):
        if self.is_forward(n):
            self.sites.append(n)
            return [min(st + 1, 3)]
        return None

    def decide(self, x, env):
        s = strip(x)
        if s is not None and s.k == "member" and s.t.ptr and s.t.rec in self.sinks:
            return True
        return None

    def descend(self, f, n, st):
        return f.file.startswith("/repo/language_server/src/") and not (f.cls in self.sinks and f.name in ("write", "reply")) and \
            any(self.is_forward(x) for x in f.nodes)


def forwarding(c):
    from prov import tags
    p = c.p
    sinks = set()
    for b in (LS + "json_sink", LS + "send_message_provider"):
        sinks |= {b} | p.derived(b)
    for f in p.src_funcs():
        if f.cls not in sinks or f.name not in ("write", "reply") or f.cls == CH or "emscripten" in f.file:
            continue
        s = Forward(p, sinks)
        outs, exc = s.run(f, 0)
        c.seen(f)
        c.ob("forwarding functions", f.loc())
        optional = "session_manager" in f.cls
        for (k, _), tr in outs.items():
            if k > 1 or (k == 0 and not optional):
                c.violate("forward %s" % f.q, f.loc(), "%s hands a message on %s on the path through lines %s" % (
                    f.q, "more than once" if k else "to nobody", list(tr)))
        if not any(k == 1 for (k, _) in outs):
            c.violate("forward %s" % f.q, f.loc(), "%s never hands a message on" % f.q)
        for n in s.sites:
            if n.fn is f and f.params:
                t = tags(p, n.ch[1], {f.params[0]: "MSG"})
                if "MSG" not in t:
                    c.violate("forward other %s" % f.q, n.loc(), "%s hands on something that is not the message it was given" % f.q)
    c.need("forwarding functions", 4)
