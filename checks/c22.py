"""C22  the text that is analysed is the editor's; a document somebody else holds is never changed under his hands."""
import os
from prog import strip
from flow import canon
from prov import defs
from mustdo import MustDo
from facts import AnalysisError
from c18 import between, calls, field, mentions, sides, target

D = "hlasm_plugin::parser_library::"
W = D + "workspaces::"
F = W + "file_impl"
FM = W + "file_manager_impl"
KNOWN = set(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "functions.txt")).read().splitlines())
STATE = {"text_", "lines_ind_", "up_to_date_", "editing_", "bad_", "version_"}


def own(n, name):
    if field(n, name):
        return n.var.q == F + "::" + name
    # a parameter of a helper that the document hands its text or its lines to
    return name in ("text_", "lines_ind_") and n is not None and n.k == "ref" and n.var is not None and n.var.kind == "param" and n.fn.q not in KNOWN \
        and n.fn.relfile.endswith("workspaces/file_impl.cpp") and ("vector" in n.var.t.s) == (name == "lines_ind_") and "&" in n.var.t.s


def men(p, f, e, pred, d=0):
    """does an expression mention something, also through locals defined once and through lambdas and new helpers it calls?"""
    if e is None or d > 4:
        return False
    for y in e.walk():
        if pred(y):
            return True
        if y.k == "ref" and y.var is not None and y.var.kind == "local":
            if any(x is not None and men(p, f, x, pred, d + 1) for x in defs(f).get(y.var, ())):
                return True
        if y.is_call and y.callee is not None:
            for t in p.targets(y):
                if (t.parent is not None or t.q not in KNOWN) and any(pred(z) for z in t.nodes):
                    return True
    return False


def refs(n, v):
    return mentions(n, lambda y: y.k == "ref" and y.var is not None and y.var is v)


def owners(p, f, d=0):
    """the functions of the reference tree on whose behalf a new helper works"""
    if f.parent is not None and f.parent in p.funcs:
        return owners(p, p.funcs[f.parent], d)
    if f.q in KNOWN or d > 3:
        return {f.q}
    out = set()
    for g, _ in p.callers().get(f.usr, ()):
        out |= owners(p, g, d + 1)
    return out or {f.q}


def check(c):
    p = c.p

    def const(n):
        s = strip(n)
        return None if s is None else s.v

    def ev(n):
        out = set()
        l, op = target(n)
        if l is not None and op == "=":
            for k in ("up_to_date_", "editing_", "bad_"):
                if own(l, k):
                    out.add("%s=%s" % (k, const(n.ch[1])))
            if own(l, "text_"):
                out |= {"text", "-lines"}
            if own(l, "version_"):
                out.add("version")
            if own(l, "lines_ind_"):
                r = strip(n.ch[1])
                if mentions(r, lambda y: calls(y, "create_line_indices")) and mentions(r, lambda y: own(y, "text_")):
                    out |= {"clear", "zero", "lines"}
        if n.is_call and n.k != "ctor" and n.callee is not None:
            o = strip(n.ch[0]) if n.ch and n.ch[0] is not None else None
            if own(o, "lines_ind_"):
                if n.callee.name == "clear":
                    out.add("clear")
                if n.callee.name in ("push_back", "emplace_back") and n.args and const(n.args[0]) == 0:
                    out.add("zero")
                if n.callee.name == "assign" and len(n.args) == 2 and const(n.args[0]) == 1 and const(n.args[1]) == 0:
                    out |= {"clear", "zero"}
            if n.callee.name == "find_newlines" and any(own(strip(a), "text_") for a in n.args if a is not None) and any(own(strip(a), "lines_ind_") for a in n.args if a is not None):
                out.add("lines")
            if own(o, "text_") and n.callee.name in ("replace", "assign", "append", "insert", "erase", "clear", "swap", "push_back", "resize"):
                out.add("text")
        return {x for x in out if not x.startswith("-")}
    M = MustDo(p, ev)

    def does(n, what):
        return what in M.node(n, 0)

    def exits(f, d):
        x = M.flow(f)[1]
        return x if x is not None else frozenset(d)

    # ---- the state of a document
    c.rule("the text of a document comes from the editor when it is opened or changed and from the disk otherwise, on every path; open and closed "
           "are recorded by opening and closing only; the index of lines is rebuilt from the text after every change")
    fo = p.fns(F + "::did_open")
    fc = p.fns(F + "::did_close")
    fl = p.fns(F + "::load_text")
    fch = p.fns(F + "::did_change")
    if not (fo and fc and fl and len(fch) >= 2):
        raise AnalysisError("the functions of a document were not recognised")
    for f in fo:
        c.seen(f)
        c.ob("document events", f.q)
        want = {"text": "take over the text", "up_to_date_=1": "mark the text as current", "editing_=1": "mark the document as open", "bad_=0": "mark the document as readable",
                "clear": "forget the old lines", "zero": "index the first line", "lines": "index the lines", "version": "take over the version"}
        got = exits(f, want)
        for k, t in want.items():
            if k not in got:
                c.violate("open.%s" % k, f.loc(), "opening a document does not %s on every path" % t)
    for f in fc:
        c.seen(f)
        c.ob("document events", f.q)
        if "editing_=0" not in exits(f, ("editing_=0",)):
            c.violate("close", f.loc(), "closing a document does not record it on every path")
        if "up_to_date_=0" not in exits(f, ("up_to_date_=0",)):
            c.violate("close.text", f.loc(), "after a document is closed, what was not saved can still be taken for its text")
    for f in fch:
        c.seen(f)
        c.ob("document events", f.loc())
        got = exits(f, ("text", "clear", "zero", "lines"))
        if "text" not in got:
            c.violate("change.text", f.loc(), "changing a document does not change its text on every path")
    W_OK = {"editing_": {F + "::did_open", F + "::did_close"}, "text_": {F + "::did_open", F + "::did_change", F + "::load_text"},
            "lines_ind_": {F + "::did_open", F + "::did_change"}, "up_to_date_": {F + "::did_open", F + "::load_text", F + "::did_close", F + "::did_change"},
            "bad_": {F + "::did_open", F + "::load_text"}}
    for f in p.src_funcs():
        if f.cls != F or f.name == "file_impl":
            continue
        texts = []
        for n in f.nodes:
            l, op = target(n)
            o = strip(n.ch[0]) if n.is_call and n.k == "mcall" and n.ch and n.ch[0] is not None else None
            for k in STATE:
                w = own(l, k) or (own(o, k) and n.callee is not None and n.callee.name in (
                    "clear", "push_back", "emplace_back", "replace", "assign", "append", "insert", "erase", "swap", "resize", "pop_back"))
                if not w:
                    continue
                c.ob("writes of the state of a document", n.loc())
                c.seen(f)
                bad = owners(p, f) - W_OK[k] if k in W_OK else set()
                if bad:
                    c.violate("write.%s.%s" % (k, sorted(bad)[0]), n.loc(), "%s changes %s of a document, which only %s may do" % (f.q, k, ", ".join(sorted(x.rsplit("::", 1)[-1] for x in W_OK[k]))))
                if k == "text_":
                    texts.append(n)
        if owners(p, f) & {F + "::did_open", F + "::did_change"} and f.q in KNOWN:
            for n in [m for m in f.nodes if "text" in ev(m) or (m.is_call and does(m, "text"))]:
                c.ob("changes of an open text", n.loc())
                if not does(n, "lines") and between(f, n, None, hit=lambda e: does(e, "lines")):
                    c.violate("lines.%s" % f.q, n.loc(), "%s changes the text on a path without indexing the lines afterwards: later changes would be made at wrong places" % f.q)
            # the rebuild happens in this order
            for n in [m for m in f.nodes if "lines" in ev(m)]:
                if between(f, None, lambda e: e is n, hit=lambda e: does(e, "zero")) and not does(n, "zero"):
                    c.violate("lines.%s.order" % f.q, n.loc(), "%s indexes the lines on a path on which the first line is not indexed yet" % f.q)
                if between(f, n, lambda e: e is not n and (does(e, "clear") or does(e, "zero") or does(e, "text"))):
                    c.violate("lines.%s.order" % f.q, n.loc(), "%s changes text or lines after the lines were indexed" % f.q)
            for n in [m for m in f.nodes if "zero" in ev(m)]:
                if between(f, None, lambda e: e is n, hit=lambda e: does(e, "clear")) and not does(n, "clear"):
                    c.violate("lines.%s.order" % f.q, n.loc(), "%s indexes the first line on a path on which the old lines were not forgotten" % f.q)
    c.need("writes of the state of a document", 12)
    c.need("changes of an open text", 3)

    # what the texts are
    def param(f, i, typ=None):
        return f.params[i] if i < len(f.params) else None
    for f in fo + fch:
        prm = [v for v in f.params if "string" in v.t.s]
        if not prm:
            raise AnalysisError("%s has no text" % f.q)
        ws = [n for n in f.nodes if "text" in ev(n)]
        for n in ws:
            c.ob("texts taken over", n.loc())
            src = [x for x in ([n.ch[1]] if n.k in ("assign", "ocall", "bin") and n.op == "=" else n.args) if x is not None]
            ok = any(refs(x, v) for x in src for v in prm)
            if n.is_call and n.k == "mcall" and n.callee.name == "replace" and len(n.args) >= 3:
                ok = ok and any(refs(n.args[2], v) for v in prm) and positions_ok(p, f, n)
            if not ok:
                # built in a local: the text before the range, the new one, and the text behind it
                loc = {y.var for x in src for y in x.walk() if y.k == "ref" and y.var is not None and y.var.kind == "local"}
                parts = [m for m in f.nodes for v in loc if (m.k == "mcall" and m.obj is not None and strip(m.obj).k == "ref" and strip(m.obj).var is v)
                         or (target(m)[0] is not None and target(m)[0].k == "ref" and target(m)[0].var is v)] + [x for v in loc for x in defs(f).get(v, ()) if x is not None]
                ok = any(refs(x, v) for x in parts for v in prm) and (len(f.params) < 2 or all(any(men(p, f, x, lambda y: field(y, w)) for x in parts) for w in ("start", "end")))
            if not ok:
                c.violate("taken.%s" % f.q, n.loc(), "%s does not put the editor's text in its place" % f.q)
        c.seen(f)
    for f in fl:
        for n in f.nodes:
            if "text" not in ev(n) or not (n.k in ("assign", "ocall") and n.op == "="):
                continue
            c.ob("texts taken over", n.loc())
            r = strip(n.ch[1])
            if mentions(r, lambda y: calls(y, "replace_non_utf8_chars")) or _empty(r):
                continue
            if r.k == "ref" and r.var is not None and any(d is not None and mentions(d, lambda y: calls(y, "replace_non_utf8_chars")) for d in defs(f).get(r.var, ())):
                continue
            if r.is_call and r.callee is not None and r.callee.q == "std::move" and r.args and strip(r.args[0]).k == "ref" and \
                    any(d is not None and mentions(d, lambda y: calls(y, "replace_non_utf8_chars")) for d in defs(f).get(strip(r.args[0]).var, ())):
                continue
            c.violate("disk", n.loc(), "%s takes over text from the disk that may not be valid UTF-8" % f.q)
        # success sets current, failure sets bad
        got = exits(f, ())
        c.ob("document events", f.q)
        for n in f.nodes:
            if "text" in ev(n):
                if between(f, n, None, hit=lambda e: does(e, "bad_=0") or does(e, "bad_=1")) and between(f, None, lambda e: e is n, hit=lambda e: does(e, "bad_=0") or does(e, "bad_=1")):
                    c.violate("disk.bad", n.loc(), "%s does not record on every path whether the document could be read" % f.q)

    c.rule("a document is read from the disk only when it is not open in the editor, or has no text yet")
    lu = {f.usr for f in fl}
    n_loads = 0
    for f in p.src_funcs():
        for n in f.nodes:
            if not (n.is_call and n.k != "ctor" and any(t.usr in lu for t in p.targets(n))):
                continue
            n_loads += 1
            c.ob("reads from the disk", n.loc())
            c.seen(f)
            if between(f, None, lambda e: e is n, edge=lambda x, t: not t and (own(strip(x), "editing_") or own(strip(x), "up_to_date_") or calls(strip(x), "get_lsp_editing"))):
                cs = p.callers().get(f.usr, ())
                if f.q not in KNOWN and cs and all(not between(g, None, lambda e: e is m, edge=lambda x, t: not t and (own(strip(x), "editing_") or own(strip(x), "up_to_date_"))) for g, m in cs):
                    continue
                c.violate("load.%s" % f.q, n.loc(), "%s reads a document from the disk on a path on which it may be open in the editor" % f.q)
    if n_loads < 2:
        raise AnalysisError("only %d reads from the disk were found" % n_loads)
    for f in p.fns(F + "::get_text"):
        c.seen(f)
        c.ob("reads from the disk", f.q)
        if between(f, None, None, hit=lambda e: e.is_call and any(t.usr in lu or (t.q not in KNOWN and any(z.is_call and any(u.usr in lu for u in p.targets(z)) for z in t.nodes)) for t in p.targets(e)),
                   edge=lambda x, t: t and own(strip(x), "up_to_date_")):
            c.violate("get_text", f.loc(), "%s returns a text that was never read" % f.q)
    for f in p.fns(F + "::get_lsp_editing"):
        c.ob("document events", f.q)
        if any(n.k == "return" and n.ch and not own(strip(n.ch[0]), "editing_") for n in f.nodes):
            c.violate("editing", f.loc(), "%s does not tell whether the document is open" % f.q)

    # ---- what others hold
    c.rule("before the manager of documents changes one of its documents, the document was replaced by a copy if somebody else holds it")
    prep = {f.usr for f in p.fns(FM + "::prepare_file_for_change_")}
    if not prep:
        raise AnalysisError("prepare_file_for_change_ is gone")
    slot = lambda e: canon(e)
    for f, n in [(f, n) for f in p.src_funcs() for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name in ("did_open", "did_change", "did_close")
                 and (n.callee.cls or "") in (F, W + "file")]:
        lam = f.parent is not None
        for f, n in lifted(p, f, n):
            if f.cls != FM:
                continue
            c.ob("changes of documents", n.loc())
            c.seen(f)
            k = {same(f, a) for a in n.args if a is not None} if lam else {same(f, strip(n.obj if n.obj is not None else n.ch[0]))}

            def prepared(e):
                if not e.is_call:
                    return False
                if any(t.usr in prep for t in p.targets(e)):
                    return bool(e.args) and (same(f, strip(e.args[0])) in k or lam and not k)
                return any(t.q not in KNOWN and any(z.is_call and any(u.usr in prep for u in p.targets(z)) for z in t.nodes) for t in p.targets(e))
            # a document that was not there before is held by nobody
            if between(f, None, lambda e: e is n, hit=prepared, edge=lambda x, t: any(op == "==" and calls(b, "end", "cend") for a, op, b in sides(x, t))):
                cs = p.callers().get(f.usr, ())
                if f.q not in KNOWN and cs and all(not between(g, None, lambda e: e is m, hit=lambda e: e.is_call and any(t.usr in prep for t in p.targets(e))) for g, m in cs):
                    continue
                c.violate("prepare.%s" % f.q, n.loc(), "%s changes a document that somebody else may hold" % f.q)
    c.need("changes of documents", 4)
    for f in p.fns(FM + "::prepare_file_for_change_"):
        c.seen(f)
        c.ob("changes of documents", f.q)
        v = f.params[0]

        def alone(x, t):
            s = strip(x)
            if t and calls(s, "unique"):
                return True
            return any(calls(a, "use_count") and b.v is not None and ((op == "==" and b.v == 1) or (op == "<=" and b.v == 1) or (op == "<" and b.v == 2)) for a, op, b in sides(x, t))

        def replaced(e):
            l, op = target(e)
            if not (op == "=" and l is not None and l.k == "ref" and l.var is v):
                if not (calls(e, "reset", "swap") and e.obj is not None and refs(e.obj, v) and e.args):
                    return False
                rs = [e.args[0]]
            else:
                rs = [e.ch[1]]
            s = strip(rs[0])
            if s is not None and s.is_call and s.callee is not None and s.callee.q == "std::move" and s.args:
                s = strip(s.args[0])
            if s is not None and s.k == "ref" and s.var is not None and s.var.kind == "local":
                rs = [x for x in defs(f).get(s.var, ()) if x is not None]
            return bool(rs) and all(mentions(r, lambda y: calls(y, "make_shared", "make_unique") or y.k == "new") and any(refs(y, v) for y in r.walk()) and
                                    not mentions(r, lambda y: y.is_call and y.callee is not None and y.callee.q == "std::move") for r in rs)
        if between(f, None, None, hit=replaced, edge=alone):
            c.violate("copy", f.loc(), "%s lets a document be changed that is held elsewhere" % f.q)
    for f in p.src_funcs():
        if f.cls == W + "processor_file_impl" and f.name == "processor_file_impl" and f.params and "file_impl" in f.params[0].t.s:
            c.ob("changes of documents", f.loc())
            if not any(refs(i, f.params[0]) for i in _inits(f)):
                c.violate("copy.ctor", f.loc(), "a copy of a document is made without its text")

    c.rule("every opening, change and closing reaches the document, and the table of documents changes only by opening, adding and forgetting one")
    for nm, via in (("did_open_file", "did_open"), ("did_close_file", "did_close")):
        for f in p.fns(FM + "::" + nm):
            c.seen(f)
            c.ob("notifications handed on", f.q)

            def hits(e, d=0):
                return calls(e, via) or d < 2 and e.is_call and any((t.q not in KNOWN or t.parent is not None) and t.blocks and not between(t, None, None, hit=lambda x: hits(x, d + 1)) for t in p.targets(e))
            if between(f, None, None, hit=hits, edge=lambda x, t: via == "did_close" and any(op == "==" and (calls(b, "end", "cend") or b.k == "null") for a, op, b in sides(x, t))):
                c.violate("reach.%s" % nm, f.loc(), "%s can leave the document as it was" % f.q)
    WM = D + "workspace_manager::impl::"
    LT = "hlasm_plugin::language_server::lsp::feature_text_synchronization::"
    for q, via in ((WM + "did_close_file", "did_close_file"), (WM + "did_change_watched_files", None), (WM + "did_open_file", None), (W + "workspace::did_close_file", "did_close_file"),
                   (LT + "on_did_open", "did_open_file"), (LT + "on_did_change", "did_change_file"), (LT + "on_did_close", "did_close_file")):
        for f in p.fns(q):
            if via is None:
                continue
            c.seen(f)
            c.ob("notifications handed on", f.q)

            def hits2(e, d=0):
                return calls(e, via) and not any(t.usr == f.usr for t in p.targets(e)) or d < 2 and e.is_call and any((t.q not in KNOWN or t.parent is not None) and t.blocks and not between(t, None, None, hit=lambda x: hits2(x, d + 1)) for t in p.targets(e))
            if between(f, None, None, hit=hits2, edge=lambda x, t: t and calls(strip(x), "empty") and q.startswith(LT)):
                c.violate("reach.%s" % f.name, f.loc(), "%s can drop the notification" % f.q)
    for f in p.src_funcs():
        if not f.relfile.startswith("parser_library/src/workspaces/file_manager_impl"):
            continue
        for n in f.nodes:
            o = strip(n.obj) if n.k == "mcall" and n.obj is not None else None
            if o is None or not (field(o, "files_") and o.var.q == FM + "::files_"):
                continue
            nm = n.callee.name if n.callee is not None else ""
            if nm in ("erase", "clear", "swap", "extract", "insert_or_assign", "merge"):
                c.ob("changes of the table of documents", n.loc())
                c.seen(f)
                ok = nm in ("erase", "extract") and owners(p, f) == {FM + "::remove_file"} and n.args and men(p, f, n.args[0], lambda y: y.k == "ref" and y.var is not None and y.var.kind == "param")
                if not ok:
                    c.violate("table.%s" % f.q, n.loc(), "%s forgets documents nobody asked to forget" % f.q)
    c.need("changes of the table of documents", 1)
    for f in p.fns(FM + "::change_into_processor_file_if_not_already_"):
        c.seen(f)
        v = f.params[0]
        for n in f.nodes:
            if calls(n, "make_shared") and "processor_file_impl" in n.t.s:
                c.ob("changes of documents", n.loc())
                if not any(a is not None and "file_impl" in strip(a).t.s and men(p, f, a, lambda y: y.k == "ref" and y.var is v) and "string" not in strip(a).t.s for a in n.args):
                    c.violate("convert", n.loc(), "%s loses the text of a document" % f.q)

    # ---- the order of the edits
    c.rule("all changes of a notification are applied, in their order, each to the range it is meant for")
    for f in p.fns(FM + "::did_change_file"):
        c.seen(f)
        calls_ = [n for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name == "did_change"]
        if not calls_:
            sub = [t for n in f.nodes if n.is_call for t in p.targets(n) if t.q not in KNOWN and any(z.k == "mcall" and z.callee is not None and z.callee.name == "did_change" for z in t.nodes)]
            if not sub:
                c.violate("changes.none", f.loc(), "%s applies no change" % f.q)
            continue
        loop = None
        for n in calls_:
            loop = loop or next((u for u in n.up() if u.k in ("for", "rfor", "while", "do")), None)
            whole = len(n.args) == 1
            c.ob("changes applied", n.loc())

            def kind(x, t):
                s = strip(x)
                return field(s, "whole") and t == whole
            if between(f, None, lambda e: e is n, edge=kind):
                c.violate("changes.kind", n.loc(), "%s replaces %s on a path on which the change is not of that kind" % (f.q, "the whole text" if whole else "a range"))
            if not whole and not mentions(n.args[0], lambda y: field(y, "change_range")):
                c.violate("changes.range", n.loc(), "%s applies a change to another range than given" % f.q)
        if loop is None:
            c.violate("changes.loop", f.loc(), "%s applies only one change" % f.q)
        elif loop.k == "for":
            if not forward(f, loop):
                c.violate("changes.order", loop.loc(), "%s does not apply all changes from the first to the last" % f.q)
        for x in loop.walk() if loop is not None else ():
            if x.k == "continue" and next((u for u in x.up() if u.k in ("for", "rfor", "while", "do")), None) is loop:
                blk = next(iter(x.up()), None)
                if blk is None or not any(y is z for y in blk.walk() for z in calls_):
                    c.violate("changes.loop", x.loc(), "%s leaves out a change" % f.q)
        if loop is not None and any(x.k in ("break", "return") for x in loop.walk()):
            c.violate("changes.loop", loop.loc(), "%s stops before the last change" % f.q)
        if loop is not None:
            rng = {x.id for x in loop.walk()}
            # every path through the function that found the document reaches the loop: only the absence of the document ends it before
            if between(f, None, None, hit=lambda e: e.id in rng, edge=lambda x, t: any(op == "==" and (calls(b, "end", "cend") or b.v == 0) for a, op, b in sides(x, t))):
                c.violate("changes.skipped", f.loc(), "%s can leave out the changes of an open document" % f.q)
    LS = "hlasm_plugin::language_server::lsp::feature_text_synchronization::on_did_change"
    for f in p.fns(LS):
        c.seen(f)
        adds = [n for n in f.nodes if calls(n, "emplace_back", "push_back") and n.obj is not None and "document_change" in n.obj.t.s]
        if not adds:
            continue
        loop = next((u for u in adds[0].up() if u.k in ("for", "rfor", "while", "do")), None)
        c.ob("changes applied", f.q)
        if loop is None or any(x.k in ("break", "continue", "return") for x in loop.walk()):
            c.violate("notified.loop", f.loc(), "%s does not hand on every change" % f.q)
        else:
            for n in f.nodes:
                if calls(n, "insert") and n.obj is not None and "document_change" in n.obj.t.s:
                    c.violate("notified.order", n.loc(), "%s changes the order of the changes" % f.q)
    for q in (D + "workspace_manager::impl::did_open_file", D + "workspace_manager::impl::did_change_file"):
        for f in p.fns(q):
            c.seen(f)
            c.ob("notifications handed on", f.q)
            nm = f.name
            hand = lambda e: e.k == "mcall" and e.callee is not None and e.callee.name == nm and "file_manager" in (e.callee.cls or "")
            if between(f, None, None, hit=hand):
                c.violate("handed.%s" % q, f.loc(), "%s can return without telling the manager of documents" % f.q)
            for n in f.nodes:
                if n.k == "mcall" and n.callee is not None and n.callee.name == nm and (n.callee.cls or "").endswith("::workspace") and between(f, None, lambda e: e is n, hit=hand):
                    c.violate("handed.%s" % q, n.loc(), "%s has the document analysed before its text is up to date" % f.q)
    c.need("notifications handed on", 2)

    # ---- forgetting documents
    c.rule("a document is forgotten only when it is not open in the editor, and is not used by another open program, or after it was closed")
    rm = {f.usr for f in p.fns(FM + "::remove_file")} | {f.usr for f in p.src_funcs() if f.name == "remove_file" and "file_manager" in (f.cls or "")}
    for f, n in [(f, n) for f in p.src_funcs() for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name == "remove_file"]:
        for f, n in lifted(p, f, n):
            if (f.cls or "") != W + "workspace":
                continue
            c.ob("documents forgotten", n.loc())
            c.seen(f)
            if f.q == W + "workspace::did_close_file" or owners(p, f) == {W + "workspace::did_close_file"}:
                if between(f, None, lambda e: e is n, edge=lambda x, t: not t and calls(strip(x), "is_dependency_")):
                    c.violate("forget.%s" % f.q, n.loc(), "%s forgets a document that an open program may still use" % f.q)
                continue
            closable(c, p, f, n)
    c.need("documents forgotten", 2)
    for f in p.fns(W + "workspace::is_dependency_"):
        c.seen(f)
        c.ob("documents forgotten", f.q)
        if not over_all(f) or any(n.k == "return" and n.ch and const(n.ch[0]) == 1 and between(f, None, lambda e: e is n, edge=lambda x, t: refs(x, f.params[0])) for n in f.nodes):
            c.violate("dependency", f.loc(), "%s does not look at the dependencies of all open programs" % f.q)

    c.rule("all open programs that use a changed document are analysed again")
    for f in p.fns(W + "workspace::parse_file"):
        c.seen(f)
        for loop in [n for n in f.nodes if n.k in ("rfor", "for", "while")]:
            over = loop.ch[1] if loop.k == "rfor" else loop
            if not (mentions(over, lambda y: field(y, "dependants_")) or men(p, f, over, lambda y: y.k == "ref" and y.var is not None and y.var.kind == "local" and "vector" in y.var.t.s) and loop.k == "rfor"):
                continue
            c.ob("programs analysed again", loop.loc())
            for x in loop.walk():
                if x.k == "return" or x.k == "break" and next((u for u in x.up() if u.k in ("rfor", "for", "while", "do", "switch")), None) is loop:
                    if not any(u.k == "lambda" for u in x.up()):
                        c.violate("again", x.loc(), "%s leaves out some of the programs that use the document" % f.q)

    # ---- what is analysed
    c.rule("an analysis works on the current text of its document")
    an = 0
    for f in p.src_funcs():
        if f.cls != W + "processor_file_impl":
            continue
        for n in f.nodes:
            if calls(n, "make_unique", "make_shared") and "analyzer" in n.t.s and n.args:
                an += 1
                c.ob("texts analysed", n.loc())
                c.seen(f)
                a = strip(n.args[0])
                ok = mentions(a, lambda y: calls(y, "get_text")) or (a.k == "ref" and a.var is not None and any(d is not None and mentions(d, lambda y: calls(y, "get_text")) for d in defs(f).get(a.var, ())))
                if not ok:
                    c.violate("analysed.%s" % f.q, n.loc(), "%s analyses something else than the text of the document" % f.q)
    if an < 3:
        raise AnalysisError("only %d analyses of documents were found" % an)

    # ---- characters
    utf8(c, p)
    newlines(c, p)


def _empty(r):
    return r is not None and (r.k == "str" and not r.a.get("s", r.a.get("v", "")) or r.k == "ctor" and not any(x is not None and x.k not in ("defarg",) for x in r.args) or
                              (r.k == "str") or (r.k == "ctor" and len(r.ch) == 1 and r.ch[0] is not None and strip(r.ch[0]).k == "str"))


def _inits(f):
    return [i[2] for i in f.inits or () if i[2] is not None]


def same(f, e, d=0):
    """a name for the slot of the table an expression denotes"""
    e = strip(e)
    if e is not None and d < 8:
        if e.k in ("ocall", "un") and e.op in ("->", "*") and e.ch:
            return same(f, e.ch[0], d + 1)
        if e.k == "mcall" and e.callee is not None and e.callee.name == "get" and e.obj is not None:
            return same(f, e.obj, d + 1)
        if e.k == "ref" and e.var is not None and e.var.kind == "local":
            ds = [x for x in defs(f).get(e.var, ()) if x is not None]
            if len(ds) == 1 and e.var.t.s.rstrip().endswith("&"):
                return same(f, ds[0], d + 1)
    return canon(e)


def positions_ok(p, f, n):
    """text.replace(begin of the range, its length, ...)"""
    def from_pos(e, which):
        return men(p, f, e, lambda y: calls(y, "index_from_position")) and men(p, f, e, lambda y: field(y, which)) and \
            not men(p, f, e, lambda y: field(y, "end" if which == "start" else "start"))

    def length(e, d=0):
        e = strip(e)
        if e is not None and e.k == "bin" and e.op == "-":
            return from_pos(e.ch[0], "end") and from_pos(e.ch[1], "start")
        if e is not None and e.k == "ref" and e.var is not None and d < 3:
            ds = [x for x in defs(f).get(e.var, ()) if x is not None]
            return len(ds) == 1 and length(ds[0], d + 1)
        return False
    if mentions(n.args[0], lambda y: calls(y, "begin")):
        return True
    return from_pos(n.args[0], "start") and length(n.args[1])


def forward(f, loop):
    """for (i = 0; i < n; ++i)"""
    txt = [x for x in loop.ch if x is not None]
    ini = [x for x in txt if x.k == "decl"]
    if ini:
        for d in ini[0].a["ds"]:
            init = d.get("i") if isinstance(d, dict) else None
        ds = [(v, i) for v, i in ((v, defs(f).get(v, [None])[0]) for v in [f.unit.vd[d["d"]] for d in ini[0].a["ds"]])]
        idx = [v for v, i in ds if i is not None and strip(i).v == 0]
        ptr = [v for v, i in ds if v.t.s.rstrip(" const").endswith("*") and i is not None and strip(i).k == "ref" and strip(i).var.kind == "param"]
        if not idx and not ptr and not any("iterator" in v.t.s for v, i in ds):
            return False
        for x in loop.walk():
            if x.k == "un" and x.op == "--" and strip(x.ch[0]).k == "ref" and strip(x.ch[0]).var in idx + ptr:
                return False
            if x.k in ("assign", "bin") and x.op in ("+=", "-=") and strip(x.ch[0]).k == "ref" and strip(x.ch[0]).var in idx + ptr:
                return False
        if idx:
            cmp = [x for x in txt if x.k == "bin" and x.op in ("<", "!=", "<=", ">", ">=")]
            for x in cmp:
                other = strip(x.ch[1]) if strip(x.ch[0]).k == "ref" and strip(x.ch[0]).var in idx else strip(x.ch[0])
                if x.op in ("<=", ">=") or not (other.k == "ref" and other.var is not None and other.var.kind == "param") and not calls(other, "size"):
                    return False
    return True


def over_all(f):
    """a loop over all dependants and one over all their dependencies, neither left early without a result"""
    a = any(n.k in ("rfor", "for") and mentions(n, lambda y: field(y, "dependants_")) for n in f.nodes) or any(
        n.is_call and n.callee is not None and n.callee.q in ("std::any_of", "std::find_if", "std::none_of", "std::for_each") and mentions(n, lambda y: field(y, "dependants_")) for n in f.nodes)
    b = any(calls(n, "dependencies") for n in f.nodes) or any(x.is_call and any(calls(m, "dependencies") for t in f.unit.p.targets(x) for m in t.nodes) for x in f.nodes) if hasattr(f.unit, "p") else any(calls(n, "dependencies") for n in f.nodes)
    return a and (b or any(n.k == "lambda" for n in f.nodes)) and not any(n.k == "break" and not decided(n) for n in f.nodes)


def decided(n):
    """a loop left because the result is known"""
    for u in n.up():
        if u.k == "if" and u.ch and strip(u.ch[0]) is not None and strip(u.ch[0]).k == "ref" and strip(u.ch[0]).var.t.s == "bool":
            return True
        if u.k == "block":
            return any(target(x)[1] == "=" and strip(x.ch[1]).v == 1 for x in u.walk())
        if u.k in ("for", "rfor", "while", "do"):
            return False
    return False


def lifted(p, f, n):
    """a node of a lambda stands where the lambda is called"""
    if f.parent is None or f.parent not in p.funcs:
        return [(f, n)]
    g = p.funcs[f.parent]
    cs = [m for m in g.nodes if m.is_call and any(t.usr == f.usr for t in p.targets(m))] or [m for m in g.nodes if m.is_call and any(x.k == "lambda" for a in m.args if a is not None for x in a.walk())]
    return [y for m in cs for y in lifted(p, g, m)]


def closable(c, p, f, n):
    """names handed to remove_file come from a set that only gets closed documents, and loses those other programs use"""
    ins = [m for m in f.nodes if calls(m, "insert", "emplace", "push_back", "emplace_back") and m.obj is not None and strip(m.obj).k == "ref" and strip(m.obj).var is not None and strip(m.obj).var.kind == "local"]
    if not ins:
        if f.q in KNOWN:
            # removed directly: the tests must stand before the removal
            if between(f, None, lambda e: e is n, edge=lambda x, t: not t and calls(strip(x), "get_lsp_editing")):
                c.violate("forget.open.%s" % f.q, n.loc(), "%s can forget a document that is open in the editor" % f.q)
        return
    for m in ins:
        if between(f, None, lambda e: e is m, edge=lambda x, t: not t and calls(strip(x), "get_lsp_editing")):
            c.violate("forget.open.%s" % f.q, m.loc(), "%s can forget a document that is open in the editor" % f.q)
    v = strip(ins[0].obj).var
    ers = [m for m in f.nodes if calls(m, "erase") and m.obj is not None and strip(m.obj).k == "ref" and strip(m.obj).var is v]
    outer = None
    for m in ers:
        loops = [u for u in m.up() if u.k in ("rfor", "for", "while")]
        if any(mentions(l, lambda y: field(y, "dependants_")) for l in loops):
            outer = m
    if outer is None:
        if not any(x.is_call and any(t.q not in KNOWN and any(field(z, "dependants_") for z in t.nodes) for t in p.targets(x)) for x in f.nodes):
            c.violate("forget.used.%s" % f.q, n.loc(), "%s forgets documents that other open programs use" % f.q)
        return
    # the program itself is the only one that may be skipped
    loop = next((u for u in outer.up() if u.k in ("rfor", "for", "while") and any(field(y, "dependants_") for y in u.walk())), None)
    for x in loop.walk() if loop is not None else ():
        if x.k == "break":
            c.violate("forget.used.%s" % f.q, x.loc(), "%s stops before all open programs were looked at" % f.q)
        if x.k == "if" and x.ch and x.ch[0] is not None:
            for y in x.ch[0].walk():
                if y.k == "mcall" and y.callee is not None and y.callee.name in ("get_lsp_editing", "parse_info_updated"):
                    c.violate("forget.used.%s" % f.q, y.loc(), "%s leaves out some of the open programs" % f.q)


MASK = {"utf8_one_byte_begin": (0x80, 0), "utf8_continue_byte": (0xC0, 0x80), "utf8_two_byte_begin": (0xE0, 0xC0),
        "utf8_three_byte_begin": (0xF0, 0xE0), "utf8_four_byte_begin": (0xF8, 0xF0)}
LEN = {"utf8_one_byte_begin": (1, 1), "utf8_two_byte_begin": (2, 1), "utf8_three_byte_begin": (3, 1), "utf8_four_byte_begin": (4, 2)}


def utf8(c, p):
    c.rule("the first byte of a character is told apart as UTF-8 defines it, and a character counts as many bytes and UTF-16 units as it has")
    for nm, (mask, val) in MASK.items():
        fs = p.fns(W + nm)
        for f in fs:
            c.ob("kinds of bytes", f.q)
            c.seen(f)
            ok = None
            for n in f.nodes:
                if n.k == "bin" and n.op == "==":
                    for a, b in ((n.ch[0], n.ch[1]), (n.ch[1], n.ch[0])):
                        a, b = strip(a), strip(b)
                        if a is not None and a.k == "bin" and a.op == "&" and b is not None and b.v is not None:
                            ms = [strip(x).v for x in a.ch if strip(x).v is not None]
                            if ms:
                                ok = (ms[0], b.v & 0xFF) == (mask, val)
            if ok is False:
                c.violate("utf8.%s" % nm, f.loc(), "%s does not recognise the bytes UTF-8 defines" % f.q)
    for f in p.fns(F + "::index_from_position"):
        c.seen(f)
        pos = [v for v in f.params if "position" in v.t.s]
        # what indexes the text counts bytes, and so does what is added to it
        byts = {y.var for n in f.nodes if n.k in ("index", "ocall") and (n.k == "index" or n.op == "[]") and len(n.ch) > 1 and "string" in (strip(n.ch[0]).t.s if strip(n.ch[0]) is not None and strip(n.ch[0]).t else "")
                for y in n.ch[1].walk() if y.k == "ref" and y.var is not None and y.var.kind == "local"}
        for n in f.nodes:
            l, op = target(n)
            if l is not None and op == "+=" and l.k == "ref" and l.var in byts and strip(n.ch[1]).k == "ref":
                byts.add(strip(n.ch[1]).var)
        for v in byts:
            for x in defs(f).get(v, ()):
                if x is not None and mentions(x, lambda y: y.k == "ref" and y.var is not None and "vector" in y.var.t.s):
                    c.ob("starts of lines", x.loc())
                    s = strip(x)
                    if s.k == "bin" or s.k == "cond":
                        c.violate("line.start", x.loc(), "%s does not begin at the start of the line" % f.q)
        # every advance by a constant happens under the test of the kind with that length
        for n in f.nodes:
            l, op = target(n)
            if l is None or l.k != "ref" or l.var is None or op != "=" and op != "+=" or strip(n.ch[1]).v is None or l.var.kind != "local" or strip(n.ch[1]).v < 1:
                continue
            v = strip(n.ch[1]).v
            role = 0 if l.var in byts else 1
            ks = [k for k in LEN if not between(f, None, lambda e: e is n, edge=lambda x, t: t and calls(strip(x), k))]
            if not ks:
                continue
            c.ob("lengths of characters", n.loc())
            if any(LEN[k][role] != v for k in ks):
                c.violate("utf8.width.%s" % ks[0], n.loc(), "%s counts a character of %d bytes as %d %s" % (f.q, LEN[ks[0]][0], v, "UTF-16 units" if role else "bytes"))
    for f in p.fns(F + "::replace_non_utf8_chars"):
        c.seen(f)
        idx = {strip(n.ch[1]).var for n in f.nodes if n.k in ("index", "ocall") and (n.k == "index" or n.op == "[]") and len(n.ch) > 1 and strip(n.ch[1]).k == "ref" and strip(n.ch[0]).k == "ref" and strip(n.ch[0]).var is f.params[0]}
        for v in idx:
            ini = [x for x in defs(f).get(v, ()) if x is not None]
            if v.kind == "local" and ini and not any(strip(x).v == 0 for x in ini) and not any(y.k == "ref" for x in ini for y in x.walk() if y.k == "ref" and y.var is not None and y.var.kind == "local"):
                c.violate("utf8.begin", ini[0].loc(), "%s does not begin at the first character" % f.q)
        for n in f.nodes:
            l, op = target(n)
            if l is None or l.k != "ref" or l.var is None or op != "=" or strip(n.ch[1]).v is None or "size_t" not in l.var.t.s and "unsigned long" not in l.var.t.s:
                continue
            ks = [k for k in LEN if not between(f, None, lambda e: e is n, edge=lambda x, t: t and calls(strip(x), k))]
            if not ks:
                continue
            c.ob("lengths of characters", n.loc())
            if any(LEN[k][0] != strip(n.ch[1]).v for k in ks):
                c.violate("utf8.len.%s" % ks[0], n.loc(), "%s takes a character of %d bytes for one of %d" % (f.q, LEN[ks[0]][0], strip(n.ch[1]).v))


class GiveUp(Exception):
    pass


def newlines(c, p):
    """one step of the search for lines, for each kind of character and each state: a line begins behind \\n, behind \\r\\n and behind a \\r alone"""
    c.rule("a line begins behind each line feed, behind each carriage return with a line feed, and behind each carriage return alone: the effect of one step of the search, for every kind of character and state")
    want = {(0, 10): ([1], 0), (0, 13): ([], 1), (0, 65): ([], 0), (1, 10): ([1], 0), (1, 13): ([0], 1), (1, 65): ([0], 0)}
    for f in p.fns(W + "find_newlines"):
        c.seen(f)
        loops = [n for n in f.nodes if n.k == "for"]
        if len(loops) != 1:
            return
        loop = loops[0]
        inside = {id(x) for x in loop.walk()}
        text, lines = f.params[0], f.params[1]
        flags = {target(n)[0].var for n in f.nodes if target(n)[0] is not None and target(n)[0].k == "ref" and target(n)[0].var.t.s == "bool"}
        if len(flags) != 1:
            return
        flag = flags.pop()
        start = [strip(x).v for x in defs(f).get(flag, ()) if x is not None and id(x) not in inside]
        idx = [f.unit.vd[d["d"]] for x in loop.ch if x is not None and x.k == "decl" for d in x.a["ds"]]
        body = [x for x in loop.ch if x is not None][-1]
        if len(idx) != 1:
            return
        i = idx[0]
        if start[:1] != [0] or [strip(x).v for x in defs(f).get(i, ()) if x is not None][:1] != [0]:
            return

        def at(e):
            e = strip(e)
            while e is not None and e.k in ("icast", "cast", "paren") and e.ch:
                e = strip(e.ch[0])
            if e is None:
                return False
            if e.k in ("ocall", "index") and e.op in ("[]", None) and len(e.ch) == 2:
                return refs(e.ch[0], text) and strip(e.ch[1]).k == "ref" and strip(e.ch[1]).var is i
            if e.k == "ref" and e.var is not None and e.var.kind == "local" and e.var is not flag:
                ds = [x for x in defs(f).get(e.var, ()) if x is not None]
                return len(ds) == 1 and at(ds[0])
            return False

        def cond(e, ch, st):
            e = strip(e)
            if e is None:
                raise GiveUp
            if e.k in ("icast", "cast", "paren") and e.v is None and e.ch:
                return cond(e.ch[0], ch, st)
            if e.k == "ref" and e.var is flag:
                return bool(st[0])
            if e.k == "un" and e.op == "!":
                return not cond(e.ch[0], ch, st)
            if e.k == "bin" and e.op in ("&&", "||"):
                a = cond(e.ch[0], ch, st)
                return (a and cond(e.ch[1], ch, st)) if e.op == "&&" else (a or cond(e.ch[1], ch, st))
            if e.k == "bin" and e.op in ("==", "!="):
                for a, b in ((e.ch[0], e.ch[1]), (e.ch[1], e.ch[0])):
                    if at(a) and strip(b).v is not None:
                        return (ch == strip(b).v) == (e.op == "==")
            if e.v is not None:
                return bool(e.v)
            raise GiveUp

        def run(s, ch, st, out):
            """True: go on; False: the step is over"""
            if s is None:
                return True
            if s.k == "block":
                return all(run(x, ch, st, out) for x in s.ch)
            if s.k == "if":
                parts = [x for x in s.ch]
                k = next((j for j, x in enumerate(parts) if x is not None and x.k not in ("decl",)), None)
                if k is None or parts[0] is not None:
                    raise GiveUp
                rest = parts[k + 1:]
                if cond(parts[k], ch, st):
                    return run(rest[0] if rest else None, ch, st, out)
                return run(rest[1] if len(rest) > 1 else None, ch, st, out)
            if s.k == "continue":
                return False
            if s.k == "decl" or s.k == "null":
                return True
            l, op = target(s)
            if l is not None and op == "=" and l.k == "ref" and l.var is flag:
                r = strip(s.ch[1])
                st[0] = int(cond(r, ch, st))
                return True
            if s.k == "mcall" and s.callee is not None and s.callee.name in ("push_back", "emplace_back") and s.obj is not None and refs(s.obj, lines):
                a = strip(s.args[0])
                if a.k == "ref" and a.var is i:
                    out.append(0)
                    return True
                if a.k == "bin" and a.op == "+" and strip(a.ch[0]).k == "ref" and strip(a.ch[0]).var is i and strip(a.ch[1]).v is not None:
                    out.append(strip(a.ch[1]).v)
                    return True
            raise GiveUp
        try:
            for (st0, ch), (pushes, st1) in want.items():
                st, out = [st0], []
                run(body, ch, st, out)
                c.ob("steps of the search for lines", "state %d, character %d" % (st0, ch))
                if (out, st[0]) != (pushes, st1):
                    c.violate("newline.%d.%d" % (st0, ch), loop.loc(), "%s: %s %s begins lines at %s instead of %s" % (
                        f.q, {10: "a line feed", 13: "a carriage return", 65: "another character"}[ch], "behind a carriage return" if st0 else "behind another character",
                        ["i+%d" % x for x in out] or "no place", ["i+%d" % x for x in pushes] or "no place"))
        except GiveUp:
            return
        # a carriage return at the end
        if between(f, None, None, hit=lambda e: calls(e, "push_back", "emplace_back") and id(e) not in inside and e.obj is not None and refs(e.obj, lines),
                   edge=lambda x, t: not t and strip(x) is not None and strip(x).k == "ref" and strip(x).var is flag):
            c.violate("newline.end", f.loc(), "%s does not begin a line behind a carriage return at the end" % f.q)
