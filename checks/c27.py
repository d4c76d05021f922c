"""C27  the configuration is taken over whole, and each program is analysed with its group: its libraries in order and its options."""
import os
from prog import strip
from prov import defs
from mustdo import MustDo
from facts import AnalysisError
from c18 import between, calls, field, mentions, sides, target
from c22 import KNOWN, lifted, men, refs, owners

D = "hlasm_plugin::parser_library::"
W = D + "workspaces::"
WS = W + "workspace"
LL = W + "library_local"
CF = D + "config::"
DBG = D + "debugging::debug_lib_provider"
TABLES = ("proc_grps_", "exact_pgm_conf_", "regex_pgm_conf_")
CHANGE = {"clear", "erase", "emplace", "emplace_back", "insert", "push_back", "try_emplace", "insert_or_assign", "swap", "assign", "resize", "pop_back", "operator="}

KEYS = {  # names of the configuration files, as documented
    "program_mapping": {"program": "program", "pgroup": "pgroup"},
    "pgm_conf": {"pgms": "pgms", "alwaysRecognize": "always_recognize", "diagnosticsSuppressLimit": "diagnostics_suppress_limit"},
    "library": {"path": "path", "optional": "optional", "macro_extensions": "macro_extensions"},
    "assembler_options": {"PROFILE": "profile", "SYSPARM": "sysparm"},
    "processor_group": {"name": "name", "libs": "libs", "asm_options": "asm_options"},
    "proc_conf": {"pgroups": "pgroups", "macro_extensions": "macro_extensions"},
}
REQUIRED = {"program", "pgroup", "pgms", "name", "libs", "pgroups"}


def table(n, k):
    return field(n, k) and n.var.q == WS + "::" + k


def obj(n):
    if n.k == "mcall":
        return strip(n.obj) if n.obj is not None else (strip(n.ch[0]) if n.ch else None)
    return None


def check(c):
    p = c.p

    def ev(n):
        out = set()
        if n.is_call and n.k != "ctor" and n.callee is not None:
            o = obj(n) if n.k == "mcall" else None
            for k in TABLES:
                if table(o, k) and n.callee.name == "clear":
                    out.add("clear." + k)
            if n.callee.name == "get_to" and n.args:
                a = strip(n.args[-1]) if n.args else None
                for t in ("proc_conf", "pgm_conf"):
                    if a is not None and a.t and a.t.s.replace("&", "").strip().endswith("config::" + t):
                        out.add("read." + t)
            if n.callee.name in ("get",) and n.t:
                for t in ("proc_conf", "pgm_conf"):
                    if n.t.s.endswith("config::" + t):
                        out.add("read." + t)
        l, op = target(n)
        if l is not None and op == "=":
            for k in TABLES:
                if table(l, k):
                    out.add("clear." + k)
        return out
    M = MustDo(p, ev)

    def does(n, w):
        return w in M.node(n, 0)

    # ---- the tables change together
    c.rule("groups and programs are replaced together, only after both files were read, and whenever they were")
    for f in p.src_funcs():
        if f.name == "workspace" and f.cls == WS:
            continue
        for n in f.nodes:
            o = obj(n) if n.k == "mcall" else None
            l, op = target(n)
            for k in TABLES:
                if not (table(o, k) and n.callee is not None and n.callee.name in CHANGE or l is not None and table(l, k)):
                    continue
                c.ob("changes of the configuration", n.loc())
                c.seen(f)
                ok = {WS + "::load_config", WS + "::load_and_process_config", WS + "::add_proc_grp"}
                if owners(p, f) - ok:
                    c.violate("write.%s" % k, n.loc(), "%s changes the configuration of a workspace outside of its loading" % f.q)
    c.need("changes of the configuration", 5)
    lc = p.fns(WS + "::load_config")
    lp = p.fns(WS + "::load_and_process_config")
    if not lc or not lp:
        raise AnalysisError("the loading of the configuration was not recognised")
    for f in [g for g in p.src_funcs() if g.cls == WS]:
        for n in f.nodes:
            evs = ev(n)
            for k in TABLES:
                if "clear." + k not in evs:
                    continue
                c.ob("tables emptied", n.loc())
                for k2 in TABLES:
                    if k2 == k:
                        continue
                    if between(f, n, None, hit=lambda e: does(e, "clear." + k2)) and between(f, None, lambda e: e is n, hit=lambda e: does(e, "clear." + k2)):
                        c.violate("together.%s.%s" % (k, k2), n.loc(), "%s empties %s on a path on which %s stays: programs would name groups that no longer exist, or stay after they were removed" % (f.q, k, k2))
                    # nothing that can fail in between
                    for m in f.nodes:
                        if m.is_call and m.callee is not None and risky(m) and not ev(m) & {"clear." + x for x in TABLES} and not between_none(f, n, m, lambda e: does(e, "clear." + k2)) \
                                and between(f, m, lambda e: does(e, "clear." + k2)) and between(f, None, lambda e: e is n, hit=lambda e: does(e, "clear." + k2)):
                            c.violate("atomic.%s.%s" % (k, k2), m.loc(), "%s reads a file after %s was emptied and before %s is: when that fails, they do not fit together" % (f.q, k, k2))
                if f.q in ("x",) or f.q == WS + "::load_config" or owners(p, f) <= {WS + "::load_config", WS + "::load_and_process_config"}:
                    for t in ("proc_conf", "pgm_conf"):
                        if between(f, None, lambda e: e is n, hit=lambda e: does(e, "read." + t)) and not came_from(p, f, M, t):
                            c.violate("early.%s.%s" % (k, t), n.loc(), "%s gives up the old configuration before the new one was read" % f.q)
    c.need("tables emptied", 3)
    for f in lc:
        c.seen(f)
        for n in f.nodes:
            if n.k != "return" or not n.ch or n.ch[0] is None or strip(n.ch[0]).v == 0:
                continue
            c.ob("configuration loaded", n.loc())
            for k in TABLES:
                if between(f, None, lambda e: e is n, hit=lambda e: does(e, "clear." + k)) and not cleared_by_caller(p, lp, f, does, k):
                    c.violate("stale.%s" % k, n.loc(), "%s reports success although what was in %s before is still there" % (f.q, k))
            for t in ("proc_conf", "pgm_conf"):
                if between(f, None, lambda e: e is n, hit=lambda e: does(e, "read." + t)):
                    c.violate("unread.%s" % t, n.loc(), "%s reports success although a configuration file was not read" % f.q)
    lcu = {f.usr for f in lc}

    def loaded(x, t):
        s = strip(x)
        return t and s is not None and s.is_call and any(u.usr in lcu for u in p.targets(s))
    fills = []
    for f in lp:
        c.seen(f)
        root = f
        for n in f.nodes:
            o = obj(n) if n.k == "mcall" else None
            fill = n.is_call and n.callee is not None and (n.callee.name in ("emplace", "push_back", "emplace_back", "insert", "try_emplace") and any(table(o, k) for k in TABLES) or n.callee.name == "add_proc_grp")
            if not fill:
                continue
            fills.append((f, n))
            c.ob("entries of the configuration", n.loc())
            if between(f, None, lambda e: e is n, edge=loaded_edge(f, loaded)):
                c.violate("fill", n.loc(), "%s fills the configuration although it could not be read" % f.q)

    # ---- programs name groups that exist
    c.rule("a program is entered only with a group that exists, and one without is reported")
    ins = [(f, n, m) for f, m in ((f, n) for f in p.src_funcs() if f.relfile.endswith("workspaces/workspace.cpp") for n in f.nodes if n.k == "mcall" and n.callee is not None and n.callee.name in ("emplace", "push_back", "emplace_back", "insert", "try_emplace", "insert_or_assign")
           and any(table(obj(n), k) for k in TABLES[1:])) for f, n in lifted(p, f, m)]
    for f, n, raw in ins:
        c.ob("programs entered", n.loc())

        def known(x, t):
            for a, op, b in sides(x, t):
                if op == "!=" and calls(b, "end", "cend") and men(p, f, a, lambda y: calls(y, "find") and table(obj(y), "proc_grps_") and mentions(y, lambda z: field(z, "pgroup"))):
                    return True
                if op in ("!=", ">") and b.v == 0 and calls(a, "count") and table(obj(a), "proc_grps_"):
                    return True
            s = strip(x)
            return t and (calls(s, "count", "contains") and table(obj(s), "proc_grps_"))
        if between(f, None, lambda e: e is n, edge=known):
            cs = p.callers().get(f.usr, ())
            if f.q in {g.q for g in lp} or not cs or any(between(g, None, lambda e: e is m, edge=known) for g, m in cs):
                c.violate("group.%s" % f.q, n.loc(), "%s enters a program although its group may not exist" % f.q)
        if not men(p, raw.fn, raw, lambda y: field(y, "pgroup")) and f.q in {g.q for g in lp}:
            c.violate("pgroup", n.loc(), "%s enters a program without the group it was given" % f.q)
        nm = next((k for k in TABLES[1:] if table(obj(raw), k)), None)
        g = raw.fn
        wild = lambda want: (lambda x, t: t == want and calls(strip(x), "is_wildcard"))
        if any(calls(y, "is_wildcard") for y in g.nodes) and between(g, None, lambda e: e is raw, edge=wild(nm == "regex_pgm_conf_")):
            c.violate("kind.%s" % nm, raw.loc(), "%s takes a name for a pattern or a pattern for a name" % g.q)
        key = raw.args[0] if nm == "exact_pgm_conf_" and raw.args else next((y for a in raw.args if a is not None for y in a.walk() if calls(y, "wildcard2regex")), None)
        if key is not None and not men(p, g, key, lambda y: field(y, "prog_id")) and (not men(p, g, key, lambda y: field(y, "program")) or men(p, g, key, lambda y: field(y, "pgroup")) and nm == "regex_pgm_conf_"):
            c.violate("entry.%s" % nm, raw.loc(), "%s enters a program under another name" % g.q)
    for f in p.fns(WS + "::is_wildcard"):
        c.seen(f)
        c.ob("programs entered", f.q)
        for ch, name in ((42, "*"), (63, "?")):
            if not any(n.v == ch or n.k == "str" and name in (lit(n) or "") for t in [f] + [t for t in p.src_funcs() if t.parent == f.usr] for n in t.nodes):
                c.violate("wildcard.%s" % name, f.loc(), "%s does not take a name with %s for a pattern" % (f.q, name))
    if len(ins) < 2:
        raise AnalysisError("the programs are entered elsewhere")
    for f in lp:
        looks = [n for n in f.nodes if calls(n, "find", "count", "contains") and table(obj(n), "proc_grps_")]
        adds = [n for n in f.nodes if n.is_call and n.callee is not None and (n.callee.name == "add_proc_grp" or n.callee.name in ("emplace", "try_emplace", "insert") and table(obj(n), "proc_grps_"))]
        for n in looks:
            if adds and between(f, n, lambda e: any(e is a for a in adds)):
                c.violate("order", n.loc(), "%s looks for a group before all groups are known" % f.q)
            loop = next((u for u in n.up() if u.k in ("rfor", "for", "while")), None)
            # a program without a group is reported
            reports = lambda e: calls(e, "push_back", "emplace_back") and field(obj(e), "config_diags_") or calls(e, "error_W004")
            if loop is not None and not any(reports(x) for x in loop.walk()):
                c.violate("unreported", n.loc(), "%s leaves out a program without saying so" % f.q)
            if loop is not None:
                for x in loop.walk():
                    if x.k in ("break", "return"):
                        c.violate("cut.programs", x.loc(), "%s leaves out the remaining programs" % f.q)
        for loop in [n for n in f.nodes if n.k in ("rfor", "for", "while")]:
            inner = [x for x in loop.walk() if x.is_call and x.callee is not None and x.callee.name in ("add_library", "add_proc_grp")]
            if not inner:
                continue
            c.ob("loops over groups and libraries", loop.loc())
            for x in loop.walk():
                if x.k in ("break", "return", "continue") and next((u for u in x.up() if u.k in ("rfor", "for", "while", "lambda")), None) is not None and next(u for u in x.up() if u.k in ("rfor", "for", "while", "lambda")).k != "lambda":
                    c.violate("cut.groups", x.loc(), "%s leaves out a group or a library" % f.q)
            if loop.k == "rfor" and not mentions(loop.ch[1] if len(loop.ch) > 1 else None, lambda y: field(y, "pgroups") or field(y, "libs")):
                if not mentions(loop, lambda y: field(y, "pgroups") or field(y, "libs")):
                    c.violate("cut.groups", loop.loc(), "%s does not take over all groups and libraries" % f.q)
    for f in p.fns(W + "processor_group::add_library"):
        c.ob("loops over groups and libraries", f.q)
        c.seen(f)
        if not any(calls(n, "push_back", "emplace_back") and field(obj(n), "libs_") for n in f.nodes):
            c.violate("libs.order", f.loc(), "%s does not keep the order of the libraries" % f.q)
    for f in p.fns(WS + "::add_proc_grp"):
        c.seen(f)
        c.ob("entries of the configuration", f.q)
        if between(f, None, None, hit=lambda e: calls(e, "emplace", "insert", "try_emplace", "insert_or_assign") and table(obj(e), "proc_grps_")):
            c.violate("group.lost", f.loc(), "%s can lose a group" % f.q)

    c.rule("relative libraries are looked for in the workspace; the files are read again when one of them changes, old complaints about them are dropped, and the open programs are analysed again; libraries are listed again when files change")
    for f in lp:
        for n in f.nodes:
            if calls(n, "add_library"):
                c.ob("paths of libraries", n.loc())

                def rooted(e, d=0):
                    if e.is_call and e.callee is not None and e.callee.name == "join" and men(p, f, e, lambda y: field(y, "uri_") or field(y, "ws_path_")):
                        return True
                    return d < 2 and e.is_call and any(t.q not in KNOWN or t.parent is not None for t in p.targets(e)) and any(calls(z, "join") and any(field(y, "uri_") or field(y, "ws_path_") or y.k == "ref" for y in z.walk()) for t in p.targets(e) if t.q not in KNOWN or t.parent is not None for z in t.nodes) \
                        and any(calls(z, "is_absolute") for t in p.targets(e) for z in t.nodes)
                if between(f, None, lambda e: e is n, hit=rooted, edge=lambda x, t: t and calls(strip(x), "is_absolute")):
                    c.violate("lib.path", n.loc(), "%s adds a library whose relative path is not taken from the workspace" % f.q)
            if n.is_call and any(u.usr in lcu for u in p.targets(n)):
                c.ob("configuration loaded", n.loc())
                if between(f, None, lambda e: e is n, hit=lambda e: calls(e, "clear") and field(obj(e), "config_diags_") or field(target(e)[0], "config_diags_")):
                    c.violate("old.diags", n.loc(), "%s keeps complaints about the old configuration" % f.q)
            if n.k == "return" and n.ch and n.ch[0] is not None and strip(n.ch[0]).v == 1:
                if between(f, None, lambda e: e is n, hit=lambda e: field(target(e)[0], "local_config_")):
                    c.violate("old.settings", n.loc(), "%s keeps settings of the old configuration" % f.q)
    lpu = {f.usr for f in lp}
    for f in p.fns(WS + "::parse_file"):
        c.seen(f)
        for n in f.nodes:
            if not (n.is_call and any(u.usr in lpu for u in p.targets(n))):
                continue
            c.ob("configuration loaded", n.loc())
            for which in ("proc_grps_path_", "pgm_conf_path_"):
                if not any(field(y, which) for y in f.nodes) and not any(x.is_call and any(field(z, which) for t in p.targets(x) for z in t.nodes) for x in f.nodes):
                    c.violate("reload.%s" % which, n.loc(), "%s does not load the configuration when %s changes" % (f.q, which))
                other = "pgm_conf_path_" if which == "proc_grps_path_" else "proc_grps_path_"
                if not between(f, None, lambda e: e is n, edge=lambda x, t: t and strip(x) is not None and strip(x).is_call and mentions(strip(x), lambda y: field(y, other)) and not mentions(strip(x), lambda y: field(y, which))):
                    c.violate("reload.%s" % which, n.loc(), "%s does not load the configuration when %s changes" % (f.q, which))
            par = lambda e, d=0: calls(e, "parse") or d < 2 and e.is_call and any((t.parent is not None or t.q not in KNOWN) and any(par(z, d + 1) for z in t.nodes) for t in p.targets(e)) or e.is_call and any(x.k == "lambda" for a in e.args if a is not None for x in a.walk())
            if not between(f, n, par):
                c.violate("reload.parse", n.loc(), "%s does not analyse the open programs with the new configuration" % f.q)
    for f in p.fns(WS + "::did_change_watched_files"):
        c.seen(f)
        c.ob("members looked up", f.q)
        for n in f.nodes:
            fresh = lambda e: calls(e, "refresh_libraries", "refresh") or e.is_call and any((t.parent is not None or t.q not in KNOWN) and any(calls(z, "refresh_libraries", "refresh") for z in t.nodes) for t in p.targets(e))
            if calls(n, "parse_file") and between(f, None, lambda e: e is n, hit=fresh):
                c.violate("watched", n.loc(), "%s analyses with the old list of members" % f.q)
    for f in p.fns(WS + "::refresh_libraries"):
        c.seen(f)
        c.ob("members looked up", f.q)
        for n in f.nodes:
            if calls(n, "refresh") and not any(u.k in ("rfor", "for", "while") and men(p, f, u.ch[1] if u.k == "rfor" else u, lambda y: calls(y, "libraries")) for u in n.up()):
                c.violate("refresh.all", n.loc(), "%s does not list all libraries again" % f.q)
            if n.k in ("break", "return"):
                c.violate("refresh.all", n.loc(), "%s does not list all libraries again" % f.q)

    # ---- the group of a program
    c.rule("the group of a program is the one of its entry, or else of the first pattern it matches, or else the implicit one")
    for f in p.src_funcs():
        for n in f.nodes:
            if not (n.k == "mcall" and n.callee is not None and n.callee.name in ("at", "find", "operator[]") and table(obj(n), "proc_grps_")) and not (n.k in ("ocall", "index") and n.op == "[]" and n.ch and table(strip(n.ch[0]), "proc_grps_")):
                continue
            if n.k == "mcall" and n.callee.name == "find":
                continue
            if f.q == WS + "::get_proc_grp":
                continue
            c.ob("groups used", n.loc())
            c.seen(f)
            a = n.args[-1] if n.args else n.ch[-1]
            if not men(p, f, a, lambda y: field(y, "pgroup")):
                c.violate("at.%s" % f.q, n.loc(), "%s takes a group by another name than that of an entered program" % f.q)
    c.need("groups used", 2)
    for f in p.fns(WS + "::get_proc_grp_by_program"):
        c.seen(f)

        def exact(x, t):
            return any(op == "!=" and calls(b, "end", "cend") and men(p, f, a, lambda y: calls(y, "find") and table(obj(y), "exact_pgm_conf_")) for a, op, b in sides(x, t))

        def noexact(x, t):
            return any(op == "==" and calls(b, "end", "cend") and men(p, f, a, lambda y: calls(y, "find") and table(obj(y), "exact_pgm_conf_")) for a, op, b in sides(x, t))

        def matched(x, t):
            s = strip(x)
            if t and s is not None and s.is_call and s.callee is not None and s.callee.name in ("regex_match",):
                return True
            return any(op == "!=" and calls(b, "end", "cend") and men(p, f, a, lambda y: y.is_call and y.callee is not None and y.callee.q in ("std::find_if",)) for a, op, b in sides(x, t))
        rets = [n for n in f.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
        sites = []
        for n in rets:
            r = strip(n.ch[0])
            vs = {y.var for y in r.walk() if y.k == "ref" and y.var is not None and y.var.kind == "local"}
            if not mentions(r, lambda y: table(y, "proc_grps_") or field(y, "implicit_proc_grp")) and vs:
                # chosen in a local: what is assigned to it, the first time
                for m in f.nodes:
                    l, op = target(m)
                    if l is not None and op == "=" and l.k == "ref" and l.var in vs:
                        sites.append((m, strip(m.ch[1])))
                        if between(f, m, lambda e: any(e is z and mentions(z.ch[1], lambda y: table(y, "proc_grps_")) for z in f.nodes if target(z)[1] == "=" and target(z)[0].k == "ref" and target(z)[0].var in vs)):
                            c.violate("chosen.order", m.loc(), "%s does not take the first pattern that matches" % f.q)
                if not any(mentions(x, lambda y: table(y, "proc_grps_")) for m, x in sites):
                    sites.append((n, r))
            else:
                sites.append((n, r))
        for n, r in sites:
            c.ob("groups chosen", n.loc())
            if mentions(r, lambda y: field(y, "implicit_proc_grp")) and not mentions(r, lambda y: table(y, "proc_grps_")):
                if between(f, None, lambda e: e is n, edge=noexact):
                    c.violate("chosen.implicit", n.loc(), "%s uses the implicit group although the program may have an entry" % f.q)
                if between(f, None, lambda e: e is n, hit=lambda e: mentions(e, lambda y: table(y, "regex_pgm_conf_"))):
                    c.violate("chosen.implicit", n.loc(), "%s uses the implicit group without looking at the patterns" % f.q)
                continue
            by_exact = not between(f, None, lambda e: e is n, edge=exact)
            by_match = not between(f, None, lambda e: e is n, edge=matched) and not between(f, None, lambda e: e is n, edge=noexact)
            if not by_exact and not by_match:
                c.violate("chosen", n.loc(), "%s can return the group of another program, or of a pattern before that of an entry" % f.q)
            if by_exact and mentions(r, lambda y: y.k == "ref" and y.var is not None and "regex" in y.var.t.s):
                c.violate("chosen", n.loc(), "%s returns the group of a pattern for a program with an entry" % f.q)
        for n in f.nodes:
            if n.k in ("for", "while") and mentions(n, lambda y: calls(y, "rbegin", "crbegin")) or n.k == "break" and not any(any(x is m for m, _ in sites) for x in next((u for u in n.up() if u.k == "block"), n).walk()):
                c.violate("chosen.order", n.loc(), "%s does not take the first pattern that matches" % f.q)
            if calls(n, "find") and table(obj(n), "exact_pgm_conf_") or n.is_call and n.callee is not None and n.callee.name == "regex_match":
                c.ob("names looked up", n.loc())
                if not men(p, f, n.args[0] if n.args else None, lambda y: field(y, "uri_")) or not men(p, f, n.args[0] if n.args else None, lambda y: calls(y, "lexically_relative")):
                    c.violate("name", n.loc(), "%s does not look for the name relative to the workspace" % f.q)
    c.need("groups chosen", 2)

    # ---- libraries
    c.rule("members are looked for in the libraries of the program's group, in their order, and the first one found is used, by an analysis and by the debugger")
    for q in (WS, DBG):
        for nm in ("parse_library", "has_library"):
            for f in p.fns(q + "::" + nm):
                c.seen(f)
                c.ob("searches of libraries", f.q)
                search(c, p, f, nm)
        for f in p.fns(q + "::get_asm_options"):
            c.seen(f)
            c.ob("searches of libraries", f.q)
            for n in f.nodes:
                if n.k == "return" and n.ch and n.ch[0] is not None and not (men(p, f, n.ch[0], lambda y: calls(y, "get_proc_grp_by_program") and any(refs(a, f.params[0]) for a in y.args if a is not None)) and men(p, f, n.ch[0], lambda y: calls(y, "asm_options"))):
                    c.violate("options.%s" % q, n.loc(), "%s returns other options than those of the program's group" % f.q)
    c.need("searches of libraries", 6)
    for f in p.src_funcs():
        if f.q == W + "processor_group::processor_group" and f.inits:
            for i in f.inits:
                if i[2] is not None and "sysparm" in str([y.var.q for y in i[2].walk() if y.k == "member" and y.var is not None]):
                    ms = [y.var.q.rsplit("::", 1)[-1] for y in i[2].walk() if y.k == "member" and y.var is not None]
                    c.ob("options of a group", f.loc())
                    if [m for m in ms if m in ("sysparm", "profile")] != ["sysparm", "profile"]:
                        c.violate("options.group", f.loc(), "%s mixes up the options of a group" % f.q)
    c.need("options of a group", 1)

    # ---- extensions
    c.rule("the extensions of a library are its own, or else those of the configuration of groups, or else the deprecated ones")
    for f in lp + [g for g in p.src_funcs() if g.relfile.endswith("workspaces/workspace.cpp") and g not in lp and owners(p, g) == {WS + "::load_and_process_config"}]:
        for n in f.nodes:
            l, op = target(n)
            if l is None or op != "=" or not field(l, "extensions") or not l.var.q.startswith(W + "library_local_options"):
                continue
            c.ob("extensions of libraries", n.loc())
            r = n.ch[1]
            kinds = [y for y in r.walk() if field(y, "macro_extensions")]

            def none(which):
                def e(x, t):
                    s = strip(x)
                    for a, op2, b in sides(x, t):
                        if op2 == "==" and b.v == 0 and calls(a, "size") and field(obj(a), "macro_extensions") and obj(a).var.q == CF + which + "::macro_extensions":
                            return True
                    return t and calls(s, "empty") and field(obj(s), "macro_extensions") and obj(s).var.q == CF + which + "::macro_extensions"
                return e
            if r.k == "cond" or strip(r).k == "cond":
                continue
            if kinds and kinds[0].var.q == CF + "library::macro_extensions":
                continue
            if between(f, None, lambda e: e is n, edge=none("library")):
                c.violate("ext.library", n.loc(), "%s ignores the extensions given for a library" % f.q)
            if not (kinds and kinds[0].var.q == CF + "proc_conf::macro_extensions"):
                if between(f, None, lambda e: e is n, edge=none("proc_conf")):
                    c.violate("ext.conf", n.loc(), "%s ignores the extensions given for all libraries" % f.q)
                # deprecated source is flagged on this path
                fl = lambda e: field(target(e)[0], "extensions_from_deprecated_source") and strip(e.ch[1]).v != 0
                if between(f, n, None, hit=fl) and between(f, None, lambda e: e is n, hit=fl):
                    c.violate("ext.flag", n.loc(), "%s does not record that the extensions come from the deprecated list" % f.q)
        for n in f.nodes:
            l, op = target(n)
            if l is not None and field(l, "optional_library") and op == "=":
                c.ob("extensions of libraries", n.loc())
                if not mentions(n.ch[1], lambda y: field(y, "optional")):
                    c.violate("optional", n.loc(), "%s does not take over whether a library is optional" % f.q)
    c.need("extensions of libraries", 3)

    # ---- the members of a library
    c.rule("a library lists its members before the first search and after every change, by upper case name without the first extension that fits; of two with one name the first stays and is reported")
    lf = p.fns(LL + "::load_files")
    if not lf:
        raise AnalysisError("library_local::load_files is gone")
    lfu = {f.usr for f in lf}
    def isload(e, d=0):
        if not e.is_call:
            return False
        return any(u.usr in lfu or d < 2 and (u.q not in KNOWN or u.parent is not None) and u.blocks and
                   not between(u, None, None, hit=lambda x: isload(x, d + 1), edge=lambda x, t: t and field(strip(x), "files_loaded_")) for u in p.targets(e))
    for f in p.fns(LL + "::find_file"):
        c.seen(f)
        for n in f.nodes:
            if calls(n, "find", "count", "at", "contains") and field(obj(n), "files_"):
                c.ob("members looked up", n.loc())
                if between(f, None, lambda e: e is n, hit=isload, edge=lambda x, t: t and field(strip(x), "files_loaded_")):
                    c.violate("unloaded", n.loc(), "%s searches a library that was not read" % f.q)
                if not any(refs(a, f.params[0]) for a in n.args if a is not None):
                    c.violate("lookup", n.loc(), "%s looks for another member than asked for" % f.q)
            if calls(n, "add_processor_file"):
                c.ob("members looked up", n.loc())
                if not (men(p, f, n, lambda y: field(y, "lib_path_")) and men(p, f, n, lambda y: calls(y, "find", "at") and field(obj(y), "files_"))):
                    c.violate("lookup", n.loc(), "%s opens another file than the one listed" % f.q)
    for f in p.fns(LL + "::refresh"):
        c.seen(f)
        c.ob("members looked up", f.q)
        if between(f, None, None, hit=isload) and between(f, None, None, hit=lambda e: field(target(e)[0], "files_loaded_") and strip(e.ch[1]).v == 0):
            c.violate("refresh", f.loc(), "%s does not read the library again" % f.q)
    for f in lf:
        c.seen(f)
        puts = [n for n in f.nodes if (calls(n, "try_emplace", "emplace", "insert", "insert_or_assign") and field(obj(n), "files_")) or (n.k in ("ocall", "index") and n.op == "[]" and n.ch and field(strip(n.ch[0]), "files_"))]
        for n in puts:
            c.ob("members listed", n.loc())
            if not men(p, f, n, lambda y: calls(y, "to_upper_copy", "to_upper")):
                c.violate("upper", n.loc(), "%s lists a member under a name that is not in upper case" % f.q)
            if between(f, None, lambda e: e is n, hit=lambda e: calls(e, "clear") and field(obj(e), "files_") or (field(target(e)[0], "files_") and target(e)[1] == "=")):
                c.violate("old", n.loc(), "%s keeps members that are gone" % f.q)
            for u in n.up():
                if u.k == "rfor" and not mentions(u.ch[1], lambda y: field(y, "extensions_")):
                    for x in u.walk():
                        if x.k in ("break", "return") and next((z for z in x.up() if z.k in ("rfor", "for", "while", "do", "switch", "lambda")), None) is u:
                            c.violate("cut.members", x.loc(), "%s leaves out members" % f.q)
            if n.is_call and n.k == "mcall":
                sz = lambda e: calls(e, "size", "length")
                rs = [m for m in f.nodes if calls(m, "remove_suffix")]
                none = lambda x, t: t and calls(strip(x), "empty") or any(sz(a) and op == "==" and b.v == 0 for a, op, b in sides(x, t)) or not t and sz(strip(x))
                if rs and between(f, None, lambda e: e is n, hit=lambda e: any(e is m for m in rs), edge=none):
                    c.violate("suffix", n.loc(), "%s lists a member with its extension" % f.q)
                cmp = [m for m in f.nodes if m.k == "bin" and m.op in ("<", ">", "<=", ">=") and sz(strip(m.ch[0])) and sz(strip(m.ch[1]))]
                if cmp and between(f, None, lambda e: e is n, edge=lambda x, t: any(sz(a) and sz(b) and op in ("<", ">") for a, op, b in sides(x, t))):
                    c.violate("empty.name", n.loc(), "%s lists a file that has no name but an extension" % f.q)
                if n.callee.name == "insert_or_assign":
                    c.violate("first", n.loc(), "%s replaces a member by a later one of the same name" % f.q)
                # reported when not inserted
                if not mentions(f_root(f), lambda y: calls(y, "warning_L0004")):
                    c.violate("dup", n.loc(), "%s does not report two members of one name" % f.q)
                # one extension only
                loop = next((u for u in n.up() if u.k in ("rfor", "for", "while")), None)
                if loop is not None and loop.k == "rfor" and mentions(loop.ch[1], lambda y: field(y, "extensions_")) and again(f, n, loop):
                    c.violate("ext.first", n.loc(), "%s lists a file once more with a shorter extension" % f.q)
        if between(f, None, None, hit=lambda e: field(target(e)[0], "files_loaded_") and strip(e.ch[1]).v == 1, edge=lambda x, t: t and field(strip(x), "files_loaded_")):
            c.violate("loaded", f.loc(), "%s does not record on every path that the library was read" % f.q)
        for n in f.nodes:
            if calls(n, "error_L0002", "error_L0001"):
                c.ob("missing libraries", n.loc())
        says = lambda e: calls(e, "error_L0002", "error_L0001") or e.is_call and any(t.cls == LL and any(calls(m, "error_L0002", "error_L0001") for m in t.nodes) for t in p.targets(e))
        for b in f.blocks.values():
            if b.label is None or b.label.k != "case" or not b.label.ch:
                continue
            nm = next((y.var.q.rsplit("::", 1)[-1] for y in b.label.ch[0].walk() if y.var is not None), None)
            if nm in ("not_exists", "not_a_directory", "other_failure"):
                c.ob("missing libraries", "%s:%s" % (f.q, nm))
                if between(f, b.id, None, hit=says, edge=lambda x, t: nm == "not_exists" and t and field(strip(x), "optional_")):
                    c.violate("missing.%s" % nm, b.label.loc(), "%s does not report a library that cannot be read (%s)" % (f.q, nm))
        if not any(calls(n, "error_L0002") for n in f.nodes) or not any(calls(n, "error_L0001") for n in f.nodes):
            if not any(x.is_call and any(calls(m, "error_L0002") for t in p.targets(x) for m in t.nodes) for x in f.nodes):
                c.violate("missing", f.loc(), "%s does not report a library that cannot be read" % f.q)
        else:
            # optional silences only what does not exist
            for n in f.nodes:
                if calls(n, "error_L0001") and any(u.k == "if" and mentions(u.ch[0] if u.ch[0] is not None else next((z for z in u.ch if z is not None), None), lambda y: field(y, "optional_")) for u in n.up()):
                    c.violate("missing.optional", n.loc(), "%s does not report an optional library that exists but cannot be read" % f.q)
    c.need("members listed", 2)
    for f in [g for g in p.src_funcs() if g.relfile.endswith("workspaces/library_local.cpp")]:
        for n in f.nodes:
            if calls(n, "emplace_back", "push_back") and n.obj is not None and "vector" in strip(n.obj).t.s and "string" in strip(n.obj).t.s and not [a for a in n.args if a is not None and strip(a).k not in ("defarg",)]:
                c.ob("order of extensions", n.loc())
                if between(f, None, lambda e: e is n, edge=lambda x, t: t and (field(strip(x), "extensions_from_deprecated_source") or strip(x).k == "ref" and strip(x).var is not None and strip(x).var.kind == "param" and strip(x).var.t.s == "bool")):
                    c.violate("ext.empty", n.loc(), "%s accepts files without an extension although extensions were given" % f.q)
    for f in [g for g in p.src_funcs() if g.relfile.endswith("workspaces/library_local.cpp")]:
        for n in f.nodes:
            if n.is_call and n.callee is not None and n.callee.q in ("std::sort", "std::stable_sort") and any(x.k == "lambda" for a in n.args if a is not None for x in a.walk()):
                c.ob("order of extensions", n.loc())
                lam = [t for t in p.src_funcs() if t.parent == f.usr]
                for t in lam:
                    if len(t.params) == 2:
                        longer(c, t)

    # ---- the files
    c.rule("each name in a configuration file fills the setting documented under it; required ones must be there")
    for f in p.src_funcs():
        if f.q != CF + "from_json" or len(f.params) != 2:
            continue
        typ = f.params[1].t.s.replace("&", "").strip().rsplit("::", 1)[-1]
        if typ not in KEYS:
            continue
        c.seen(f)
        got = {}
        for n in f.nodes:
            key = None
            if n.k == "mcall" and n.callee is not None and n.callee.name in ("get_to", "get") and "json" in (n.callee.cls or "json"):
                key = key_of(p, f, n.obj if n.obj is not None else n.ch[0])
                to = n.args[0] if n.callee.name == "get_to" and n.args else None
                if n.callee.name == "get":
                    up = next((u for u in n.up() if target(u)[1] == "="), None)
                    to = up.ch[0] if up is not None else None
                fld = next((y.var.q.rsplit("::", 1)[-1] for y in (to.walk() if to is not None else ()) if y.k == "member" and y.var is not None and y.var.q.startswith(CF + typ + "::")), None)
                if key is None and typ == "library" and fld == "path":
                    continue
                if key is not None and fld is not None:
                    c.ob("settings read", "%s.%s" % (typ, key))
                    got[key] = fld
                    if KEYS[typ].get(key) not in (None, fld):
                        c.violate("key.%s.%s" % (typ, key), n.loc(), "the setting %s is read into %s" % (key, fld))
            if n.is_call and n.k != "ctor" and not (n.callee is not None and n.callee.name in ("at", "find", "get_to", "get", "contains", "count")):
                # a helper that is given the name and the setting
                ks = [lit(y) for a in n.args if a is not None for y in a.walk() if y.k == "str" and lit(y) in KEYS[typ]]
                fs = [y.var.q.rsplit("::", 1)[-1] for a in n.args if a is not None for y in a.walk() if y.k == "member" and y.var is not None and y.var.q.startswith(CF + typ + "::")]
                if len(ks) == 1 and len(fs) == 1:
                    c.ob("settings read", "%s.%s" % (typ, ks[0]))
                    got[ks[0]] = fs[0]
                    if KEYS[typ][ks[0]] != fs[0]:
                        c.violate("key.%s.%s" % (typ, ks[0]), n.loc(), "the setting %s is read into %s" % (ks[0], fs[0]))
        for k, v in KEYS[typ].items():
            if v not in got.values() and not any(x.is_call and any(t.q not in p.funcs and t.nodes and any(field(y, v) for y in t.nodes) for t in p.targets(x)) for x in f.nodes):
                c.violate("key.%s.%s" % (typ, k), f.loc(), "the setting %s is not read" % k)
            elif got.get(k) != v and k not in got:
                c.violate("key.%s.%s" % (typ, k), f.loc(), "the setting %s is read under another name" % k)
    c.need("settings read", 13)

    # ---- whose settings
    c.rule("a setting of the workspace goes before that of the editor, which goes before the default")
    LC = D + "lib_config"
    for f in p.fns(LC + "::combine_two_configs"):
        c.seen(f)
        for n in f.nodes:
            l, op = target(n)
            if l is not None and op == "=" and l.k == "member" and l.var is not None and l.var.q.startswith(LC + "::"):
                c.ob("settings combined", n.loc())
                nm = l.var.q.rsplit("::", 1)[-1]
                unset = lambda x, t: not t and (calls(strip(x), "has_value", "operator bool") and field(obj(strip(x)), nm))
                if refs(n.ch[1], f.params[0]) and between(f, None, lambda e: e is n, edge=unset):
                    c.violate("combine", n.loc(), "%s replaces a setting that was given" % f.q)
    for f in p.fns(LC + "::fill_missing_settings"):
        c.seen(f)
        c.ob("settings combined", f.q)
        comb = [n for n in f.nodes if calls(n, "combine_two_configs")]
        for n in comb:
            # the default is never the receiver and is asked last
            if mentions(n.obj if n.obj is not None else n.ch[0], lambda y: y.k == "ref" and y.var is not None and y.var.q.endswith("default_config")):
                c.violate("default", n.loc(), "%s puts the default before a setting that was given" % f.q)
        if not any(any(mentions(a, lambda y: y.var is not None and y.var.q.endswith("default_config")) for a in n.args if a is not None) for n in comb):
            c.violate("default", f.loc(), "%s leaves a setting without value" % f.q)
    for f in p.fns(WS + "::get_config"):
        c.seen(f)
        c.ob("settings combined", f.q)
        if not any(calls(n, "fill_missing_settings") and field(obj(n), "local_config_") and any(men(p, f, a, lambda y: field(y, "global_config_")) for a in n.args if a is not None) for n in f.nodes):
            c.violate("precedence", f.loc(), "%s does not put the settings of the workspace first" % f.q)
    c.need("settings combined", 3)


def f_root(f):
    return next((n for n in f.nodes if n.parent is None), f.nodes[0])


def risky(m):
    return m.callee.name in ("parse", "get_to", "update_and_get_bad", "get_text", "add_file", "load_config", "load_text") and m.k != "ctor"


def between_none(f, a, b, hit):
    return not between(f, a, lambda e: e is b, hit=hit)


def loaded_edge(f, loaded):
    def e(x, t):
        if loaded(x, t):
            return True
        s = strip(x)
        if s is not None and s.k == "ref" and s.var is not None and s.var.kind == "local":
            ds = [d for d in defs(f).get(s.var, ()) if d is not None]
            return len(ds) == 1 and loaded(ds[0], t)
        return False
    return e


def came_from(p, f, M, t):
    """a helper that is called only after the file was read"""
    cs = p.callers().get(f.usr, ())
    return bool(cs) and f.name not in ("load_config", "load_and_process_config") and all(not between(g, None, lambda e: e is m, hit=lambda e: "read." + t in M.node(e, 0)) for g, m in cs)


def cleared_by_caller(p, lp, f, does, k):
    """the caller empties the table itself once the files are read"""
    for g in lp:
        ms = [m for m in g.nodes if m.is_call and any(u.usr == f.usr for u in p.targets(m))]
        fills = [n for n in g.nodes if n.is_call and n.callee is not None and n.callee.name in ("emplace", "push_back", "emplace_back", "add_proc_grp", "try_emplace")
                 and (n.callee.name == "add_proc_grp" or n.k == "mcall" and any(table(obj(n), x) for x in TABLES))]
        if ms and fills and all(not between(g, m, lambda e: any(e is n for n in fills), hit=lambda e: does(e, "clear." + k)) for m in ms):
            return True
    return False


def search(c, p, f, nm):
    prog = f.params[1] if len(f.params) > 1 else None
    finds = [n for n in f.nodes if calls(n, "find_file")]
    sub = []
    if not finds:
        for x in f.nodes:
            if x.is_call:
                for t in p.targets(x):
                    if any(calls(m, "find_file") for m in t.nodes) and (t.cls == f.cls or t.q not in KNOWN) and t.usr != f.usr:
                        sub.append((x, t))
        if not sub:
            for t in p.src_funcs():
                if t.parent == f.usr and any(calls(m, "find_file") for m in t.nodes):
                    sub.append((None, t))
        if not sub:
            c.violate("search.%s" % f.q, f.loc(), "%s does not look for the member" % f.q)
        else:
            for _, t in sub:
                if t.parent is None:
                    search(c, p, t, "helper")
        return
    grp = [n for n in f.nodes if calls(n, "get_proc_grp_by_program")]
    if not grp and nm != "helper":
        c.violate("search.group.%s" % f.q, f.loc(), "%s does not look in the libraries of the program's group" % f.q)
    for g in grp:
        if nm == "parse_library" and not men(p, f, g.args[0] if g.args else None, lambda y: calls(y, "opencode_file_name")):
            c.violate("search.group.%s" % f.q, g.loc(), "%s uses the group of another program" % f.q)
        if nm == "has_library" and prog is not None and not men(p, f, g.args[0] if g.args else None, lambda y: y.k == "ref" and y.var is prog):
            c.violate("search.group.%s" % f.q, g.loc(), "%s uses the group of another program" % f.q)
    for n in finds:
        if not any(refs(a, f.params[0]) for a in n.args if a is not None) and nm != "helper":
            c.violate("search.name.%s" % f.q, n.loc(), "%s looks for another member than asked for" % f.q)
        loop = next((u for u in n.up() if u.k in ("rfor", "for", "while")), None)
        if loop is None or not men(p, f, loop, lambda y: calls(y, "libraries")) or mentions(loop, lambda y: calls(y, "rbegin", "crbegin")):
            c.violate("search.order.%s" % f.q, n.loc(), "%s does not look in all libraries in their order" % f.q)
            continue

        def found(x, t):
            s = strip(x)
            if s is None:
                return False
            if t and men(p, f, s, lambda y: y is n) and s.k not in ("bin", "ocall"):
                return True
            return any(op == "!=" and b.k == "null" and men(p, f, a, lambda y: y is n) for a, op, b in sides(x, t))
        # after a member was found, no other library is asked, and the search ends only then or at the end
        for x in loop.walk():
            if x.k in ("break", "return") and between(f, n, lambda e: e is x, edge=found) and x.k == "return":
                c.violate("search.early.%s" % f.q, x.loc(), "%s ends the search before the member was found" % f.q)
        if not leaves(f, n, found):
            c.violate("search.first.%s" % f.q, n.loc(), "%s asks further libraries after the member was found" % f.q)
    for n in f.nodes:
        if n.k == "return" and n.ch and n.ch[0] is not None and nm in ("parse_library", "has_library"):
            r = strip(n.ch[0])
            if r.v == 1 and all(between(f, m, lambda e: e is n, edge=lambda x, t: t and men(p, f, strip(x), lambda y: y is m) or any(op == "!=" for a, op, b in sides(x, t))) for m in finds):
                c.violate("search.true.%s" % f.q, n.loc(), "%s claims to have found a member it did not find" % f.q)


def leaves(f, n, found):
    """no way from the edge on which the member was found back to the search"""
    from c18 import lits
    for b in f.blocks.values():
        if b.cond is None or len(b.succ) != 2:
            continue
        for i, s in enumerate(b.succ):
            if s is None:
                continue
            if any(found(x, t) for x, t in lits(f, b.cond, i == 0)):
                if between(f, s if isinstance(s, int) else s.id, lambda e: e is n):
                    return False
    return True


def again(f, n, loop):
    """can the same loop over the extensions come back to the listing for the same file?"""
    # the way back to n without passing the header of an outer loop: a break or return of the inner loop must stand behind n
    outer = next((u for u in loop.up() if u.k in ("rfor", "for", "while")), None)
    blk = [u for u in n.up() if u.k == "block"]
    seen = False
    for u in blk:
        if any(x.k in ("break", "return") and next((z for z in x.up() if z.k in ("rfor", "for", "while", "switch")), None) is loop for x in u.walk()) and any(x.k in ("break", "return") and x.line >= n.line for x in u.walk()):
            seen = True
        if u.parent is loop:
            break
    if not seen:
        # a flag or a goto may end the loop: only a plain loop is judged
        return loop.k == "rfor"
    return False


def longer(c, t):
    """the comparison puts longer extensions first"""
    a, b = t.params
    for n in t.nodes:
        if n.k != "bin" or n.op not in ("<", ">", "<=", ">="):
            continue
        l, r = strip(n.ch[0]), strip(n.ch[1])
        if not (calls(l, "size", "length") and calls(r, "size", "length")):
            continue
        big = None
        first = refs(l, a) and refs(r, b)
        second = refs(l, b) and refs(r, a)
        if not first and not second:
            continue
        gt = (n.op[0] == ">") == first      # true: a is longer
        ret = n.parent
        while ret is not None and ret.k not in ("return", "if"):
            ret = ret.parent
        if ret is None:
            continue
        if ret.k == "return":
            if strip(ret.ch[0]) is n and not gt:
                c.violate("ext.order", n.loc(), "shorter extensions are tried before longer ones")
        else:
            body = [x for x in ret.walk() if x.k == "return" and x.ch and strip(x.ch[0]).v is not None]
            if body and strip(body[0].ch[0]).v != (1 if gt else 0):
                c.violate("ext.order", n.loc(), "shorter extensions are tried before longer ones")


def key_of(p, f, e, d=0):
    """the name under which a JSON value was looked up"""
    e = strip(e)
    if e is None or d > 4:
        return None
    for y in e.walk():
        if y.k == "mcall" and y.callee is not None and y.callee.name in ("at", "find") and y.args:
            s = next((z for z in y.args[0].walk() if z.k == "str"), None)
            if s is not None:
                return s.a.get("s_") or lit(s)
        if y.k in ("ocall", "index") and y.op == "[]":
            s = next((z for z in y.walk() if z.k == "str"), None)
            if s is not None:
                return lit(s)
        if y.k == "ref" and y.var is not None and y.var.kind == "local":
            for x in defs(f).get(y.var, ()):
                if x is not None:
                    r = key_of(p, f, x, d + 1)
                    if r:
                        return r
    return None


def lit(s):
    return s.s if hasattr(s, "s") else s.v
