"""C14  no source text makes the analysis fail by an internal error: preconditions of the assembly context and variant accesses."""
import re
from facts import AnalysisError
from prog import strip
from tags import Tags
from flow import canon, vname
from prov import defs, recomputed
import absent
from paths import must, avoids
from mustdo import literals

D = "hlasm_plugin::parser_library::"
ORD = D + "context::ordinary_assembly_context::"
HC = D + "context::hlasm_context::"

# callee -> (index of the name, what has to hold, what establishes it: (callee, index of the name, truth))
PRE = {
    ORD + "create_symbol": (0, "the name is not defined yet", [(ORD + "symbol_defined", 0, False), (ORD + "get_symbol", 0, False), (ORD + "get_symbol_reference", 0, False)]),
    ORD + "set_section": (0, "the name is not defined yet, or defined as this section", [(ORD + "symbol_defined", 0, False), (ORD + "section_defined", 0, True), (ORD + "get_symbol", 0, False)]),
    ORD + "set_location_counter": (0, "the name is not defined yet, or defined as a location counter", [(ORD + "symbol_defined", 0, False), (ORD + "counter_defined", 0, True), (ORD + "get_symbol", 0, False)]),
    HC + "remove_mnemonic": (0, "the name is an operation code", [(HC + "get_operation_code", 0, True)]),
    HC + "add_mnemonic": (1, "the name is an operation code", [(HC + "get_operation_code", 0, True)]),
    HC + "enter_copy_member": (0, "the member is known", [(HC + "copy_members", None, True), (D + "workspaces::parse_lib_provider::parse_library", 0, True)]),
}


def key(n, d=0):
    """the value of an expression, with names for it seen through"""
    n = strip(n)
    if n is None:
        return None
    if n.k == "ctor" and len([c for c in n.ch if c is not None]) == 1 and d < 8:
        return key(n.ch[0], d + 1)
    if n.k == "ref" and n.var is not None and n.var.kind in ("local", "capture") and d < 8:
        ds = defs(n.fn).get(n.var, ())
        if len(ds) == 1 and ds[0] is not None:
            s = strip(ds[0])
            if s is not None and s.k in ("ref", "member"):
                k = key(s, d + 1)
                if k is not None:
                    return k
    if n.k == "un" and n.op == "*" and n.ch:
        return key(n.ch[0], d + 1)
    if n.k == "ocall" and n.callee is not None and n.callee.name == "operator*" and n.ch:
        return key(n.ch[0], d + 1)
    return canon(n)


def root(n, d=0):
    n = strip(n)
    while n is not None and n.k in ("ocall", "un", "member", "ctor") and n.ch and d < 10:
        if n.k == "member":
            break
        n = strip(n.ch[0])
        d += 1
    return n


class Pre:
    def __init__(self, p, est, name):
        self.p, self.est, self.name = p, est, name
        self.memo = {}

    def mentions(self, e, k, d=0):
        """node e asks about the name k: the callee that establishes something, with the truth that does"""
        e = strip(e)
        if e is None or d > 6:
            return None
        if e.is_call and e.callee is not None:
            for q, i, t in self.est:
                if e.callee.q == q and (i is None or (i < len(e.args) and key(e.args[i]) == k)):
                    return t
            if e.callee.name == "operator bool" and e.ch:
                return self.mentions(e.ch[0], k, d + 1)
        if e.k == "ref" and e.var is not None:
            ds = defs(e.fn).get(e.var, ())
            if len(ds) == 1:
                return self.mentions(ds[0], k, d + 1)
        if e.k in ("ctor",) and len([c for c in e.ch if c is not None]) == 1:
            return self.mentions(e.ch[0], k, d + 1)
        return None

    def finds(self, e, k, d=0):
        """e is a search for k in a table that establishes"""
        e = strip(e)
        if e is None or d > 5:
            return False
        if e.k == "mcall" and e.callee is not None and e.callee.name in ("find", "count", "contains") and e.args and key(e.args[0]) == k:
            o = strip(e.ch[0])
            return o is not None and ((o.k == "mcall" and o.callee is not None and any(o.callee.q == q and i is None for q, i, t in self.est))
                                      or (o.k == "ref" and any(self.tab(x) for x in defs(e.fn).get(o.var, ())))
                                      or (o.k == "member" and o.var is not None and any(i is None and o.var.q.rsplit("::", 1)[-1].strip("_") == q.rsplit("::", 1)[-1] for q, i, t in self.est)))
        if e.k == "ref" and e.var is not None:
            ds = defs(e.fn).get(e.var, ())
            return len(ds) == 1 and self.finds(ds[0], k, d + 1)
        if e.k == "ctor" and len([c for c in e.ch if c is not None]) == 1:
            return self.finds(e.ch[0], k, d + 1)
        return False

    def tab(self, x):
        x = strip(x)
        return x is not None and x.k == "mcall" and x.callee is not None and any(x.callee.q == q and i is None for q, i, t in self.est)

    def holds(self, c, truth, k, d=0):
        """condition c having this truth establishes the precondition for k"""
        c = strip(c)
        if c is None or d > 8:
            return False
        if c.k == "un" and c.op == "!":
            return self.holds(c.ch[0], not truth, k, d + 1)
        if c.k == "bin" and c.op in ("&&", "||"):
            rs = [self.holds(x, truth, k, d + 1) for x in c.ch]
            return any(rs) if (c.op == "&&") == truth else all(rs)
        if c.k == "cond":
            return all(self.holds(x, truth, k, d + 1) for x in c.ch[1:])
        if c.k in ("bool", "int") and c.v is not None:
            return bool(int(c.v)) != truth          # cannot have this truth
        if c.k in ("bin", "ocall") and (c.op if c.k == "bin" else c.callee.name.replace("operator", "") if c.callee is not None else "") in ("==", "!="):
            op = c.op if c.k == "bin" else c.callee.name.replace("operator", "")
            a, b = c.ch[0], c.ch[1]
            for x, y in ((a, b), (b, a)):
                sy = strip(y)
                if sy is None:
                    continue
                if self.finds(x, k) and absent.end_like(c.fn, y):
                    return truth == (op == "!=")
                t = self.mentions(x, k)
                if t is not None:
                    if sy.k == "null":
                        return t == ((op == "!=") == truth)
                    if sy.k in ("bool", "int") and sy.v is not None:
                        return t == ((op == "==") == truth) if int(sy.v) else t == ((op == "!=") == truth)
            return False
        if c.k == "bin" and c.op in (">", ">=") and self.finds(c.ch[0], k):
            return truth
        t = self.mentions(c, k)
        if t is not None:
            return t == truth
        if self.finds(c, k):
            return truth
        if c.k == "ref" and c.var is not None and c.var.kind in ("local", "capture"):
            ds = defs(c.fn).get(c.var, ())
            if ds and all(x is not None for x in ds) and not recomputed(c.fn, c.var):
                rs = [self.holds(x, truth, k, d + 1) for x in ds]
                return all(rs)
        # a helper that returns the test
        if c.is_call:
            ts = self.p.targets(c)
            return bool(ts) and all(self.wrapper(t, truth, k, c) for t in ts)
        return False

    def wrapper(self, t, truth, k, call, d=0):
        pars = [i for i, a in enumerate(call.args) if key(a) == k]
        if t.parent is not None and not pars:
            pars = [None]               # a lambda that captured it
        for i in pars:
            if i is None:
                kk = k
            else:
                if i >= len(t.params):
                    continue
                kk = vname(t.params[i])
            if (t.usr, truth, kk) in self.memo:
                if self.memo[t.usr, truth, kk]:
                    return True
                continue
            self.memo[t.usr, truth, kk] = False
            at = self.flow(t, kk)
            rs = [n for n in t.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
            r = bool(rs) and all(self.holds(n.ch[0], truth, kk) or at.get(n.id) for n in rs)
            self.memo[t.usr, truth, kk] = r
            if r:
                return True
        return False

    def flow(self, f, k, entry=False):
        """node id -> the precondition holds for k on every path to it"""
        def step(e, v):
            if e.is_call and e.callee is not None and self.kills(e):
                return False
            if e.k == "assign" and e.ch and key(e.ch[0]) == k:
                return False
            return v
        return must(f, entry, step, lambda c, t: self.holds(c, t, k))

    def kills(self, e):
        return e.callee.q == self.name


CREATE = {ORD + "create_symbol", D + "processing::low_language_processor::create_symbol"}


def creates(p, n, k, d=0):
    """the call creates the symbol k, directly or through a helper that gets the name"""
    if not n.is_call or n.callee is None or d > 3:
        return False
    if n.callee.q in CREATE:
        return any(key(a) == k for a in n.args)
    if not n.callee.q.startswith(D):
        return False
    pars = [i for i, a in enumerate(n.args) if key(a) == k]
    ts = p.targets(n)
    if not ts or (not pars and not all(t.parent is not None for t in ts)):
        return False
    for t in ts:
        if pars and pars[0] >= len(t.params):
            return False
        kk = vname(t.params[pars[0]]) if pars else k
        if not any(creates(p, x, kk, d + 1) for x in t.nodes):
            return False
        if avoids(t, None, lambda x: creates(p, x, kk, d + 1)):
            return False
    return True


def created(p, f, k):
    """node id -> the symbol k was created by this function on every path to it"""
    def step(e, v):
        if e.k == "assign" and e.ch and key(e.ch[0]) == k:
            return False
        return v or creates(p, e, k)
    at = must(f, False, step, lambda c, t: False)
    good = set()
    for _ in range(2):
        for v, ds in defs(f).items():
            if v in good or v.kind not in ("local", "capture") or not v.t.s.endswith("bool"):
                continue
            ok = any(strip(x) is not None and not (strip(x).k == "bool" and not int(strip(x).v)) for x in ds)
            ok = ok and not recomputed(f, v)
            for x in ds:
                s = strip(x)
                if s is None or not (s.k == "bool" and not int(s.v) or at.get(x.id) or at.get(s.id) or creates(p, s, k)):
                    ok = ok and s is not None and any(n.k == "assign" and len(n.ch) == 2 and n.ch[1] is x and at.get(n.id) for n in f.nodes)
            if ok:
                good.add(v)

        def edge(c, t):
            c = strip(c)
            while c is not None and c.k == "un" and c.op == "!":
                c, t = strip(c.ch[0]), not t
            return t and c is not None and (c.k == "ref" and c.var in good or (c.is_call and creates(p, c, k)))
        at = must(f, False, step, edge)
    return at


def callers_of(p, f):
    return p.callers().get(f.usr, ())


def check(c):
    p = c.p
    c.rule("every path to an operation of the assembly context that rejects a name takes a branch that establishes what the operation requires of the name (in the function or in each of its callers)")
    for q, (idx, what, est) in sorted(PRE.items()):
        P = Pre(p, est, q)
        roots = [(f, n, idx) for f in p.src_funcs() for n in f.nodes if n.k in ("mcall", "call") and n.callee is not None and n.callee.q == q]
        roots = [(f, n, i) for f, n, i in roots if len(n.args) > i and "id_index" in n.callee.p[i].s or "basic_string<char> *" in n.callee.p[i].s]
        done = set()

        def demand(f, n, i, d, via):
            k = key(n.args[i])
            c.seen(f)
            site = "%s in %s" % (q.rsplit("::", 1)[-1], f.q.replace(D, ""))
            if (f.usr, n.id, i) in done:
                return
            done.add((f.usr, n.id, i))
            if k is not None and P.flow(f, k).get(n.id):
                c.ob("operations with a precondition", "%s (%s)" % (n.loc(), site))
                return
            pars = [j for j, v in enumerate(f.params) if vname(v) == k]
            cs = list(callers_of(p, f)) if pars and d < 4 else []
            cs = [(g, m) for g, m in cs if m is not None and g.usr != f.usr]
            if cs:
                for g, m in cs:
                    if len(m.args) > pars[0]:
                        demand(g, m, pars[0], d + 1, via + [f])
                return
            if any(a.k == "call" or a.k == "ref" and a.var is not None and a.var.q.endswith("empty_id") for a in [root(n.args[i])] if a is not None) and root(n.args[i]).k == "ref" and root(n.args[i]).var.q.endswith("empty_id"):
                c.ob("operations with a precondition", "%s (%s, on the unnamed one)" % (n.loc(), site))
                return
            c.ob("operations with a precondition", "%s (%s)" % (n.loc(), site))
            c.violate("pre.%s.%s" % (q.rsplit("::", 1)[-1], f.q), n.loc(), "%s calls %s%s on a path on which nothing establishes that %s: it fails by an exception and the document gets no result" % (
                f.q, q, " (through %s)" % ", ".join(x.q.rsplit("::", 1)[-1] for x in via) if via else "", what))
        for f, n, i in roots:
            demand(f, n, i, 0, [])
    c.need("operations with a precondition", 10)

    c.rule("a dependency of a symbol is added only for a symbol that the statement itself has created on every path to the addition, so no symbol gets a second one")
    DEP = {D + "context::dependency_adder::add_dependency", D + "context::symbol_dependency_tables::add_dependency"}
    done2 = set()

    def dep(f, n, i, d, via):
        if (f.usr, n.id) in done2:
            return
        done2.add((f.usr, n.id))
        k = key(n.args[i])
        c.seen(f)
        if k is not None and created(p, f, k).get(n.id):
            c.ob("dependencies of symbols", "%s in %s" % (n.loc(), f.q.replace(D, "")))
            return
        pars = [j for j, v in enumerate(f.params) if vname(v) == k]
        cs = [(g, m) for g, m in callers_of(p, f) if m is not None and g.usr != f.usr] if pars and d < 5 else []
        if cs or (pars and not list(callers_of(p, f))):
            for g, m in cs:
                if len(m.args) > pars[0]:
                    dep(g, m, pars[0], d + 1, via + [f])
            return
        c.ob("dependencies of symbols", "%s in %s" % (n.loc(), f.q.replace(D, "")))
        c.violate("dep.%s" % f.q, n.loc(), "%s adds a dependency for a symbol on a path on which it has not created that symbol: a second dependency of one symbol fails by an exception" % f.q)
    for f in p.src_funcs():
        if f.q in DEP:
            continue
        for n in f.nodes:
            if n.k in ("mcall", "call") and n.callee is not None and n.callee.q in DEP and n.args and n.callee.p and n.callee.p[0].s.replace("const ", "", 1).startswith("std::basic_string<char> *") | ("id_index" in n.callee.p[0].s) | ("basic_string<char> *" in n.callee.p[0].s and "variant" not in n.callee.p[0].s):
                dep(f, n, 0, 0, [])
    c.need("dependencies of symbols", 3)

    variants(c)


def norm(t):
    return t.replace("const ", "").replace(" const", "").replace("*const", "*").strip(" &")


def seg(callee):
    """the alternative a std::get / holds_alternative / get_if names, as it is encoded in its identity"""
    m = re.match(r"c:@N@std@F@\w+<#(.*?)#p(\d+)", callee.u)
    return (m.group(1), int(m.group(2))) if m else None


# class -> the fields that hold the value and its tag
TAGGED = {D + "semantics::label_si": ("value", "type"), D + "semantics::instruction_si": ("value", "type"), D + "lsp::file_info": ("owner", "type")}
EXEMPT = {
    D + "expressions::data_definition::get_single_symbol_names": "called only after check_single_symbol_ok",
    D + "lsp::lsp_context::find_definition_location": "the search predicate admits copy members only",
}


def tagged(p):
    """class -> {tag: type held}: from the constructors of the tagged statement fields"""
    out = {}
    for k in TAGGED:
        m = {}
        for f in p.fns(k + "::" + k.rsplit("::", 1)[-1]):
            t = v = None
            for fld, base, node, w in f.inits:
                nm = fld.q.split("::")[-1] if fld is not None else ""
                x = strip(node) if node is not None else None
                if nm == TAGGED[k][1] and x is not None and x.v is not None:
                    t = int(x.v)
                if nm == TAGGED[k][0] and x is not None:
                    y = x
                    while y is not None and y.k in ("ctor", "call") and [z for z in y.ch if z is not None] and "variant" in y.t.s:
                        y = strip([z for z in y.ch if z is not None][0])
                    v = norm(y.t.s) if y is not None else None
            if t is not None and v is not None:
                m.setdefault(t, set()).add(v)
        out[k] = m
    return out


def variants(c):
    p = c.p
    c.rule("a variant, a symbol value or a statement field is read as one of its alternatives only where, on every path, a test has left no other alternative")
    T = tagged(p)
    if any(len(v) < 2 for v in T.values()):
        raise AnalysisError("the constructors of the tagged statement fields are not understood")
    SV = D + "context::symbol_value::"
    flows = {}
    for f in p.src_funcs():
        for n in f.nodes:
            if n.callee is None:
                continue
            if n.k == "mcall" and n.callee.q in (SV + "get_abs", SV + "get_reloc"):
                want, arg, kind = {1 if n.callee.name == "get_abs" else 2}, n.ch[0], "symbol value"
            elif n.k == "call" and n.callee.q == "std::get" and n.callee.p and norm(n.callee.p[0].s).startswith("std::variant<") and n.args:
                s = seg(n.callee)
                if s is None:
                    continue
                want, arg, kind = {s[0]}, n.args[0], "variant"
            else:
                continue
            if f.q in (SV + "get_abs", SV + "get_reloc") or c14_exempt(p, f, n):
                continue
            k = canon(arg)
            site = "%s in %s" % (n.loc(), f.q.replace(D, ""))
            c.seen(f)
            if k is None:
                c.ob("reads of one alternative", site)
                c.violate("variant.%s" % f.q, n.loc(), "%s reads one alternative of a value that was never tested" % f.q)
                continue
            a = strip(arg)
            owner = next((x for x in TAGGED if a.k == "member" and a.var is not None and a.var.q == x + "::" + TAGGED[x][0]), None)
            if kind == "symbol value":
                U = frozenset((0, 1, 2))

                def is_tag(x, kk):
                    if x.k != "mcall" or x.callee is None or not x.ch or x.ch[0] is None:
                        return False
                    if x.callee.q == SV + "value_kind":
                        return canon(x.ch[0]) == kk
                    if x.callee.q == D + "context::symbol::kind":
                        o = canon(x.ch[0])
                        return o is not None and kk == o + ".value()"
                    return False
                alt = lambda x, kk: None
            elif owner:
                U = frozenset(T[owner])
                want = {t for t, v in T[owner].items() if v == {norm(n.t.s)}}

                def is_tag(x, kk):
                    if x.k != "member" or x.var is None or x.var.q != owner + "::" + TAGGED[owner][1] or not x.ch or x.ch[0] is None:
                        return False
                    o = canon(x.ch[0])
                    return o is not None and kk == o + "." + TAGGED[owner][0]

                def alt(x, kk):
                    return None
            else:
                alts = {s[0]}
                for x in f.nodes:
                    if x.k == "call" and x.callee is not None and x.callee.q in ("std::holds_alternative", "std::get", "std::get_if"):
                        y = seg(x.callee)
                        if y and y[1] == s[1]:
                            alts.add(y[0])
                U = frozenset(alts) | frozenset("?%d" % i for i in range(s[1] - len(alts)))
                is_tag = lambda x, kk: False

                def alt(x, kk):
                    if x.k == "call" and x.callee is not None and x.args:
                        ca = canon(x.args[0])
                        if x.callee.q == "std::holds_alternative" and ca == kk or x.callee.q == "std::get_if" and ca == "&" + kk:
                            y = seg(x.callee)
                            return y[0] if y else None
                    if x.k == "decl":
                        return None
                    return None
            key_ = (f.usr, k, tuple(sorted(map(str, U))))
            if key_ not in flows:
                flows[key_] = Tags(p, U, is_tag, alt).flow(f, k)
            at = flows[key_].get(n.id)
            if at is None:
                continue        # not reached (constant condition)
            if at == U and k.count("(") == 1 and a.k == "mcall" and a.callee is not None and a.callee.name in ("evaluate", "resolve"):
                # the same evaluation was tested under a name
                for m in f.nodes:
                    if m.k == "ref" and m.var is not None and any(x is not None and canon(x) == k or (x is not None and strip(x).k == "ctor" and strip(x).ch and canon(strip(x).ch[0]) == k) for x in defs(f).get(m.var, ())):
                        at = Tags(p, U, is_tag, alt).flow(f, vname(m.var)).get(n.id, at)
                        break
            c.ob("reads of one alternative", site)
            if not at <= want:
                c.violate("variant.%s" % f.q, n.loc(), "%s reads one alternative of %s on a path on which it can hold another one: the read fails by an exception" % (
                    f.q, "a symbol value" if kind == "symbol value" else "a statement field" if owner else "a variant"))
    c.need("reads of one alternative", 60)


def all_bases(p, k):
    return set(p.bases(k))


def nominal_types(p, k, memo={}):
    """the kinds of nominal value that the checkers of constants of this class family are made for"""
    if k not in memo:
        out = set()
        for q in {k} | set(p.derived(k)) | all_bases(p, k):
            for f in p.fns(q + "::" + q.rsplit("::", 1)[-1]):
                for n in f.nodes:
                    if n.k == "ref" and n.var is not None and n.var.kind == "enum" and "::nominal_value_type::" in n.var.q:
                        out.add(n.var.q.rsplit("::", 1)[-1])
        memo[k] = out
    return memo[k]


def c14_exempt(p, f, n):
    if f.q in EXEMPT:
        return True
    # checkers of constants: the base class has checked the kind of nominal value that the class was made for
    base = D + "checking::data_def_type"
    ks = [f.cls] if f.cls else [g.cls for g, m in callers_of(p, f)]
    if ks and all(k and k != base and base in all_bases(p, k) for k in ks):
        t = norm(n.t.s)
        kinds = set()
        for k in ks:
            kinds |= nominal_types(p, k)
        a = canon(n.args[0]) if n.args else None
        flags = [v for v in f.params if v.t.s == "bool"]
        if flags and must(f, False, lambda e, v: v, lambda cc, tt: any(x.k == "ref" and x.var in flags and y for x, y in literals(cc, tt))).get(n.id) is False:
            return False        # the nominal value may be of the wrong kind: the caller says so in the flag
        if t == D + "checking::data_def_expr" and kinds == {"EXPRESSIONS"}:
            return True
        if a is not None and a.endswith(".value") and kinds:
            return kinds == {"STRING"} if t.startswith("std::basic_string") else t.startswith("std::vector<") and "STRING" not in kinds
    return False
