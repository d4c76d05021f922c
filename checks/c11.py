"""C11  every diagnostic keeps its identity: code, severity, message parameters and range, from where it is made to the client."""
import re
from collections import defaultdict
from prog import strip
import constev
import prov

D = "hlasm_plugin::parser_library::"
# factory -> (code, severity) where they differ from its name (pinned by the published list or the tests)
ODD = {
    "error_A238_REF_format": ("A288", "error"), "warn_D025": ("D025", "warning"), "error_CW001": ("CW001", "warning"),
    "error_W004": ("W0004", "warning"), "error_W005": ("W0005", "warning"),
    "error_L0001": ("L0001", None), "error_L0002": ("L0002", None),
}
SHARED = {"D008": 2}  # two variants of one message
NO_CODE = {"error_NOERR"}
FACTORY = re.compile(r"(error|warn|warning|info|hint)_")
PREFIX = {"error": "error", "warning": "warning", "warn": "warning", "info": "info", "hint": "hint"}


def squeeze(code):
    m = re.fullmatch(r"([A-Z]+)0*(\d+)", code)
    return m.group(1) + m.group(2) if m else code


def whole(e, d=0):
    """parameters whose unchanged value e is"""
    x = strip(e)
    while x is not None and ((x.k == "ctor" and len(x.ch) == 1) or (x.k == "call" and x.cq == "std::move")) and x.ch:
        if x.k == "ctor" and not ("K" in x.callee.fl or "M" in x.callee.fl):
            return set()
        x = strip(x.ch[0])
    if x is None or x.k != "ref" or x.var is None:
        return set()
    if x.var.kind == "param":
        return {x.var.q}
    out = set()
    if d < 3:
        for y in prov.defs(x.fn).get(x.var, ()):
            out |= whole(y, d + 1)
    return out


def check(c):
    p = c.p
    E = constev.Ev(p)
    K = {D + "diagnostic_op", D + "diagnostic_s"}
    c.rule("each factory of a diagnostic makes one with the code and severity of its name, codes are not shared, the range it is given is the range it "
           "reports, and every parameter is part of the diagnostic")
    codes = defaultdict(list)

    def made(f, d=0):
        """constructions of a diagnostic with a code in f or in a helper it calls"""
        out = []
        for n in f.nodes:
            if n.k == "ctor" and n.t.rec in K and len([a for a in n.args if a is not None]) >= 3:
                out.append((n, None))
            elif n.is_call and n.k != "ctor" and d < 2:
                for t in p.targets(n):
                    if (t.cls or "") in K and FACTORY.match(t.name) and not re.match(r"[A-Z]+\d+(_|$)", f.name.partition("_")[2]):
                        out.append((None, n))  # chooses among the factories
                    elif t.decl.r.rec in K if hasattr(t.decl, "r") else False:
                        for m, _ in made(t, d + 1):
                            out.append((m, n))
        return out
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.line)):
        if (f.cls or "") not in K or "s" not in f.decl.fl or not FACTORY.match(f.name):
            continue
        c.seen(f)
        c.ob("factories", f.q)
        ms = made(f)
        if not ms:
            c.violate("make." + f.name, f.loc(), "%s makes no diagnostic" % f.q)
            continue
        for n, via in ms:
            if n is None:
                continue
            where = [a for a in n.args if a is not None]
            env = {}
            if via is not None:
                h = n.fn
                for v, a in zip(h.params, via.args):
                    if a is not None:
                        env[v] = a
            val = []
            for a in where:
                x = strip(a)
                while x is not None and x.k in ("ctor", "icast", "cast", "call") and len(x.ch) >= 1 and not (x.k == "ctor" and len(x.ch) > 1):
                    x = strip(x.ch[0])
                    if x is None:
                        break
                if x is not None and x.k == "ref" and x.var in env:
                    val.append(E.ev(env[x.var]))
                else:
                    val.append(E.ev(a))
            sev = [x for x in val if isinstance(x, constev.Enum) and x.type.endswith("diagnostic_severity")]
            cs = [x for x in val if isinstance(x, str) and re.fullmatch(r"[A-Z]+\d+", x)]
            pre, _, rest = f.name.partition("_")
            if f.name in NO_CODE:
                continue
            want = ODD.get(f.name, (None, PREFIX[pre]))
            if len(cs) < 1:
                c.violate("code." + f.name, n.loc(), "%s makes a diagnostic without a constant code" % f.q)
                continue
            code = cs[0]
            codes[code].append(f)
            name_code = rest.split("_")[0]
            if (want[0] is not None and code != want[0]) or (want[0] is None and squeeze(code) != squeeze(name_code)):
                c.violate("code." + f.name, n.loc(), "%s makes a diagnostic with code %s" % (f.q, code))
            if want[1] != (sev[0].name if sev else None):
                c.violate("severity." + f.name, n.loc(), "%s makes a diagnostic of severity %s" % (f.q, sev[0].name if sev else "(unspecified)"))
            # parameters
            used = set()
            for a in where + (list(via.args) if via is not None else []):
                if a is not None:
                    used |= {t[2:] for t in prov.tags(p, a, {}) if t.startswith("p:")}
                    used |= {x.var.q for x in a.walk() if x.k == "ref" and x.var is not None}
            for v in f.params:
                c.ob("parameters of factories", f.q + " " + v.q)
                if v.q not in used and not any(r.k == "ref" and r.var == v for r in f.nodes):
                    c.violate("unused.%s.%s" % (f.name, v.q), f.loc(), "%s ignores its parameter %s" % (f.q, v.q))
            rp = [v for v in f.params if (v.t.rec or "").endswith("::range")]
            if rp:
                c.ob("ranges of factories", f.q)
                rs = [a for a in where if (strip(a) is not None and (strip(a).t.rec or "").endswith("::range"))]
                got = set()
                for x in f.nodes:
                    if x.k in ("ocall", "assign") and x.op == "=" and len(x.ch) == 2 and strip(x.ch[0]) is not None and strip(x.ch[0]).k == "member" \
                            and strip(x.ch[0]).var is not None and strip(x.ch[0]).var.q.split("::")[-1] == "diag_range":
                        rs.append(x.ch[1])
                if via is not None:
                    rs += [x for x in via.args if x is not None and (strip(x).t.rec or "").endswith("::range")]
                for a in rs:
                    got |= whole(a)
                if not any(v.q in got for v in rp):
                    c.violate("range." + f.name, n.loc(), "%s does not give the diagnostic the range it was called with" % f.q)
    for code, fs in codes.items():
        c.ob("codes", code)
        us = {(f.usr) for f in fs}
        if len(us) > SHARED.get(code, 1):
            c.violate("shared." + code, fs[-1].loc(), "code %s is used by %s" % (code, ", ".join(sorted({f.name for f in fs}))))

    # copies of a diagnostic keep every field
    c.rule("constructors and accessors copy each field of a diagnostic to the field of the same meaning")
    F = ("severity", "code", "message", "diag_range", "related", "file_name", "source")
    BYTYPE = {"severity": "diagnostic_severity", "diag_range": "::range"}
    for f in p.funcs.values():
        if f.cls not in K or "C" not in f.decl.fl or "K" in f.decl.fl or "M" in f.decl.fl or not f.params:
            continue
        c.seen(f)
        from_op = next((v for v in f.params if (v.t.rec or "") == D + "diagnostic_op"), None)
        names = [v.q.split("::")[-1] for v in f.params]
        strs = [v for v in f.params if "basic_string" in v.t.s and "vector" not in v.t.s]
        for fld, _, init, _w in f.inits:
            nm = getattr(fld, "name", None) or (fld.q.split("::")[-1] if fld is not None and hasattr(fld, "q") else None)
            if nm not in F or init is None:
                continue
            c.ob("copied fields", "%s.%s" % (f.q, nm))
            t = prov.tags(p, init, {})
            if from_op is not None and nm in ("severity", "code", "message", "diag_range"):
                if "f:" + D + "diagnostic_op::" + nm not in t or any(x.startswith("f:" + D + "diagnostic_op::") and not x.endswith("::" + nm) for x in t):
                    c.violate("copy.%s.%s" % (f.cls, nm), f.loc(), "%s does not take %s from the %s of the diagnostic it is given" % (f.q, nm, nm))
            elif nm in ("code", "message", "file_name"):
                # strings in the order  file name, code, message
                order = [x for x in ("file_name", "code", "message") if x != "file_name" or f.cls.endswith("diagnostic_s")]
                if len(strs) == len(order):
                    v = strs[order.index(nm)]
                    if "p:" + v.q not in t:
                        c.violate("copy.%s.%s" % (f.cls, nm), f.loc(), "%s sets %s from something else than its parameter" % (f.q, nm))
    acc = {"file_name": "file_name", "get_range": "diag_range", "severity": "severity", "code": "code", "source": "source", "message": "message",
           "related_info": "related", "related_info_size": "related"}
    for a, fld in acc.items():
        for f in p.fns(D + "diagnostic::" + a):
            c.ob("accessors", a)
            c.seen(f)
            got = {x.var.q.split("::")[-1] for n in f.nodes if n.k == "return" for x in n.walk() if x.k == "member" and x.var is not None and (x.var.q or "").startswith(D + "diagnostic_s::")}
            got |= {t.split("::")[-1] for n in f.nodes if n.k == "return" for t in prov.tags(p, n, {}) if t.startswith("f:" + D + "diagnostic_s::")}
            if got != {fld}:
                c.violate("accessor." + a, f.loc(), "%s returns %s" % (f.q, ", ".join(sorted(got)) or "something else"))
    for f in p.fns(D + "diagnosable_ctx::add_diagnostic"):
        if not f.params or f.params[0].t.rec != D + "diagnostic_s":
            continue
        c.seen(f)
        for n in f.nodes:
            if n.k == "ctor" and n.t.rec == D + "diagnostic_op" and len(n.args) == 4:
                for a, nm in zip(n.args, ("severity", "code", "message", "diag_range")):
                    c.ob("copied fields", "add_diagnostic." + nm)
                    if not any(x.k == "member" and x.var is not None and x.var.q.split("::")[-1] == nm for x in a.walk()) and "f:" + D + "diagnostic_s::" + nm not in prov.tags(p, a, {}):
                        c.violate("ctx." + nm, n.loc(), "%s drops the %s of the diagnostic" % (f.q, nm))
    # severities of the protocol
    c.rule("severities have the values of the language server protocol")
    vals = {}
    for f in p.src_funcs():
        for n in f.nodes:
            if n.k == "ref" and n.var is not None and n.var.kind == "enum" and (n.var.q or "").startswith(D + "diagnostic_severity::") and n.v is not None:
                vals[n.var.q.split("::")[-1]] = n.v
    for k, v in {"error": 1, "warning": 2}.items():
        c.ob("severities", k)
        if k in vals and vals[k] != v:
            c.violate("severity." + k, "parser_library/include/protocol.h:1", "severity %s has value %d" % (k, vals[k]))
    c.need("factories", 200)
    c.need("accessors", 6)
    c.need("copied fields", 8)
