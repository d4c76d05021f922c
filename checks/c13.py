"""C13  the instruction tables are complete, agree with each other and with the architecture."""
import json, os, re
from facts import AnalysisError, VERIF
from prog import strip
from constev import Ev, Enum, Obj, Unknown

C = "hlasm_plugin::parser_library::context::"
MF = C + "mach_format"
# operand shapes of each instruction format (z/Architecture Principles of Operation):
# R register, M mask, V vector register, I<n> immediate, A<n> relative address, B<n> D(B), X<n> D(X,B), W<n> D(V,B), L<n> D(L,B), LR D(R,B)
SHAPES = """RR 16 R,R|M,R|R
I 16 I8
E 16 -
IE 32 I4,I4
RRD 32 R,R,R
RRE 32 R,R|R|-
RRF_a 32 R,R,R|R,R,R,M
RRF_b 32 R,R,R|R,R,R,M
RRF_c 32 R,R,M
RRF_d 32 R,R,M
RRF_e 32 R,M,R|R,M,R,M
RI_a 32 R,I16
RI_b 32 R,A16
RI_c 32 M,A16
RS_a 32 R,R,B12|R,B12
RS_b 32 R,M,B12
RSI 32 R,R,A16
RX_a 32 R,X12
RX_b 32 M,X12
S 32 B12|-
SI 32 B12,I8|B12
RXY_a 48 R,X20
RXY_b 48 M,X20
RXE 48 R,X12|R,X12,M
RXF 48 R,R,X12
RIL_a 48 R,I32
RIL_b 48 R,A32
RIL_c 48 M,A32
RIE_a 48 R,I16,M
RIE_b 48 R,R,M,A16
RIE_c 48 R,I8,M,A16
RIE_d 48 R,R,I16
RIE_e 48 R,R,A16
RIE_f 48 R,R,I8,I8,I8
RIE_g 48 R,I16,M
RIS 48 R,I8,M,B12
RRS 48 R,R,M,B12
RSY_a 48 R,R,B20
RSY_b 48 R,M,B20|R,B20,M
RSL_a 48 L4
RSL_b 48 R,L8,M
SIY 48 B20,I8
SIL 48 B12,I16
SMI 48 M,A16,B12
MII 48 M,A12,A24
SS_a 48 L8,B12
SS_b 48 L4,L4
SS_c 48 L4,B12,I4
SS_d 48 LR,B12,R
SS_e 48 R,B12,R,B12|R,R,B12,B12
SS_f 48 B12,L8
SSE 48 B12,B12
SSF 48 B12,B12,R|R,B12,B12
VRI_a 48 V,I16|V,I16,M
VRI_b 48 V,I8,I8,M
VRI_c 48 V,V,I16,M
VRI_d 48 V,V,V,I8|V,V,V,I8,M
VRI_e 48 V,V,I12,M,M
VRI_f 48 V,V,V,I8,M
VRI_g 48 V,V,I8,I8,M
VRI_h 48 V,I16,I4
VRI_i 48 V,R,I8,M
VRR_a 48 V,V|V,V,M|V,V,M,M|V,V,M,M,M
VRR_b 48 V,V,V,M,M
VRR_c 48 V,V,V|V,V,V,M|V,V,V,M,M|V,V,V,M,M,M
VRR_d 48 V,V,V,V,M|V,V,V,V,M,M
VRR_e 48 V,V,V,V|V,V,V,V,M,M
VRR_f 48 V,R,R
VRR_g 48 V
VRR_h 48 V,V,M
VRR_i 48 R,V,M
VRS_a 48 V,V,B12,M
VRS_b 48 V,R,B12|V,R,B12,M
VRS_c 48 R,V,B12,M
VRS_d 48 V,R,B12
VRV 48 V,W12,M
VRX 48 V,X12,M
VSI 48 V,B12,I8"""
FORMAT = {}
for _l in SHAPES.splitlines():
    _f, _n, _s = _l.split(" ")
    FORMAT[_f] = (int(_n), {"" if x == "-" else x for x in _s.split("|")})
# condition an extended branch mnemonic stands for
COND = {"": 15, "U": 15, "O": 1, "H": 2, "P": 2, "L": 4, "M": 4, "E": 8, "Z": 8, "NE": 7, "NZ": 7, "NL": 11, "NM": 11, "NH": 13, "NP": 13, "NO": 14}
BRANCH = {"BC": r"B(%s)", "BCR": r"B(%s)R", "BRC": r"(?:J|BR)(%s)", "BRCL": r"(?:JL(%s)|BR(%s)L)", "BIC": r"BI(%s)"}
NOPS = {"NOP", "NOPR", "JNOP", "JLNOP"}
REF = os.path.join(VERIF, "ref", "zarch.json")


def operand(o):
    """(shape, signature) of an operand format value."""
    if not isinstance(o, Obj) or len(o.args) != 3:
        return None
    ps = []
    for x in o.args:
        if not isinstance(x, Obj) or len(x.args) != 3 or not isinstance(x.args[2], Enum) or isinstance(x.args[1], (Unknown, Obj)):
            return None
        ps.append((x.args[2].name, int(x.args[1]), bool(x.args[0])))
    a, b, d = ps
    if a[0] == "DISPLC":
        if d[0] != "BASE" or d[1] != 4:
            return None
        k = {"NONE": "B%d" % a[1], "DIS_REG": "X%d" % a[1], "VEC_REG": "W%d" % a[1], "LENGTH": "L%d" % b[1], "REG": "LR"}.get(b[0])
        if k is None or (b[0] in ("DIS_REG", "REG") and b[1] != 4) or (k[0] == "L" and a[1] != 12):
            return None
        if (a[1] == 20) != a[2]:
            return None
        return k
    if b[0] != "NONE" or d[0] != "NONE":
        return None
    k = {"REG": "R", "MASK": "M", "VEC_REG": "V", "IMM": "I%d" % a[1], "REG_IMM": "A%d" % a[1]}.get(a[0])
    if a[0] in ("REG", "MASK") and a[1] != 4:
        return None
    if a[0] == "REG_IMM" and not a[2]:
        return None
    return k + ("s" if a[0] == "IMM" and a[2] else "")


def reach(p, f):
    """f and the functions of the same file that it calls."""
    seen, st = {f.usr: f}, [f]
    while st:
        g = st.pop()
        for n in g.nodes:
            if n.callee is not None:
                h = p.funcs.get(n.callee.u)
                if h is not None and h.file == f.file and h.usr not in seen:
                    seen[h.usr] = h
                    st.append(h)
    return list(seen.values())


def entries(c, p, ev, q, want):
    """values handed over by the calls, constructions or brace lists in q that match `want`; outermost match only; helpers are followed with the
    values of their arguments."""
    fs = p.byq.get(q)
    if not fs:
        raise AnalysisError("function %s not found" % q)
    out = []
    visit(c, p, ev, fs[0], {}, want, out, None, 0)
    return out


def visit(c, p, ev, f, env, want, out, site, d):
    c.seen(f)
    done = set()
    for n in f.nodes:
        if not (n.is_call or n.k == "ilist"):
            continue
        if any(id(u) in done for u in n.up()):
            continue
        xs = [ev.ev(a, env) for a in (n.args if n.is_call else n.ch) if a is not None and a.k != "defarg"]
        w = want(xs)
        if w is not None:
            done.add(id(n))
            out.append((site or n, w))
            continue
        g = p.funcs.get(n.callee.u) if n.is_call and n.callee is not None else None
        if g is not None and g.file == f.file and d < 4 and any(isinstance(x, str) for x in xs):
            e2 = dict(env)
            e2.update(zip(g.params, [ev.ev(a, env) for a in n.args]))
            visit(c, p, ev, g, e2, want, out, site or n, d + 1)


def table(c, ev, q):
    v = ev.var(q)
    if v is None:
        raise AnalysisError("table %s not found" % q)
    c.seen(v)
    x = ev.ev(v.body)
    if not isinstance(x, list):
        raise AnalysisError("table %s is not a list of constants" % q)
    return v, x


def rows(x):
    """[key, value...] of the entries of a table."""
    for r in x:
        yield r.args if isinstance(r, Obj) else r


def check(c):
    p = c.p
    ev = Ev(p)
    c.rule("format names: every format of the enumeration has exactly one name, its own")
    c.rule("machine instructions: unique names; operands have a shape the format has in the architecture; the length of a format is its architectural length; "
           "every instruction of the reference (ref/zarch.json) has its format, operands and number of optional operands")
    c.rule("extended mnemonics: unique names; stand for an existing instruction; substitute existing operands, each once, with a value that fits, "
           "and never an address; branch mnemonics carry the mask of their condition; those of the reference stand for the same operation")
    c.rule("assembler and conditional-assembly instructions: unique names; every name has a checker (or handler) of its own name and every checker and handler is for a known "
           "instruction; the numbers of operands agree")
    # formats
    v, fmt = table(c, ev, C + "instruction::mach_format_to_string")
    named = {}
    for r in rows(fmt):
        c.ob("format names", v.loc())
        if not isinstance(r[0], Enum) or not isinstance(r[1], str):
            raise AnalysisError("format name is not constant in %s" % v.loc())
        if r[0].name in named:
            c.violate("format %s named twice" % r[0].name, v.loc(), "format %s has two names" % r[0].name)
        named[r[0].name] = r[1]
        if r[1].replace("-", "_") != r[0].name:
            c.violate("name of format %s" % r[0].name, v.loc(), "format %s is called %s" % (r[0].name, r[1]))
    consts = enumerators(p, MF)
    values = {}
    for nm, val in consts.items():
        if nm.startswith("length_"):
            continue
        c.ob("formats")
        if nm not in named:
            c.violate("format %s has no name" % nm, v.loc(), "format %s has no entry in mach_format_to_string (completion items look it up)" % nm)
        values.setdefault(val, []).append(nm)
    for l in values.values():
        if len(l) > 1:
            c.violate("formats %s" % l, v.loc(), "formats %s have the same value" % l)
    lengths(c, p, consts)
    passing(c, p)
    # machine instructions
    def mi(xs):
        # [.., name, format, operands, (optional,) page]
        for i, x in enumerate(xs):
            if isinstance(x, Enum) and x.type == MF and i + 1 < len(xs) and isinstance(xs[i + 1], list) and i > 0 and isinstance(xs[i - 1], str):
                rest = [y for y in xs[i + 2:] if isinstance(y, int) and not isinstance(y, bool)]
                return xs[i - 1], x.name, xs[i + 1], rest
        return None
    mach = {}
    for n, (nm, f, ops, rest) in entries(c, p, ev, C + "instruction::get_machine_instructions", mi):
        c.ob("machine instructions", "%s %s" % (n.loc(), nm))
        sh = [operand(o) for o in ops]
        if any(x is None for x in sh):
            c.violate("operands of %s" % nm, n.loc(), "%s: an operand has no format of the architecture" % nm)
            continue
        opt = rest[0] if len(rest) > 1 else 0
        e = (f, ",".join(sh), opt)
        if nm in mach and mach[nm] != e:
            c.violate("instruction %s twice" % nm, n.loc(), "%s is defined twice, differently: the second definition is ignored" % nm)
        mach.setdefault(nm, e)
        if f not in FORMAT:
            continue  # a format this table does not know
        shape = ",".join(x.rstrip("s") for x in sh)
        if shape not in FORMAT[f][1]:
            c.violate("operands of %s" % nm, n.loc(), "%s: operands (%s) do not fit format %s" % (nm, shape, f))
        if not 0 <= opt <= len(sh):
            c.violate("optional operands of %s" % nm, n.loc(), "%s: %d optional operands of %d" % (nm, opt, len(sh)))
    c.need("machine instructions", 1200)
    # mnemonics
    def mn(xs):
        for i, x in enumerate(xs):
            if isinstance(x, Obj) and x.t == C + "mnemonic_code" and i > 0 and isinstance(xs[i - 1], str):
                if len(x.args) == 2:
                    return xs[i - 1], target(x.args[0]), x.args[1]
            if isinstance(x, str) and i + 2 < len(xs) and target(xs[i + 1]) and isinstance(xs[i + 2], list):
                return x, target(xs[i + 1]), xs[i + 2]
            if isinstance(x, str) and i + 2 < len(xs) and isinstance(xs[i + 1], str) and isinstance(xs[i + 2], list):
                return x, xs[i + 1], xs[i + 2]
        return None
    mnem = {}
    for n, (nm, tgt, rep) in entries(c, p, ev, C + "instruction::get_mnemonic_codes", mn):
        c.ob("extended mnemonics", "%s %s" % (n.loc(), nm))
        if tgt is None or not isinstance(rep, list) or any(not isinstance(r, list) or len(r) != 2 or not all(isinstance(z, int) for z in r) for r in rep):
            if rep == [] and tgt:
                pass
            else:
                raise AnalysisError("mnemonic %s is not constant" % nm)
        e = (tgt, sorted(map(tuple, rep)))
        if nm in mnem and mnem[nm] != e:
            c.violate("mnemonic %s twice" % nm, n.loc(), "mnemonic %s is defined twice, differently: the second definition is ignored" % nm)
        mnem.setdefault(nm, e)
        if nm in mach:
            c.violate("%s is instruction and mnemonic" % nm, n.loc(), "%s is both a machine instruction and an extended mnemonic" % nm)
        if tgt not in mach:
            c.violate("target of %s" % nm, n.loc(), "mnemonic %s stands for %s, which is not a machine instruction (lookup throws at start)" % (nm, tgt))
            continue
        ops = mach[tgt][1].split(",") if mach[tgt][1] else []
        ps = [r[0] for r in rep]
        if ps != sorted(set(ps)):
            c.violate("positions of %s" % nm, n.loc(), "mnemonic %s substitutes operand positions %s (not distinct and ascending)" % (nm, ps))
        for pos, val in rep:
            c.ob("substituted operands")
            if not 0 <= pos < len(ops):
                c.violate("position %d of %s" % (pos, nm), n.loc(), "mnemonic %s substitutes operand %d of %s, which has %d operands: a write beyond the operand list"
                          % (nm, pos, tgt, len(ops)))
                continue
            k = ops[pos]
            w = {"R": 4, "M": 4, "V": 4}.get(k[0])
            if k[0] == "I":
                w = int(k[1:].rstrip("s"))
            if w is None or (k[0] in "RV" and nm not in ("NOTR", "NOTGR", "VNOT")):
                c.violate("position %d of %s" % (pos, nm), n.loc(), "mnemonic %s substitutes operand %d of %s, which is not a mask or immediate value" % (nm, pos, tgt))
            elif not 0 <= val < (1 << (w - 1 if k.endswith("s") else w)):
                c.violate("value of %s" % nm, n.loc(), "mnemonic %s: value %d does not fit operand %d of %s" % (nm, val, pos, tgt))
        if tgt in BRANCH:
            alt = "|".join(sorted((x for x in COND), key=len, reverse=True))
            m = re.fullmatch(BRANCH[tgt].replace("%s", alt), nm)
            if m:
                cond = next((g for g in m.groups() if g is not None), None)
                c.ob("branch mnemonics")
                if rep and dict(map(tuple, rep)).get(0) not in {COND[k] for k in readings(tgt, nm)}:
                    c.violate("condition of %s" % nm, n.loc(), "branch mnemonic %s carries mask %s, its condition is %s" % (nm, rep, sorted({COND[k] for k in readings(tgt, nm)})))
            elif nm in NOPS and rep != [[0, 0]]:
                c.violate("condition of %s" % nm, n.loc(), "%s must never branch: %s" % (nm, rep))
    c.need("extended mnemonics", 500)
    c.need("branch mnemonics", 80)
    # the reference
    ref = json.load(open(REF))
    where = p.byq[C + "instruction::get_machine_instructions"][0].loc()
    for nm, e in sorted(ref["machine"].items()):
        c.ob("instructions of the reference")
        if nm not in mach:
            c.violate("instruction %s missing" % nm, where, "machine instruction %s is not known" % nm)
        elif list(mach[nm]) != e:
            c.violate("definition of %s" % nm, where, "%s: (format, operands, optional) is %s, the architecture has %s" % (nm, list(mach[nm]), e))
    where = p.byq[C + "instruction::get_mnemonic_codes"][0].loc()
    for nm, e in sorted(ref["mnemonic"].items()):
        c.ob("mnemonics of the reference")
        if nm not in mnem:
            c.violate("mnemonic %s missing" % nm, where, "extended mnemonic %s is not known" % nm)
        elif [mnem[nm][0], [list(x) for x in mnem[nm][1]]] != e:
            c.violate("definition of %s" % nm, where, "%s stands for %s %s, expected %s" % (nm, mnem[nm][0], mnem[nm][1], e))
    # assembler and conditional-assembly instructions
    va, asm = table(c, ev, C + "instruction::assembler_instructions")
    names = {}
    for r in rows(asm):
        c.ob("assembler instructions", r[0])
        a = r[1].args if isinstance(r[1], Obj) else None
        if a is None or len(a) < 3 or not all(isinstance(z, int) for z in a[:3]):
            raise AnalysisError("assembler instruction %s is not constant" % r[0])
        if r[0] in names:
            c.violate("%s twice" % r[0], va.loc(), "assembler instruction %s is defined twice" % r[0])
        names[r[0]] = a
        if a[0] < 0 or (a[1] != -1 and a[1] < a[0]):
            c.violate("operands of %s" % r[0], va.loc(), "%s takes at least %d and at most %d operands" % (r[0], a[0], a[1]))
        if r[0] in mach or r[0] in mnem:
            c.violate("%s in two tables" % r[0], va.loc(), "%s is both an assembler and a machine instruction" % r[0])
    chk = checkers(c, p, ev)
    for nm, (n, own, mn_, mx) in chk.items():
        c.ob("checkers of assembler instructions", n.loc())
        if nm not in names:
            c.violate("checker %s" % nm, n.loc(), "checker registered for unknown instruction %s" % nm)
            continue
        if own is not None and own != nm:
            c.violate("checker %s" % nm, n.loc(), "the checker registered for %s reports errors of %s" % (nm, own))
        if mn_ is not None and (mn_, mx) != (names[nm][0], names[nm][1]):
            c.violate("operands of %s" % nm, n.loc(), "%s: checker accepts %s to %s operands, the instruction table says %s to %s" % (nm, mn_, mx, names[nm][0], names[nm][1]))
    vc, ca = table(c, ev, C + "instruction::ca_instructions")
    can = {}
    for r in rows(ca):
        c.ob("conditional-assembly instructions", r[0])
        if r[0] in can or r[0] in names or r[0] in mach or r[0] in mnem:
            c.violate("%s twice" % r[0], vc.loc(), "instruction %s is defined twice" % r[0])
        can[r[0]] = r[1]
    PR = "hlasm_plugin::parser_library::processing::"
    hasm = handlers(c, p, ev, PR + "asm_processor::create_table")
    hca = handlers(c, p, ev, PR + "ca_processor::create_table")
    for nm in names:
        if nm not in chk and nm not in hasm:
            c.violate("no checker for %s" % nm, va.loc(), "assembler instruction %s has neither a checker nor a handler: looking it up throws" % nm)
    for nm, n in hasm.items():
        if nm not in names:
            c.violate("handler %s" % nm, n.loc(), "handler registered for %s, which is not an assembler instruction" % nm)
    for nm in can:
        if nm not in hca:
            c.violate("no handler for %s" % nm, vc.loc(), "conditional-assembly instruction %s has no handler: looking it up throws" % nm)
    for nm, n in hca.items():
        if nm not in can:
            c.violate("handler %s" % nm, n.loc(), "handler registered for %s, which is not a conditional-assembly instruction" % nm)
    for nm, e in sorted(ref["assembler"].items()):
        c.ob("assembler instructions of the reference")
        if nm not in names:
            c.violate("instruction %s missing" % nm, va.loc(), "assembler instruction %s is not known" % nm)
        elif list(names[nm][:3]) != e:
            c.violate("definition of %s" % nm, va.loc(), "%s: (min, max, ordinary symbols) is %s, expected %s" % (nm, list(names[nm][:3]), e))
    for nm, e in sorted(ref["ca"].items()):
        c.ob("conditional-assembly instructions of the reference")
        if nm not in can:
            c.violate("instruction %s missing" % nm, vc.loc(), "conditional-assembly instruction %s is not known" % nm)
        elif can[nm] != e:
            c.violate("definition of %s" % nm, vc.loc(), "%s: operandless is %s, expected %s" % (nm, can[nm], e))
    c.need("checkers of assembler instructions", 35)
    c.assumption("ref/zarch.json lists what the z/Architecture and HLASM manuals define for the instructions known today; instructions added later are only held to the structural rules")
    return mach, mnem, names, can


def passing(c, p):
    """constructors of the entries keep what they are given: every member is built from the parameter of its own name or type."""
    for cls in ("machine_instruction", "mnemonic_code", "assembler_instruction"):
        for f in p.byq.get(C + cls + "::" + cls, []):
            c.seen(f)
            ps = f.params
            for m, b, node, w in f.inits:
                if m is None or node is None or not w:
                    continue
                used = [n.var for n in node.walk() if n.k == "ref" and n.var is not None and n.var.kind == "param"]
                c.ob("members of table entries", node.loc())
                same = [v for v in ps if v.t.s.replace("const ", "").rstrip(" &") == m.t.s.replace("const ", "").rstrip(" &")]
                named = [v for v in ps if v.q.split("::")[-1].rstrip("_") == m.q.split("::")[-1].rstrip("_")]
                calls = [n for n in node.walk() if n.is_call and n.callee is not None and n.callee.u in p.funcs]
                if calls:
                    continue
                if m.q.endswith("::size_for_alloc"):
                    c.violate("length of instructions", node.loc(), "the length of a machine instruction is not computed from its format")
                    continue
                want = named or (same if len(same) == 1 else None)
                if want and (len(used) != 1 or used[0] not in want):
                    c.violate("member %s of %s" % (m.q.split("::")[-1], cls), node.loc(), "%s keeps %s in member %s instead of parameter %s" % (
                        cls, [u.q for u in used] or "a constant", m.q.split("::")[-1], want[0].q))


def readings(tgt, nm):
    """conditions a branch mnemonic can be read as."""
    out = []
    for k in COND:
        for pat in {"BC": ["B%s"], "BCR": ["B%sR"], "BRC": ["J%s", "BR%s"], "BRCL": ["JL%s", "BR%sL"], "BIC": ["BI%s"]}[tgt]:
            if pat % k == nm:
                out.append(k)
    return out


def target(x):
    """name of the instruction looked up by an expression like &i.at("BC")."""
    if isinstance(x, Obj) and x.t.startswith("call ") and x.t.split("::")[-1].split("<")[0] in ("at", "find") and x.args and isinstance(x.args[-1], str):
        return x.args[-1]
    return None


def enumerators(p, q):
    e = p.enums.get(q)
    if e is None:
        raise AnalysisError("enumeration %s not found" % q)
    return dict(e[0])


def lengths(c, p, consts):
    """get_length_by_format: a decision list over the value of the format."""
    fs = p.byq.get(C + "machine_instruction::get_length_by_format")
    if not fs:
        raise AnalysisError("get_length_by_format not found")
    f = fs[0]
    c.seen(f)
    for nm, val in consts.items():
        if nm.startswith("length_") or nm not in FORMAT:
            continue
        try:
            got = fold(f, {f.params[0]: val})
        except NotConst:
            return  # not a pure choice by value: not decided here
        c.ob("lengths of formats")
        if got != FORMAT[nm][0]:
            c.violate("length of format %s" % nm, f.loc(), "instructions of format %s are %s bits long, the architecture has %d" % (nm, got, FORMAT[nm][0]))


class NotConst(Exception):
    pass


class Ret(Exception):
    pass


def fold(f, env):
    """the constant a function without loops and calls returns for a constant argument."""
    def ex(n):
        n = strip(n)
        if n is None:
            raise NotConst
        if n.k in ("icast", "cast", "paren"):
            return ex(n.ch[0])
        if n.k == "ref":
            if n.var in env:
                return env[n.var]
            if n.var is not None and n.var.kind == "enum":
                return n.v
        if n.k in ("int", "bool") or (n.v is not None and n.k != "ref"):
            return n.v
        if n.k == "cond":
            return ex(n.ch[1]) if ex(n.ch[0]) else ex(n.ch[2])
        if n.k == "bin":
            a = ex(n.ch[0])
            if n.op == "&&":
                return bool(a) and bool(ex(n.ch[1]))
            if n.op == "||":
                return bool(a) or bool(ex(n.ch[1]))
            b = ex(n.ch[1])
            ops = {">=": a >= b, ">": a > b, "<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, "+": a + b, "-": a - b, "*": a * b}
            if n.op in ops:
                return ops[n.op]
        if n.k == "un" and n.op == "!":
            return not ex(n.ch[0])
        raise NotConst

    def st(n):
        if n is None:
            return
        if n.k == "block":
            for x in n.ch:
                st(x)
        elif n.k == "decl":
            for ds, ini in zip(n.a["ds"], n.ch):
                env[f.unit.vd[ds["d"]]] = ex(ini)
        elif n.k == "return":
            r = Ret()
            r.v = ex(n.ch[0])
            raise r
        elif n.k == "if":
            ch = list(n.ch)
            parts = [x for x in ch if x is not None]
            k = next(i for i, x in enumerate(parts) if strip(x).t.s == "bool")
            for x in parts[:k]:
                st(x)
            rest = parts[k + 1:]
            if ex(parts[k]):
                st(rest[0])
            elif len(rest) > 1:
                st(rest[1])
        elif n.k in ("nil", "null"):
            return
        elif n.k == "assign" and strip(n.ch[0]).k == "ref":
            env[strip(n.ch[0]).var] = ex(n.ch[1])
        else:
            raise NotConst
    env = dict(env)
    try:
        st(f.body)
    except Ret as r:
        return r.v
    except StopIteration:
        raise NotConst
    raise NotConst


def handlers(c, p, ev, q):
    fs = p.byq.get(q)
    if not fs:
        raise AnalysisError("%s not found" % q)
    out = {}
    for f in reach(p, fs[0]):
        if f.q != q and not f.q.startswith(q):
            continue
        c.seen(f)
        for n in f.nodes:
            if n.k == "mcall" and n.callee is not None and n.callee.name == "add" and n.args:
                s = ev.ev(n.args[0])
                if isinstance(s, str):
                    c.ob("instruction handlers", n.loc())
                    out[s] = n
    if len(out) < 10:
        raise AnalysisError("only %d handlers found in %s" % (len(out), q))
    return out


def checkers(c, p, ev):
    """instruction -> (node, name the checker was given, min, max)."""
    AC = "hlasm_plugin::parser_library::checking::"
    q = AC + "assembler_checker::initialize_assembler_map"
    fs = p.byq.get(q)
    if not fs:
        raise AnalysisError("%s not found" % q)
    out = {}
    for f in reach(p, fs[0]):
        if f.cls and not f.cls.endswith("assembler_checker") and f is not fs[0]:
            continue
        c.seen(f)
        for n in f.nodes:
            if not n.is_call or n.callee is None or not (n.callee.name.startswith("make_unique") or n.callee.name.startswith("make_shared")):
                continue
            m = re.search(r"unique_ptr<(.*?)(?:, .*)?>$|shared_ptr<(.*)>$", n.t.s.replace("const ", ""))
            cls = (m.group(1) or m.group(2)) if m else None
            own = [x for x in (ev.ev(a) for a in n.args) if isinstance(x, str)]
            key = None
            for u in n.up():
                if u.is_call or u.k == "ilist":
                    xs = [ev.ev(a) for a in u.ch if a is not None and not any(y is n for y in a.walk())]
                    ks = [x for x in xs if isinstance(x, str)]
                    if ks:
                        key = ks[0]
                        break
                if u.k in ("block", "decl"):
                    break
            if key is None:
                continue
            mn_, mx = limits(p, ev, cls)
            out[key] = (n, own[0] if own else None, mn_, mx)
    return out


def limits(p, ev, cls, d=0):
    """numbers of operands a checker class passes to its base, when they are constants."""
    if cls is None or d > 4:
        return None, None
    nm = cls.split("::")[-1]
    for f in p.byq.get(cls + "::" + nm, []):
        for m, b, node, w in f.inits:
            if b is None or node is None:
                continue
            ints = []
            for a in node.args if node.is_call else node.ch:
                v = ev.ev(a)
                if isinstance(v, int) and not isinstance(v, bool):
                    ints.append(v)
            if len(ints) >= 2:
                return ints[0], ints[1]
            if b.rec and b.rec != cls:
                r = limits(p, ev, b.rec, d + 1)
                if r[0] is not None:
                    return r
    return None, None
