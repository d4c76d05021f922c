"""Reads the ANTLR grammar of the parser (*.g4) and follows the values its actions pass on.

A rule of an ANTLR grammar catches the syntax errors of its own body: after an error the rest of the
alternative, with its actions, is skipped, the rule returns to its caller, and the caller goes on with whatever
the return values held.  `analyse` computes, for each returned value of each rule, why it may be missing:
  kind "ptr"  an owning pointer that may be null, or a container that may hold such a pointer
  kind "id"   an identifier that an alternative leaves unset on normal completion
A syntax error can occur at a decision (several alternatives, ? * +), at a token and at a predicate, and nowhere
else.  A `finally` clause runs on every exit, except that ANTLR drops it from a left-recursive rule."""
import os, re, glob


class Rule:
    def __init__(s, name, file, line):
        s.name, s.file, s.line = name, file, line
        s.returns = {}      # attr -> (type, default text)
        s.alts = []         # list of list of elements
        s.final = None      # (text, line)
        s.lr = False

class El:
    __slots__ = ("kind", "name", "label", "suffix", "alts", "text", "line", "multi")
    def __init__(s, kind, line, name=None, text=None, alts=None):
        s.kind, s.line, s.name, s.text, s.alts = kind, line, name, text, alts
        s.label = None; s.suffix = ""; s.multi = False


class Lex:
    def __init__(s, text):
        s.t, s.i, s.line = text, 0, 1
    def adv(s, n):
        s.line += s.t.count("\n", s.i, s.i + n); s.i += n
    def ws(s):
        while s.i < len(s.t):
            if s.t[s.i].isspace(): s.adv(1)
            elif s.t.startswith("//", s.i):
                j = s.t.find("\n", s.i); s.adv((j if j >= 0 else len(s.t)) - s.i)
            elif s.t.startswith("/*", s.i):
                j = s.t.find("*/", s.i); s.adv((j + 2 if j >= 0 else len(s.t)) - s.i)
            else: return
    def peek(s): s.ws(); return s.t[s.i] if s.i < len(s.t) else ""
    def take(s, c):
        s.ws()
        if s.t.startswith(c, s.i): s.adv(len(c)); return True
        return False
    def word(s):
        s.ws(); m = re.compile(r"[A-Za-z_]\w*").match(s.t, s.i)
        if not m: return None
        s.adv(m.end() - s.i); return m.group()
    def peekword(s):
        s.ws(); m = re.compile(r"[A-Za-z_]\w*").match(s.t, s.i)
        return m.group() if m else None
    def block(s, o, c):
        """text between the brackets that start here"""
        s.ws(); assert s.t[s.i] == o
        d, j, st = 0, s.i, None
        while j < len(s.t):
            ch = s.t[j]
            if st:
                if ch == "\\": j += 1
                elif ch == st: st = None
            elif ch == '"' or (ch == "'" and re.match(r"'(\\.|[^'\\\n])'", s.t[j:j + 4])): st = ch
            elif s.t.startswith("//", j):
                j = s.t.find("\n", j); j = len(s.t) - 1 if j < 0 else j
            elif s.t.startswith("/*", j):
                j = s.t.find("*/", j) + 1
            elif ch == o: d += 1
            elif ch == c:
                d -= 1
                if d == 0: break
            j += 1
        r = s.t[s.i + 1:j]; s.adv(j + 1 - s.i); return r


class Bad(Exception): pass


def split_top(t, sep=","):
    out, d, cur, st = [], 0, "", None
    i = 0
    while i < len(t):
        ch = t[i]
        if st:
            cur += ch
            if ch == "\\": i += 1; cur += t[i:i + 1]
            elif ch == st: st = None
        elif ch in "\"'": st = ch; cur += ch
        elif ch in "([{<" and not (ch == "<" and (t[i + 1:i + 2] in "<= " or t[i - 1:i] == " ")): d += 1; cur += ch
        elif ch in ")]}>" and not (ch == ">" and (t[i - 1:i] in "-> " or t[i + 1:i + 2] == "=")): d -= 1; cur += ch
        elif t.startswith(sep, i) and d == 0: out.append(cur); cur = ""; i += len(sep) - 1
        else: cur += ch
        i += 1
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def parse(path, rel):
    lx = Lex(open(path, encoding="utf8", errors="replace").read())
    rules = []
    while lx.peek():
        if lx.take("@"):
            while lx.peek() not in ("{", ""): lx.adv(1)
            lx.block("{", "}"); continue
        ln0 = (lx.ws(), lx.line)[1]
        w = lx.word()
        if w is None: raise Bad("%s:%d: not a rule" % (rel, lx.line))
        if w in ("parser", "lexer", "grammar", "import"):
            while not lx.take(";"): lx.adv(1)
            continue
        if w in ("options", "tokens", "channels") and lx.peek() == "{":
            lx.block("{", "}"); continue
        if w in ("fragment", "protected", "public", "private"): w = lx.word()
        if w == "finally": raise Bad("%s:%d: finally without a rule" % (rel, lx.line))
        r = Rule(w, rel, ln0)
        if lx.peek() == "[": lx.block("[", "]")
        while True:
            k = lx.peekword()
            if k == "returns" or k == "locals":
                lx.word()
                for d in split_top(lx.block("[", "]")):
                    m = re.match(r"(.*?)([A-Za-z_]\w*)\s*(?:=(.*))?$", d, re.S)
                    if k == "returns": r.returns[m.group(2)] = (re.sub(r"\s+", "", m.group(1)), (m.group(3) or "").strip())
            elif k == "options": lx.word(); lx.block("{", "}")
            elif lx.peek() == "@":
                lx.adv(1); lx.word(); r.alts_init = lx.block("{", "}")
            else: break
        if not lx.take(":"): raise Bad("%s:%d: rule %s has no ':'" % (rel, lx.line, w))
        r.alts = alts(lx, rel, ";")
        if not lx.take(";"): raise Bad("%s:%d: rule %s has no ';'" % (rel, lx.line, w))
        while lx.peekword() in ("catch", "finally"):
            if lx.word() == "catch": lx.block("[", "]"); lx.block("{", "}")
            else: ln = (lx.ws(), lx.line)[1]; r.final = (lx.block("{", "}"), ln)
        r.lr = any(a and first(a) == w for a in r.alts)
        rules.append(r)
    return rules

def first(alt):
    for e in alt:
        if e.kind in ("action",): continue
        return e.name if e.kind == "ref" and not e.suffix else None
    return None

def alts(lx, rel, end):
    out, cur = [], []
    while True:
        p = lx.peek()
        if p == "": raise Bad("%s: unfinished rule" % rel)
        if p == end: out.append(cur); return out
        if p == "|": lx.adv(1); out.append(cur); cur = []; continue
        if p == "#": lx.adv(1); lx.word(); continue
        if p == "<": lx.block("<", ">"); continue
        ln = lx.line
        if p == "{":
            t = lx.block("{", "}")
            if lx.peek() == "?": lx.adv(1); cur.append(El("pred", ln, text=t))
            else: cur.append(El("action", ln, text=t))
            continue
        neg = lx.take("~")
        if lx.peek() == "(":
            lx.adv(1); a = alts(lx, rel, ")"); lx.take(")")
            e = El("group", ln, alts=a)
            if neg or (all(len(x) == 1 and x[0].kind == "tok" and not x[0].suffix for x in a)): e = El("tok", ln, name="(set)")
            if neg: e = El("tok", ln, name="(set)")
        elif lx.peek() == "'":
            m = re.compile(r"'(\\.|[^'\\])*'").match(lx.t, lx.i); lx.adv(m.end() - lx.i); e = El("tok", ln, name=m.group())
        elif lx.peek() == ".": lx.adv(1); e = El("tok", ln, name=".")
        else:
            w = lx.word()
            if w is None: raise Bad("%s:%d: not understood: %r" % (rel, lx.line, lx.t[lx.i:lx.i + 20]))
            lab = None; multi = False
            if lx.peek() == "=" or lx.t.startswith("+=", lx.i):
                multi = lx.take("+="); lx.take("="); lab = w
                lx.take("~")
                if lx.peek() == "(":
                    lx.adv(1); alts(lx, rel, ")"); lx.take(")"); w = "(SET)"
                elif lx.peek() == "'":
                    m = re.compile(r"'(\\.|[^'\\])*'").match(lx.t, lx.i); lx.adv(m.end() - lx.i); w = "(SET)"
                else: w = lx.word()
            if lx.peek() == "[": lx.block("[", "]")
            e = El("tok" if (w[0].isupper() or w[0] == "(") else "ref", ln, name=w); e.label = lab; e.multi = multi
        while lx.peek() in "?*+" and lx.peek() and not lx.t.startswith("+=", lx.i): e.suffix += lx.peek(); lx.adv(1)
        cur.append(e)


# ---------------------------------------------------------------------------- actions

TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\$?[A-Za-z_]\w*|\d+\w*|::|->|<<|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|.', re.S)

def toks(text):
    return [(m.group(), text.count("\n", 0, m.start())) for m in TOK.finditer(text) if not m.group().isspace() and not m.group().startswith(("//", "/*"))]


class Stmt:
    __slots__ = ("kind", "toks", "body", "els", "line")

def match_close(t, i, o="(", c=")"):
    d = 0
    while i < len(t):
        if t[i][0] == o: d += 1
        elif t[i][0] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise Bad("unbalanced action")

def stmts(t):
    out, i = [], 0
    while i < len(t):
        s, i = stmt(t, i)
        if s: out.append(s)
    return out

def stmt(t, i):
    s = Stmt(); s.line = t[i][1]; s.body = s.els = None
    w = t[i][0]
    if w == ";": return None, i + 1
    if w == "{":
        j = match_close(t, i, "{", "}"); s.kind = "block"; s.toks = []; s.body = stmts(t[i + 1:j]); return s, j + 1
    if w in ("if", "while", "switch"):
        k = i + 1
        if t[k][0] == "constexpr": k += 1
        j = match_close(t, k); s.kind = "if" if w == "if" else "loop"; s.toks = [x[0] for x in t[k + 1:j]]
        b, i = stmt(t, j + 1); s.body = [b] if b else []
        if s.kind == "if" and i < len(t) and t[i][0] == "else":
            b, i = stmt(t, i + 1); s.els = [b] if b else []
        return s, i
    if w == "for":
        j = match_close(t, i + 1); s.kind = "for"; s.toks = [x[0] for x in t[i + 2:j]]
        b, i = stmt(t, j + 1); s.body = [b] if b else []; return s, i
    if w in ("case", "default"):
        while i < len(t) and t[i][0] != ":": i += 1
        return None, i + 1
    j, d = i, 0
    while j < len(t) and not (t[j][0] == ";" and d == 0):
        if t[j][0] in "([{": d += 1
        elif t[j][0] in ")]}": d -= 1
        j += 1
    s.kind = "expr"; s.toks = [x[0] for x in t[i:j]]
    return s, j + 1


# ---------------------------------------------------------------------------- values

PTR = re.compile(r"(_ptr$|^std::unique_ptr<|^std::shared_ptr<)")

def kind_of(t):
    if t == "operand_ptr": return "op"
    if PTR.search(t): return "ptr"
    if t in ("id_index", "context::id_index") or t.startswith("std::variant<") and "id_index" in t.split(",")[0]: return "id"
    return None

def is_ptr(t): return kind_of(t) in ("ptr", "op") and not t.startswith("std::variant")


class Env:
    __slots__ = ("v", "m")
    def __init__(s, v=None, m=None): s.v, s.m = dict(v or {}), set(m or ())
    def copy(s): return Env(s.v, s.m)
    def get(s, p):
        r = s.v.get(p)
        if r is None:
            q = p
            while "." in q:
                q = q.rsplit(".", 1)[0]
                if q in s.v: r = s.v[q]; break
        out = set(r or ())
        for k, x in s.v.items():
            if k.startswith(p + "."): out |= x
        return frozenset(out)
    def set(s, p, val):
        for k in [k for k in s.v if k.startswith(p + ".")]: del s.v[k]
        s.v[p] = frozenset(val)

def join(a, b):
    if a is None: return b.copy() if b else None
    if b is None: return a.copy()
    r = Env(m=a.m & b.m)
    for k in set(a.v) | set(b.v): r.v[k] = a.v.get(k, frozenset()) | b.v.get(k, frozenset())
    return r


# types whose constructor accepts a missing part at the given argument positions
TOLERANT = {
    "ca_function": {3}, "ca_string": {1, 2}, "expressions::ca_string": {1, 2}, "address_machine_operand": {1, 2},
}


class Analysis:
    def __init__(s, gdir, root):
        s.rules = {}
        s.files = []
        for f in sorted(glob.glob(os.path.join(gdir, "*.g4"))):
            rel = os.path.relpath(f, root)
            if re.search(r"^\s*lexer\s+grammar", open(f, errors="replace").read(), re.M): continue
            s.files.append(rel)
            for r in parse(f, rel): s.rules[r.name] = r
        s.wrap = set()          # constructors that replace a missing part (mach_expr_binary ...), set by the caller
        s.sum = {n: {a: frozenset() for a in r.returns} for n, r in s.rules.items()}
        s.report = None
        s.obs = {}

    def run(s):
        ch = True
        while ch:
            ch = False
            for r in s.rules.values():
                o = s.rule(r)
                for a in r.returns:
                    n = s.sum[r.name][a] | o["$" + a]
                    if n != s.sum[r.name][a]: s.sum[r.name][a] = n; ch = True
        s.report = {}
        s.obs = {}
        for r in s.rules.values(): s.rule(r)
        return s.report

    def initial(s, r, env=None):
        e = env or Env()
        for a, (t, d) in r.returns.items():
            k = kind_of(t)
            v = frozenset()
            if k and d in ("", "nullptr"): v = frozenset([(k, "%s (%s:%d)" % (r.name, r.file, r.line))])
            e.set("$" + a, v)
        return e

    def rule(s, r):
        s.r = r
        s.exc = None
        s.locals = {}
        def primary(alts_, env):
            if len(alts_) > 1: s.throw(env)
            out = None
            for a in alts_: out = join(out, s.seq(a, env.copy()))
            return out
        if r.lr:
            prim = [a for a in r.alts if first(a) != r.name]
            rec = [a for a in r.alts if first(a) == r.name]
            env = primary(prim, s.initial(r))
            for _ in range(4):
                s.throw(env)
                new = None
                for a in rec:
                    e = Env(m=set())
                    s.initial(r, e)
                    k = next(i for i, x in enumerate(a) if x.kind == "ref")
                    for at in r.returns:
                        val = env.get("$" + at)
                        for lab in (a[k].label, r.name):
                            if lab: e.set("$%s.%s" % (lab, at), val)
                    e.m |= {x for x in (a[k].label, r.name) if x}
                    new = join(new, s.seq(a[k + 1:], e))
                n2 = join(env, new)
                if env.v == n2.v: break
                env = n2
        else:
            env = primary(r.alts, s.initial(r))
        exc = s.exc
        if exc is not None:
            for k, x in list(exc.v.items()): exc.v[k] = frozenset(y for y in x if y[0] != "id")
        out = join(env, exc) or s.initial(r)
        if r.final and not r.lr:
            out = s.action(r.final[0], r.final[1], out)
        res = {}
        for a in r.returns: res["$" + a] = out.get("$" + a)
        return res

    def throw(s, env):
        if env is not None: s.exc = join(s.exc, env)

    def seq(s, els, env):
        for e in els:
            if env is None: return None
            env = s.el(e, env)
        return env

    def el(s, e, env):
        if e.kind == "action": return s.action(e.text, e.line, env)
        if e.kind == "pred": s.throw(env); return env
        if not e.suffix: return s.one(e, env)
        s.throw(env)
        if e.suffix[0] == "?":
            return join(env, s.one(e, env.copy()))
        out = s.one(e, env.copy()) if e.suffix[0] == "+" else env
        for _ in range(5):
            s.throw(out)
            n = join(out, s.one(e, out.copy()))
            if n.v == out.v and n.m == out.m: break
            out = n
        return out

    def one(s, e, env):
        if e.kind == "tok":
            s.throw(env)
            for x in (e.label, e.name):
                if x: env.m.add(x)
            return env
        if e.kind == "group":
            if len(e.alts) > 1: s.throw(env)
            out = None
            for a in e.alts: out = join(out, s.seq(a, env.copy()))
            return out
        for x in (e.label, e.name):
            if not x: continue
            env.m.add(x)
            for a, v in s.sum.get(e.name, {}).items(): env.set("$%s.%s" % (x, a), v)
            s.locals["$" + x] = e.name
        return env

    # ---- actions
    def ob(s, kind, line): s.obs.setdefault(kind, set()).add((s.r.file, line, s.r.name))

    def viol(s, line, key, msg):
        if s.report is not None: s.report[(s.r.file, s.r.name, key)] = (s.r.file, line, msg)

    def action(s, text, line, env):
        s.base = line
        s.alias = {}
        return s.block(stmts(toks(text)), env)

    def block(s, sts, env):
        for st in sts:
            s.ln = s.base + st.line
            if st.kind == "block": env = s.block(st.body, env)
            elif st.kind == "if":
                s.expr(st.toks, env)
                t, f = env.copy(), env.copy()
                s.refine(st.toks, t, True); s.refine(st.toks, f, False)
                t = s.block(st.body, t)
                f = s.block(st.els, f) if st.els else f
                env = join(t, f)
            elif st.kind == "loop":
                s.expr(st.toks, env)
                t = env.copy(); s.refine(st.toks, t, True)
                env = join(env, s.block(st.body, t))
            elif st.kind == "for":
                env = s.loop(st, env)
            else: s.stmt(st.toks, env)
        return env

    def loop(s, st, env):
        t = st.toks
        d = 0
        for i, x in enumerate(t):
            if x in "([{": d += 1
            elif x in ")]}": d -= 1
            elif x == ":" and d == 0:
                var = t[i - 1]; cont = s.place(t[i + 1:])
                e = env.copy()
                if cont:
                    s.alias[var] = cont
                    seq_ = cont
                    e = s.block(st.body, e)
                    # a cleaned element is a cleaned container: the loop visits them all
                    s.alias.pop(var, None)
                    r = join(env, e)
                    for k in e.v:
                        if k == seq_ or k.startswith(seq_ + "."): r.v[k] = e.v[k]
                    return r
                else:
                    rule = s.ctxlist(t[i + 1:])
                    if rule:
                        for a, v in s.sum.get(rule, {}).items(): e.set("%s.%s" % (var, a), v)
                    return join(env, s.block(st.body, e))
        e = s.block(st.body, env.copy())
        r = join(env, e)
        # for (i = 0; i < C.size(); ++i) clear(C[i])
        for k in e.v:
            if env.v.get(k) and not e.v[k] and any(x == "size" for x in t): r.v[k] = frozenset()
        return r

    def ctxlist(s, t):
        t = [x for x in t if x not in ("(", ")")]
        if len(t) >= 3 and t[0] == "$ctx" and t[1] == "->": return t[2]
        if len(t) == 1: return s.alias.get("@" + t[0])
        return None

    def place(s, t):
        """the place a token sequence names, or None"""
        while t and t[0] == "*": t = t[1:]
        while t and t[0] == "(" and match_idx(t, 0) == len(t) - 1: t = t[1:-1]
        while t and t[0] == "*": t = t[1:]
        if not t: return None
        h = t[0]
        if not re.match(r"\$?[A-Za-z_]\w*$", h): return None
        p, i = h, 1
        if h in s.alias and not h.startswith("$"): p = s.alias[h]
        while i < len(t):
            if t[i] in (".", "->") and i + 1 < len(t) and re.match(r"[A-Za-z_]\w*$", t[i + 1]):
                if i + 2 < len(t) and t[i + 2] == "(": return None
                p += "." + t[i + 1]; i += 2
            elif t[i] == "[":
                j = match_idx(t, i)
                i = j + 1
            else: return None
        return p

    def refine(s, t, env, truth):
        while t and t[0] == "(" and match_idx(t, 0) == len(t) - 1: t = t[1:-1]
        for op, tr in (("||", False), ("&&", True)):
            parts = split_toks(t, op)
            if len(parts) > 1:
                if truth == tr:
                    for x in parts: s.refine(x, env, truth)
                return
        if t and t[0] == "!": return s.refine(t[1:], env, not truth)
        if len(t) > 2 and t[-1] == "nullptr" and t[-2] in ("==", "!="):
            return s.refine(t[:-2], env, truth if t[-2] == "!=" else not truth)
        if len(t) > 4 and t[-4:] == [".", "has_value", "(", ")"]: t = t[:-4]
        if len(t) > 4 and t[-4:] == [".", "get", "(", ")"]: t = t[:-4]
        p = s.place(t)
        if p is None: return
        if truth:
            if p.endswith(".ctx"): env.m.add(p[1:-4])
            if re.match(r"\$\w+$", p) and p[1:] not in s.r.returns: env.m.add(p[1:])
            if not (s.type_of(p) or "").startswith("std::optional"): env.set(p, frozenset())
        else:
            ty = s.type_of(p)
            if ty and ty.startswith("std::optional"): env.set(p, frozenset())

    def type_of(s, p):
        if p.startswith("$"):
            x = p[1:].split(".")
            if x[0] in s.r.returns: return s.r.returns[x[0]][0] if len(x) == 1 else None
            if len(x) == 2:
                rn = s.locals.get("$" + x[0], x[0])
                if rn in s.rules and x[1] in s.rules[rn].returns: return s.rules[rn].returns[x[1]][0]
        return None

    def stmt(s, t, env):
        if not t: return
        # declaration:  T x = e;   auto& x = e;   T x(e);  T x;
        eq = next((i for i, x in enumerate(t) if x == "=" and depth0(t, i)), None)
        s.moved = []
        if eq is not None:
            lhs, rhs = t[:eq], t[eq + 1:]
            v = s.expr(rhs, env)
            s.expr(lhs, env)
            p = s.place(lhs)
            if p is None and len(lhs) >= 2 and re.match(r"[A-Za-z_]\w*$", lhs[-1]):
                if "&" in lhs[:-1] and s.place(rhs): s.alias[lhs[-1]] = s.place(rhs); return
                p = lhs[-1]
                s.alias.pop(p, None)
                rl = s.ctxlist(rhs)
                if rl: s.alias["@" + p] = rl
                tys = "".join(lhs[:-1])
                if rhs == ["nullptr"]: v = v | {("op" if tys == "operand_ptr" else "ptr", "nullptr in %s" % s.r.name)}
            s.domoves(env)
            if p is not None:
                if rhs == ["nullptr"] and kind_of(s.type_of(p) or ""):
                    v = v | {(kind_of(s.type_of(p)), "nullptr in %s (%s:%d)" % (s.r.name, s.r.file, s.ln))}
                env.set(p, v)
            return
        # plain declaration of a pointer
        if len(t) == 2 and re.match(r"[A-Za-z_]\w*$", t[1]) and is_ptr(t[0]):
            env.set(t[1], {(kind_of(t[0]), "%s (%s:%d)" % (s.r.name, s.r.file, s.ln))}); return
        s.expr(t, env)
        s.domoves(env)

    def domoves(s, env):
        for p in s.moved:
            ty = s.type_of(p)
            if ty and is_ptr(ty): env.set(p, {(kind_of(ty), "moved from in %s (%s:%d)" % (s.r.name, s.r.file, s.ln))})
        s.moved = []

    def expr(s, t, env):
        """evaluates t; reports the uses of missing parts in it"""
        while t and t[0] == "(" and match_idx(t, 0) == len(t) - 1: t = t[1:-1]
        if not t: return frozenset()
        if t == ["nullptr"] or t == ["std", "::", "nullopt"]: return frozenset()
        q = split_toks(t, "?")
        if len(q) == 2:
            ab = split_toks(q[1], ":")
            if len(ab) == 2:
                s.expr(q[0], env)
                a, b = env.copy(), env.copy()
                s.refine(q[0], a, True); s.refine(q[0], b, False)
                return s.expr(ab[0], a) | s.expr(ab[1], b)
        for op, tr in (("||", False), ("&&", True)):
            parts = split_toks(t, op)
            if len(parts) > 1:
                e = env.copy()
                for x in parts: s.expr(x, e); s.refine(x, e, tr)
                return frozenset()
        p = s.place(t)
        if p is not None:
            s.label_use(t, env)
            if t[0] == "*":
                v = env.get(p)
                ty = s.type_of(p) or ""
                if not ty.startswith("std::optional"):
                    s.deref(p, v, env)
                    return frozenset()
                return v
            return env.get(p)
        # method call on a place:  P.push_back(e) ...
        for i in range(len(t) - 1, 0, -1):
            if t[i] in (".", "->") and depth0(t, i) and i + 2 < len(t) and t[i + 2] == "(" and match_idx(t, i + 2) == len(t) - 1:
                recv, m, args = t[:i], t[i + 1], split_toks(t[i + 3:-1], ",")
                p = s.place(recv)
                if p is None:
                    if recv == ["collector"] or recv[-1:] == ["collector"]: break
                    r = s.expr(recv, env)
                    for a in args: r = r | s.expr(a, env)
                    return r if m in ("begin", "end", "value", "get") else frozenset()
                if p == "collector": break
                s.label_use(recv, env)
                vals = [s.expr(a, env) for a in args]
                if t[i] == "->" and p.startswith("$") and not p.endswith(".ctx"):
                    s.deref(p, env.get(p), env)
                if m in ("push_back", "emplace_back", "insert", "emplace"):
                    v = env.get(p)
                    for x in vals: v = v | x
                    ty = s.type_of(p)
                    env.set(p, v)
                elif m == "clear": env.set(p, frozenset())
                elif m in ("begin", "end", "value", "front", "back"): return env.get(p)
                return frozenset()
        # call:  name<..>(args)
        if t[-1] == ")":
            o = open_idx(t, len(t) - 1)
            name = t[:o]
            if name and depth_ok(name):
                args = split_toks(t[o + 1:-1], ",")
                return s.call("".join(name), args, env)
        # anything else: look at the parts
        out = frozenset()
        for op in ("+", "-", "==", "!=", "<", ">", "<<", "="):
            parts = split_toks(t, op)
            if len(parts) > 1:
                for x in parts: s.expr(x, env)
                return frozenset()
        if t[0] in ("return", "!", "*", "&"): 
            if len(t) > 1: return s.expr(t[1:], env)
        if t[-1] == "}":
            o = next((i for i, x in enumerate(t) if x == "{"), None)
            if o is not None:
                for a in split_toks(t[o + 1:-1], ","): out = out | s.expr(a, env)
                return out
        # T x(e)
        return frozenset()

    def label_use(s, t, env):
        """$x.attr and $x.ctx->... need the element x to have been matched"""
        while t and t[0] in ("*", "("): t = t[1:]
        h = t[0]
        if not h.startswith("$") or h in ("$ctx", "$parser", "$start", "$stop", "$text"): return
        n = h[1:]
        if n in s.r.returns: return
        deref = len(t) > 2 and (t[2] != "ctx" or len(t) > 3) or (len(t) > 1 and t[1] == "->")
        if deref:
            s.ob("elements of an alternative used", s.ln)
            if n not in env.m:
                s.viol(s.ln, "unmatched:" + n, "the action of rule %s uses $%s, which need not have been matched there" % (s.r.name, n))

    def deref(s, p, v, env):
        s.ob("values dereferenced", s.ln)
        bad = [x for x in v]
        if bad:
            s.viol(s.ln, "deref:" + p, "the action of rule %s dereferences %s, which may be missing: %s" % (s.r.name, p, why(bad)))

    def sink(s, what, arg, v, kinds=("ptr", "op", "id")):
        s.ob("parts handed over", s.ln)
        bad = sorted(x for x in v if x[0] in kinds)
        if bad:
            s.viol(s.ln, "%s:%s" % (what, "".join(arg)[:60]),
                   "rule %s hands %s to %s, which may be missing or hold a missing part: %s" % (s.r.name, "".join(arg), what, why(bad)))

    def call(s, name, args, env):
        m = re.match(r"(?:std::)?(make_unique|make_shared)<(.*)>$", name)
        if name in ("std::move", "move", "std::forward") and len(args) == 1:
            v = s.expr(args[0], env)
            p = s.place(args[0])
            if p: s.moved.append(p)
            return v
        if name.endswith("make_move_iterator") and len(args) == 1: return s.expr(args[0], env)
        g = re.match(r"std::get<(.*)>$", name)
        if g and args:
            v = s.expr(args[0], env)
            k = kind_of(g.group(1)) or "ptr"
            return frozenset(x for x in v if x[0] == k)
        if name.startswith("std::holds_alternative"): return frozenset()
        if name.endswith("clear_concat_chain") and args:
            p = s.place(args[0])
            if p: env.set(p, frozenset())
            s.ob("chains cleared", s.ln)
            return frozenset()
        if name.endswith("assign_expr") and args:
            s.expr(args[0], env); return frozenset()
        vals = [s.expr(a, env) for a in args]
        if m:
            T = m.group(2)
            short = re.sub(r"<.*", "", T)
            base = short.split("::")[-1]
            if base == "var_sym_conc": return vals[0] if vals else frozenset()
            for i, (a, v) in enumerate(zip(args, vals)):
                if i in TOLERANT.get(short, TOLERANT.get(base, ())): continue
                if base in s.wrap: 
                    s.ob("parts handed over to a constructor that fills in what is missing", s.ln); continue
                kinds = ("ptr", "op") if base.endswith("variable_symbol") else ("ptr", "op", "id")
                if not "".join(a).startswith(("provider", '"')): s.sink("the constructor of " + base, a, v, kinds)
            return frozenset()
        base = re.split(r"::|\.|->", name)[-1]
        if base == "resolve_expression":
            for a, v in zip(args[:1], vals): s.sink(base, a, v)
        elif base in ("set_label_field", "set_instruction_field"):
            for a, v in zip(args, vals): s.sink(base, a, v)
        elif base == "set_operand_remark_field":
            for a, v in zip(args, vals): s.sink(base, a, v, ("ptr",))
        elif base == "create" and "data_definition" in name:
            for i, (a, v) in enumerate(zip(args, vals)):
                if i != 3: s.sink("data_definition::create", a, v)
        else:
            # a conversion or a helper: what goes in comes out
            out = frozenset()
            if re.match(r"[A-Za-z_:]*(_ptr|_list|_chain)$", name):
                for v in vals: out = out | v
            return out
        return frozenset()


def why(bad):
    return "; ".join(sorted({"%s may leave it out" % x[1] if not x[1].startswith(("moved", "nullptr")) else x[1] for x in bad})[:4])

def match_idx(t, i):
    o = t[i]; c = {"(": ")", "[": "]", "{": "}"}[o]; d = 0
    for j in range(i, len(t)):
        if t[j] == o: d += 1
        elif t[j] == c:
            d -= 1
            if d == 0: return j
    return -1

def open_idx(t, j):
    d = 0
    for i in range(j, -1, -1):
        if t[i] in ")]}": d += 1
        elif t[i] in "([{":
            d -= 1
            if d == 0: return i
    return 0

def depth0(t, k):
    d = 0
    for x in t[:k]:
        if x in ("(", "[", "{"): d += 1
        elif x in (")", "]", "}"): d -= 1
    return d == 0

def depth_ok(name):
    """name is one (qualified, templated) identifier"""
    return re.match(r"[A-Za-z_$][\w:.<>,$\->*& ]*$", "".join(name)) is not None and "(" not in name

def split_toks(t, op):
    out, cur, d, a = [], [], 0, 0
    for i, x in enumerate(t):
        if x in ("(", "[", "{"): d += 1
        elif x in (")", "]", "}"): d -= 1
        elif x == "<" and d == 0 and op == ",": a += 1
        elif x == ">" and d == 0 and op == "," and a: a -= 1
        if x == op and d == 0 and (a == 0 or op != ","): out.append(cur); cur = []
        else: cur.append(x)
    out.append(cur)
    return [x for x in out if x] if len(out) > 1 or out[0] else []
