"""C03  fields of received JSON are never read without checking that they are there."""
from prog import strip, strip_all
from flow import MustFacts, canon, vname
from prov import defs


def is_json(t):
    return t is not None and "nlohmann::basic_json<" in t.s.split("iterator")[0] and not t.s.startswith("std::")


def present(f, facts, obj, key, isnum):
    o = canon(obj)
    if o is None:
        return False
    lit = None
    k = strip_all(key)
    if k is not None and k.k == "str":
        lit = "s%r" % k.s
    elif canon(key):
        lit = canon(key)
    for fk, v in facts.items():
        if lit is not None and ("%s.contains(%s)" % (o, lit) in fk or "%s.count(%s)" % (o, lit) in fk) and v:
            return True
        if fk.startswith("Q:") and not v and "%s.end()" % o in fk or "%s.cend()" % o in fk:
            if lit is not None and "%s.find(%s)" % (o, lit) in fk:
                return True
            for var, ds in defs(f).items():
                if vname(var) in fk and any(canon(d) == "%s.find(%s)" % (o, lit) for d in ds):
                    return True
        if isnum:
            if fk == "E:" + o and v is False and k is not None and k.v == 0:
                return True
            if fk.startswith("L:") and v and fk.endswith("<%s.size()" % o) and canon(key) and fk[2:].startswith(canon(key) + "<"):
                return True
            if fk.startswith("L:") and v and k is not None and k.v is not None and fk.endswith("<%s.size()" % o):
                try:
                    if int(fk[3:].split("<")[0]) >= k.v:
                        return True
                except ValueError:
                    pass
    return False


def check(c):
    p = c.p
    c.rule("every read of a member or element of a JSON value goes through a checked access (at, value, find tested against "
           "end, contains, iteration); the unchecked const operator[] is used only where a dominating test established that "
           "the key or index exists; front/back/iterators likewise only after a non-emptiness test")
    for f in p.src_funcs():
        sites = []
        for n in f.nodes:
            if n.k == "ocall" and n.op == "[]" and n.callee is not None and n.callee.q.startswith("nlohmann::basic_json") and len(n.ch) == 2:
                if "c" in n.callee.fl:
                    sites.append(n)
                else:
                    c.ob("inserting accesses (never undefined)", n.loc())
            elif n.k == "mcall" and n.callee is not None and n.callee.q.startswith("nlohmann::basic_json"):
                if n.callee.name in ("front", "back"):
                    sites.append(n)
                elif n.callee.name in ("at", "value", "find", "contains", "count"):
                    c.ob("checked accesses", n.loc())
        if not sites:
            continue
        c.seen(f)
        mf = MustFacts(f)
        for n in sites:
            c.ob("unchecked accesses examined", n.loc())
            facts = mf.at.get(n.id, {})
            if n.k == "ocall":
                num = "basic_string" not in n.callee.p[0].s and "char" not in n.callee.p[0].s and n.callee.p[0].w > 0 and \
                    strip_all(n.ch[1]).k != "str"
                ok = present(f, facts, n.ch[0], n.ch[1], num)
            else:
                o = canon(n.ch[0])
                ok = o is not None and facts.get("E:" + o) is False
            if not ok:
                k = strip_all(n.ch[1]) if len(n.ch) > 1 else None
                c.violate("%s:%s" % (f.q, k.s if k is not None and k.s is not None else n.callee.name), n.loc(),
                          "%s reads %s of a JSON value without checking that it exists (undefined behaviour when it is missing)" % (
                              f.q, repr(k.s) if k is not None and k.s is not None else "an element"))
    if sum(c.n.values()) < 20:
        c.need("checked accesses", 20)
