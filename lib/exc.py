"""May-throw escape analysis: which exceptions can leave a function, from which origin, given the handlers on the way.

Origins: throw expressions of the repository and calls of library functions that report errors by exceptions (table below).
Exhaustion of memory and system resources is not modelled."""
from collections import defaultdict
from prog import strip, strip_all
import re

# exception hierarchy (only what matters for matching handlers)
SUPER = {
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::system_error": "std::runtime_error",
    "std::filesystem::filesystem_error": "std::system_error", "std::regex_error": "std::runtime_error",
    "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception", "std::bad_any_cast": "std::exception",
    "std::bad_function_call": "std::exception", "std::bad_cast": "std::exception",
    "nlohmann::exception": "std::exception", "std::exception": None,
    "nlohmann::parse_error": "nlohmann::exception", "nlohmann::type_error": "nlohmann::exception",
    "nlohmann::out_of_range": "nlohmann::exception", "nlohmann::invalid_iterator": "nlohmann::exception",
    "nlohmann::other_error": "nlohmann::exception",
}


def norm_type(s):
    s = s.replace("const ", "").replace("volatile ", "").strip().rstrip("&* ").strip()
    s = re.sub(r"__cxx11::", "", s)
    if "nlohmann" in s or s.startswith(("json::", "basic_json")):
        t = "nlohmann::" + s.rsplit("::", 1)[-1]
        return t if t in SUPER else "nlohmann::exception"
    if s.startswith("std::filesystem::"):
        return "std::filesystem::filesystem_error"
    return s


def is_a(t, h):
    while t is not None:
        if t == h:
            return True
        if t not in SUPER:
            # unknown class: antlr exceptions derive from std::exception
            t = "std::exception" if t.startswith("antlr4::") and h == "std::exception" else None
            if t == h:
                return True
            return False
        t = SUPER[t]
    return False


STOX = {"std::stoi", "std::stol", "std::stoll", "std::stoul", "std::stoull", "std::stod", "std::stof", "std::stold"}
FS_THROW = {"exists", "is_directory", "is_regular_file", "file_size", "canonical", "weakly_canonical", "absolute", "relative", "proximate",
            "current_path", "status", "symlink_status", "equivalent", "last_write_time", "temp_directory_path", "create_directory",
            "create_directories", "remove", "remove_all", "rename", "copy", "copy_file", "read_symlink", "is_empty", "space", "resize_file"}


def file_sized(n, d=0):
    """the number comes from the size of a file, which is meaningless for what is not a regular file"""
    from prov import defs
    if n is None or d > 4:
        return False
    for x in n.walk():
        if x.is_call and x.callee is not None and x.callee.name.split("<")[0] in ("tellg", "file_size", "tellp", "pubseekoff"):
            return True
        if x.k == "ref" and x.var is not None and x.var.kind == "local" and any(file_sized(y, d + 1) for y in defs(x.fn).get(x.var, ())):
            return True
    return False


def library(n):
    """exceptions a library call may throw"""
    d = n.callee
    if d is None:
        return ()
    q, nm = d.q, d.name
    if q in STOX or (q.startswith("std::") and nm in ("stoi", "stol", "stoll", "stoul", "stoull", "stod", "stof")):
        return ("std::invalid_argument", "std::out_of_range")
    if q.startswith("nlohmann::"):
        base = nm.split("<")[0]
        if not q.startswith("nlohmann::basic_json") and base not in ("from_json", "parse"):
            return ()
        a = [x for x in n.args if x is not None and x.k != "defarg"]
        if base == "parse" and len(a) >= 3 and strip(a[2]).v == 0:
            return ()
        if base == "dump" and len(a) >= 4 and strip_all(a[3]).var is not None and not strip_all(a[3]).var.q.endswith("::strict"):
            return ()
        if base in ("at", "get", "get_to", "get_ref", "parse", "dump", "push_back", "emplace_back", "update", "merge_patch",
                    "emplace", "erase", "insert", "items", "from_json", "value") or (
                nm.startswith("operator[]") or (n.k == "ocall" and n.op in ("[]", ">>"))):
            return {"parse": ("nlohmann::parse_error",), "dump": ("nlohmann::type_error",),
                    "push_back": ("nlohmann::type_error",), "emplace_back": ("nlohmann::type_error",)}.get(
                        base, ("nlohmann::type_error", "nlohmann::out_of_range"))
        if nm.startswith("operator ") and n.k == "mcall":
            return ("nlohmann::type_error",)
        return ()
    if q.startswith("std::filesystem::"):
        if nm in FS_THROW and q.count("::") == 2:
            if not any("error_code" in p.s for p in d.p):
                return ("std::filesystem::filesystem_error",)
        if nm in ("directory_iterator", "recursive_directory_iterator") and not any("error_code" in p.s for p in d.p) and \
                any("path" in p.s for p in d.p):
            return ("std::filesystem::filesystem_error",)
        if "directory_entry::" in q and not any("error_code" in p.s for p in d.p) and (
                nm in FS_THROW or nm in ("refresh", "assign", "hard_link_count") or
                (nm == "directory_entry" and d.p and "path" in d.p[0].s)):
            return ("std::filesystem::filesystem_error",)
        return ()
    if q.startswith("std::"):
        base = nm.split("<")[0]
        if base == "at" and n.k == "mcall":
            return ("std::out_of_range",)
        if base in ("resize", "reserve", "assign") and n.k == "mcall" and len(n.ch) > 1 and file_sized(n.ch[1]):
            return ("std::length_error",)
        if base == "value" and "std::optional<" in q:
            return ("std::bad_optional_access",)
        if base == "substr" and "basic_string" in q:
            a = n.args
            if a and strip(a[0]) is not None and strip(a[0]).v == 0:
                return ()
            return ("std::out_of_range",)
        if base in ("erase", "insert", "replace", "compare", "append", "assign", "copy") and "basic_string" in q and n.args and n.args[0] is not None:
            return ()
        if base == "get" and d.p and "std::variant<" in d.p[0].s:
            return ("std::bad_variant_access",)
        if base == "visit":
            return ()
        if "basic_regex<" in q and base in ("basic_regex", "assign"):
            return ("std::regex_error",)
        if base == "any_cast" and "*" not in d.r.s:
            return ("std::bad_any_cast",)
    return ()


def try_handlers(n):
    """handlers of the enclosing try blocks (innermost first): list of lists of (type or None for catch-all, catch node)"""
    out = []
    child = n
    for u in n.up():
        if u.k == "try" and u.ch and u.ch[0] is not None and child is u.ch[0]:
            hs = []
            for c in u.ch[1:]:
                if c is not None and c.k == "catch":
                    d = c.a.get("d")
                    if d is None and not c.t.s:
                        hs.append((None, c))
                    else:
                        ty = c.fn.unit.vd[d].t.s if d is not None else c.t.s
                        hs.append((norm_type(ty), c))
            out.append((u, hs))
        child = u
    return out


def caught(n, t):
    """does a handler around n (in its function) take an exception of type t?  returns the try node or None"""
    for u, hs in try_handlers(n):
        for ht, c in hs:
            if ht is None or is_a(t, ht):
                # a handler that rethrows lets it pass
                if any(x.k == "throw" and not x.ch for x in c.walk()):
                    continue
                return u
    return None


IS = {"string": ("is_string",), "bool": ("is_boolean",), "int": ("is_number", "is_number_integer", "is_number_unsigned"),
      "vector": ("is_array",), "map": ("is_object",)}


def guarded(n, memo={}):
    """a test that dominates n excludes the error: is_xxx() before get<xxx>(), has_value() before value(),
    contains() before at(), holds_alternative before get"""
    from flow import MustFacts, canon
    d = n.callee
    if d is None or n.k not in ("mcall", "call", "ocall"):
        return False
    nm = d.name.split("<")[0]
    if nm not in ("get", "value", "at", "get_ref") and not (n.k == "mcall" and d.name.startswith("operator ")):
        return False
    o = n.ch[0] if n.ch else None
    c = canon(o) if o is not None else None
    if c is None:
        return False
    key = (id(n.fn))
    if key not in memo:
        memo[key] = (MustFacts(n.fn), n.fn)
    facts = memo[key][0].at.get(n.id)
    if facts is None:
        return False
    if nm == "value" and "optional<" in d.q:
        return facts.get("T:" + c) is True
    if d.q.startswith("nlohmann::") and nm in ("get", "get_ref") or d.name.startswith("operator "):
        return any(k.startswith("T:" + c + ".is_") and v for k, v in facts.items())
    if nm == "at" and len(n.ch) == 2:
        k = canon(n.ch[1])
        if k:
            for fk, v in facts.items():
                if v and (fk == "T:%s.contains(%s)" % (c, k) or fk == "T:%s.count(%s)" % (c, k)):
                    return True
                if not v and fk.startswith("Q:") and "%s.find(%s)" % (c, k) in fk and ".end()" in fk:
                    return True
                if v and fk == "L:%s<%s.size()" % (k, c):
                    return True
    if nm == "get" and "std::variant<" in (d.p[0].s if d.p else ""):
        return any("holds_alternative" in fk and c in fk and v for fk, v in facts.items())
    return False


class Escapes:
    """esc[usr] = {(type, origin usr, origin node id): (node, next Func or None)}"""

    def __init__(self, p, lib=library, want=None, edge=None, extra=None):
        self.p = p
        self.esc = defaultdict(dict)
        rev = defaultdict(list)
        work = set()
        for u, f in p.funcs.items():
            for n in f.nodes:
                ts = ()
                if n.k == "throw" and n.ch and n.ch[0] is not None:
                    ts = (norm_type(strip(n.ch[0]).t.s or n.ch[0].t.s),)
                elif n.is_call:
                    if not p.targets(n):
                        ts = lib(n)
                for t in ts:
                    if want is not None and not want(t, n):
                        continue
                    if caught(n, t) is None and not (n.k != "throw" and guarded(n)):
                        self.esc[u][(t, u, n.id)] = (n, None)
                        work.add(u)
            for n, t in list(p.callgraph().get(u, ())) + (extra(f) if extra else []):
                if n.is_call:
                    if edge is not None and not edge(n, t):
                        continue
                    rev[t.usr].append((f, n))
                else:
                    # lambda: executed where it is created unless handed to a thread
                    if edge is not None and not edge(n, t):
                        continue
                    rev[t.usr].append((f, n))
        work = list(work)
        inw = set(work)
        while work:
            u = work.pop()
            inw.discard(u)
            f = p.funcs[u]
            if f.decl is not None and "N" in f.decl.fl and False:
                continue
            for g, n in rev.get(u, ()):
                ch = False
                for key in list(self.esc[u]):
                    if key in self.esc[g.usr]:
                        continue
                    if caught(n, key[0]) is None:
                        self.esc[g.usr][key] = (n, f)
                        ch = True
                if ch and g.usr not in inw:
                    inw.add(g.usr)
                    work.append(g.usr)

    def chain(self, f, key):
        out = []
        u = f.usr
        while True:
            n, t = self.esc[u][key]
            out.append("%s (%s)" % ("::".join(self.p.funcs[u].q.split("::")[-2:]), n.loc()))
            if t is None or len(out) > 20:
                return " -> ".join(out)
            u = t.usr
