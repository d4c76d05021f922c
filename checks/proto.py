"""What the language server's protocol layer looks like: registered methods, response events, JSON pairs."""
from facts import AnalysisError
from prog import strip, strip_all
from prov import tags

NS = "hlasm_plugin::language_server::"

LSP_REQUESTS = {
    "initialize", "shutdown", "textDocument/definition", "textDocument/references", "textDocument/hover",
    "textDocument/completion", "textDocument/semanticTokens/full", "textDocument/semanticTokens/range",
    "textDocument/documentSymbol", "textDocument/documentHighlight", "textDocument/signatureHelp", "textDocument/rename",
    "textDocument/formatting", "textDocument/codeAction", "textDocument/codeLens", "textDocument/declaration",
    "textDocument/implementation", "textDocument/typeDefinition", "textDocument/foldingRange", "workspace/symbol",
    "workspace/executeCommand", "completionItem/resolve"}
LSP_NOTIFICATIONS = {
    "initialized", "exit", "textDocument/didOpen", "textDocument/didChange", "textDocument/didClose",
    "textDocument/didSave", "textDocument/willSave", "workspace/didChangeWorkspaceFolders",
    "workspace/didChangeWatchedFiles", "workspace/didChangeConfiguration", "$/cancelRequest", "$/setTrace"}


def is_json(t):
    return t is not None and t.s.startswith(("nlohmann::basic_json", "const nlohmann::basic_json"))


def handler_sig(d):
    return d is not None and len(d.p) == 2 and is_json(d.p[0]) and is_json(d.p[1]) and d.r.s == "void"


def registered(p):
    """[(method name, handler Func, is_dap, node)] for every (string literal, handler) pair that is put into a method map."""
    out = []
    for f in p.src_funcs():
        if "/language_server/" not in f.file:
            continue
        for n in f.nodes:
            if n.k in ("fref", "lambda") and handler_sig(n.callee) and n.callee.u in p.funcs:
                if n.parent is None:
                    continue
                name = None
                prev = n
                for a in n.up():
                    ss = [x for x in a.walk() if x.k == "str"]
                    if a.k == "block":
                        break
                    if ss:
                        before = [x for x in ss if x.id < n.id]
                        name = (before or ss)[-1].s if before else ss[0].s
                        break
                    prev = a
                if name is None or not name:
                    continue
                out.append((name, p.funcs[n.callee.u], "::dap::" in f.q, n))
    return out


def provider_methods(p):
    """usrs of respond / respond_error / notify / request (interface and implementations)."""
    r = p.rec(NS + "response_provider")
    res = {}
    for fd, ov, acc, imp in r.methods:
        if fd.name in ("respond", "respond_error", "notify", "request"):
            res[fd.name] = {fd.u} | set(p.overriders(fd.u))
    for k in ("respond", "respond_error", "notify"):
        if k not in res:
            raise AnalysisError("anchor not found: response_provider::%s" % k)
    return res


def json_pairs(f):
    """(key, value node, node) for { "key", value } initialisers and x["key"] = value stores."""
    out = []
    for n in f.nodes:
        if n.k == "ilist" and len(n.ch) == 2 and n.ch[0] is not None:
            k = strip_all(n.ch[0])
            while k is not None and k.k in ("ctor", "ilist") and k.ch:
                k = strip_all(k.ch[0])
            if k is not None and k.k == "str":
                out.append((k.s, n.ch[1], n))
        elif n.k == "ocall" and n.op == "=" and len(n.ch) == 2:
            l = strip(n.ch[0])
            if l is not None and l.k == "ocall" and l.op == "[]" and len(l.ch) == 2:
                k = strip_all(l.ch[1])
                if k is not None and k.k == "str":
                    out.append((k.s, n.ch[1], n))
        elif n.k == "mcall" and n.callee is not None and n.callee.name in ("emplace", "insert", "push_back") and \
                len(n.ch) == 3 and is_json(n.ch[0].t):
            k = strip_all(n.ch[1])
            if k is not None and k.k == "str":
                out.append((k.s, n.ch[2], n))
        elif n.k in ("ctor", "call") and len(n.ch) == 2 and n.ch[0] is not None and n.callee is not None and (
                "pair<" in n.callee.q or n.cq == "std::make_pair"):
            k = strip_all(n.ch[0])
            if k is not None and k.k == "str":
                out.append((k.s, n.ch[1], n))
    return out
