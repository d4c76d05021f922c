"""C05  the server changes nothing on the system: effects on files, processes and the network are confined."""
import re
from facts import AnalysisError
from prog import strip, strip_all
from prov import tags, defs

LS = "hlasm_plugin::language_server::"
# functions without a namespace (libc, POSIX) that change something outside the process
C_EFFECT = set("""fopen fopen64 freopen fdopen open open64 openat creat creat64 unlink unlinkat remove rename renameat link linkat symlink
symlinkat mkdir mkdirat rmdir mknod mkfifo chmod fchmod fchmodat chown fchown lchown truncate ftruncate truncate64 ftruncate64 utime utimes
utimensat futimens tmpfile tmpnam mkstemp mkdtemp mktemp mkostemp tempnam write pwrite writev sendfile copy_file_range system popen fork
vfork execl execlp execle execv execvp execve execvpe posix_spawn posix_spawnp clone kill raise killpg tgkill ptrace socket connect bind listen
accept accept4 send sendto sendmsg socketpair getaddrinfo gethostbyname setenv putenv unsetenv clearenv chdir fchdir chroot mount umount
setuid setgid seteuid setegid setpriority setrlimit umask exit _exit _Exit quick_exit abort signal sigaction alarm dlopen ioctl fcntl syscall
mmap shm_open shm_unlink mq_open sem_open fputs fwrite fprintf puts printf vprintf vfprintf putchar putc fputc perror nice daemon sync""".split())
STDOUT_LIKE = set("fputs fwrite fprintf puts printf vprintf vfprintf putchar putc fputc perror".split())
# the rest of std::filesystem does not write
FS_EFFECT = set("""copy copy_file copy_symlink create_directory create_directories create_directory_symlink create_hard_link create_symlink
current_path last_write_time permissions remove remove_all rename resize_file""".split())
STD_EFFECT = {"std::system", "std::remove", "std::rename", "std::tmpfile", "std::tmpnam", "std::exit", "std::abort", "std::_Exit",
              "std::quick_exit", "std::terminate", "std::raise", "std::signal", "std::fopen", "std::freopen"}
OUT_STREAM = re.compile(r"std::(basic_ofstream|basic_fstream|basic_filebuf)\b")


def base(q):
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def local_address(p, n, d=0, seen=None):
    """expression names the loopback interface only."""
    seen = seen if seen is not None else set()
    n = strip_all(n)
    if n is None or d > 8:
        return False
    if n.k == "str":
        return n.s.startswith("127.") or n.s in ("::1", "localhost")
    if n.is_call:
        nm = n.callee.name.split("<")[0] if n.callee else ""
        if nm == "loopback":
            return True
        if nm in ("from_string", "make_address", "make_address_v4", "make_address_v6", "address", "address_v4", "address_v6",
                  "basic_string", "basic_string_view", "move"):
            a = [c for c in n.ch if c is not None and c.k != "defarg"]
            return bool(a) and local_address(p, a[0], d + 1, seen)
        ts = p.targets(n)
        if ts:
            return all(rets(p, t, d, seen) for t in ts)
        return False
    if n.k == "ref" and n.var is not None:
        if n.var in seen:
            return False
        seen.add(n.var)
        f = n.fn
        while f is not None:
            ds = defs(f).get(n.var)
            if ds:
                return all(local_address(p, x, d + 1, set(seen)) for x in ds)
            f = p.funcs.get(f.parent) if f.parent else None
        g = p.var_by_decl(n.var)
        if g is not None and g.body is not None:
            return local_address(p, g.body, d + 1, seen)
        if n.var.kind == "param":
            return from_callers(p, n, lambda a: local_address(p, a, d + 1, seen))
        return False
    if n.k == "cond":
        return all(local_address(p, c, d + 1, seen) for c in n.ch[1:])
    return False


def rets(p, t, d, seen):
    rs = [n for n in t.nodes if n.k == "return" and n.ch and n.ch[0] is not None]
    return bool(rs) and all(local_address(p, r.ch[0], d + 1, seen) for r in rs)


def from_callers(p, n, pred):
    f = n.fn
    ps = f.params
    if n.var not in ps:
        return False
    i = ps.index(n.var)
    cs = [c for g, c in p.callers().get(f.usr, ()) if c.is_call]
    if not cs:
        return False
    for c in cs:
        a = c.args
        if i >= len(a) or not pred(a[i]):
            return False
    return True


def temp_path(p, n, d=0, seen=None):
    """the path is built from the system's directory for temporary files."""
    seen = seen if seen is not None else set()
    n = strip_all(n)
    if n is None or d > 8:
        return False
    if n.is_call:
        q = base(n.cq)
        if q == "std::filesystem::temp_directory_path":
            return True
        if n.callee is not None and (n.callee.name in ("operator/", "operator/=", "operator+", "concat", "append", "string", "lexically_normal") or n.k == "ctor"
                                     or q == "std::filesystem::absolute"):
            a = [c for c in n.ch if c is not None and c.k != "defarg"]
            return bool(a) and temp_path(p, a[0], d + 1, seen)
        ts = p.targets(n)
        if ts:
            ok = True
            for t in ts:
                rs = [x for x in t.nodes if x.k == "return" and x.ch and x.ch[0] is not None]
                # a helper hands out the temporary path, or an empty path on failure
                good = [r for r in rs if temp_path(p, r.ch[0], d + 1, seen)]
                rest = [r for r in rs if r not in good]
                ok = ok and bool(good) and all(empty(r.ch[0]) for r in rest)
            if ok:
                return True
            # join helpers: utils::path::join(temp, name)
            a = [c for c in n.args if c is not None and c.k != "defarg"]
            return bool(a) and base(n.cq).startswith("hlasm_plugin::utils::path::") and temp_path(p, a[0], d + 1, seen)
        return False
    if n.k == "bin" and n.op in ("/", "+"):
        return temp_path(p, n.ch[0], d + 1, seen)
    if n.k == "ref" and n.var is not None:
        if n.var in seen:
            return False
        seen.add(n.var)
        f = n.fn
        while f is not None:
            ds = defs(f).get(n.var)
            if ds:
                rs = [(temp_path(p, x, d + 1, set(seen)), x) for x in ds]
                return any(r for r, _ in rs) and all(r or empty(x) for r, x in rs)
            f = p.funcs.get(f.parent) if f.parent else None
        if n.var.kind == "param":
            return from_callers(p, n, lambda a: temp_path(p, a, d + 1, seen))
        return False
    return False


def empty(n):
    n = strip(n)
    if n is None:
        return True
    if n.k in ("null",):
        return True
    if n.k == "ref" and n.var is not None and n.var.q == "std::nullopt":
        return True
    if n.k in ("ctor", "ilist", "silist"):
        return all(empty(c) for c in n.ch if c is not None and c.k != "defarg")
    return n.k == "str" and n.s == ""


def check(c):
    p = c.p
    c.rule("who-may-call: no function calls a library or system function that creates, changes or removes files, starts or ends processes, "
           "changes the environment or opens network connections, except that a file opened for writing lies in the directory for temporary "
           "files (the log) and that a listening socket is bound to the loopback interface")
    ncalls = 0
    for f in p.funcs.values():
        for n in f.nodes:
            if n.k not in ("call", "mcall", "ocall", "ctor", "fref"):
                continue
            d = n.callee
            if d is None or d.u in p.funcs:
                continue
            ncalls += 1
            q = base(d.q)
            nm = d.name.split("<")[0]
            where = "%s in %s" % (q, f.q)
            if "::" not in q:
                c.ob("calls of C functions", n.loc())
                c.seen(f)
                if nm in STDOUT_LIKE:
                    # the protocol stream is C04's; a diagnostic on stderr is no effect on the system
                    continue
                if nm in C_EFFECT:
                    c.violate(where, n.loc(), "%s calls %s, which acts on the system" % (f.q, nm))
                continue
            if q in STD_EFFECT:
                if q == "std::remove" and n.ch and len([x for x in n.ch if x is not None]) == 3:
                    continue
                c.ob("calls of system functions", n.loc())
                c.violate(where, n.loc(), "%s calls %s" % (f.q, q))
            elif q.startswith("std::filesystem::") and q.count("::") == 2:
                c.ob("calls of std::filesystem functions", n.loc())
                c.seen(f)
                if nm in FS_EFFECT and not (nm == "current_path" and path_less(n)):
                    c.violate(where, n.loc(), "%s calls %s, which changes the file system" % (f.q, q))
            elif OUT_STREAM.match(d.q):
                opens = (n.k == "ctor" and [x for x in n.ch if x is not None and x.k != "defarg"] and not (set("KM") & set(d.fl))) or nm == "open"
                if not opens:
                    continue
                c.ob("files opened for writing", n.loc())
                c.seen(f)
                a = [x for x in n.args if x is not None and x.k != "defarg"]
                if not a or not temp_path(p, a[0]):
                    c.violate(where, n.loc(), "%s opens a file for writing that is not in the directory for temporary files" % f.q)
            elif q.startswith("asio::") and nm in ("basic_endpoint", "bind", "connect", "async_connect", "resolve", "async_resolve", "send_to"):
                if n.k == "ctor" and (set("KM") & set(d.fl) or not [x for x in n.ch if x is not None and x.k != "defarg"]):
                    continue
                c.ob("network end points", n.loc())
                c.seen(f)
                a = [x for x in n.args if x is not None and x.k != "defarg"]
                if nm in ("connect", "async_connect", "resolve", "async_resolve", "send_to"):
                    c.violate(where, n.loc(), "%s opens a connection to another host" % f.q)
                elif nm == "basic_endpoint" and not (a and local_address(p, a[0])):
                    c.violate(where, n.loc(), "%s uses a network end point that is not bound to the loopback interface" % f.q)
    c.ob("external calls classified", None, ncalls)
    c.need("external calls classified", 10000)
    c.need("calls of std::filesystem functions", 5)
    c.need("files opened for writing", 1)
    c.need("network end points", 1)


def path_less(n):
    """current_path() and current_path(ec) only read."""
    a = [x for x in n.args if x is not None and x.k != "defarg"]
    return not a or (len(a) == 1 and "error_code" in a[0].t.s)
