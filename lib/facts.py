"""Runs the extractor over every translation unit of /repo's current tree and keeps the per-unit results in a
content-addressed cache (a unit is re-extracted whenever any file it read changed)."""
import hashlib, json, os, subprocess, sys, glob, pickle, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HLASM_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
EXTRACT = os.path.join(CACHE, "extract")
LLVM = "/usr/lib/llvm-18"
DEPS = "/opt/vp/deps"
JAR = DEPS + "/antlr4cpp/tool/target/antlr4-4.7.2-complete.jar"


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def filehash(p, memo={}):
    try:
        st = os.stat(p)
    except OSError:
        return "absent"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(p, "rb") as f:
            memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]


def build_extractor():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    stamp = EXTRACT + ".stamp"
    h = filehash(src)
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(CACHE, exist_ok=True)
    tmp = EXTRACT + ".tmp%d" % os.getpid()
    cmd = [LLVM + "/bin/clang++", "-O1", "-fno-rtti", "-std=c++17", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-w", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = sh(cmd)
    if r.returncode:
        raise AnalysisError("extractor does not build:\n" + r.stdout[-3000:])
    os.replace(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(h)


def generated_parser():
    """The ANTLR output for the current grammar (regenerated when the grammar changes)."""
    gdir = os.path.join(REPO, "parser_library/src/parsing/grammar")
    files = sorted(glob.glob(gdir + "/*"))
    h = hashlib.sha1()
    for f in files:
        h.update(os.path.basename(f).encode())
        h.update(filehash(f).encode())
    out = os.path.join(CACHE, "gen", h.hexdigest()[:16])
    if not os.path.exists(os.path.join(out, "hlasmparser.cpp")):
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh(["java", "-jar", JAR, "-Dlanguage=Cpp", "-lib", gdir + "/", "-o", tmp, "-package",
                "hlasm_plugin::parser_library::parsing", "hlasmparser.g4"], cwd=gdir)
        if r.returncode or not os.path.exists(tmp + "/hlasmparser.cpp"):
            raise AnalysisError("grammar does not compile:\n" + r.stdout[-2000:])
        if os.path.exists(out):
            shutil.rmtree(out)
        os.replace(tmp, out)
    return out


def units():
    us = []
    for d in ("parser_library/src", "language_server/src", "utils/src"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith(".cpp") and not f.startswith("emscripten_"):
                    us.append(os.path.join(root, f))
    return sorted(us)


def flags(gen):
    return ["-DANTLR4CPP_STATIC=1", "-DPARSER_LIBRARY_STATIC_DEFINE=1", "-DNDEBUG",
            "-I" + REPO + "/language_server/src", "-I" + DEPS + "/asio/asio/include",
            "-I" + REPO + "/parser_library/include", "-I" + REPO + "/parser_library/src",
            "-I" + gen, "-I" + VERIF + "/stubs", "-I" + DEPS + "/antlr4cpp/runtime/Cpp/runtime/src",
            "-I" + REPO + "/utils/include", "-isystem", DEPS + "/json/include",
            "-isystem", "/usr/include/antlr4-runtime", "-std=c++17", "-w", "-pthread",
            "-include", DEPS + "/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h", "-ferror-limit=5"]


def _unit(u, gen, fl, basekey):
    tag = hashlib.sha1((basekey + u).encode()).hexdigest()[:16]
    idx = os.path.join(CACHE, "facts", tag + ".idx")
    # an index file lists earlier extractions of this unit: dependency hashes -> result
    entries = []
    if os.path.exists(idx):
        try:
            entries = json.load(open(idx))
        except Exception:
            entries = []
    for e in entries:
        if os.path.exists(e["out"]) and all(filehash(p) == h for p, h in e["deps"]):
            return u, e["out"], False
    out = os.path.join(CACHE, "facts", "%s.%d.json" % (tag, os.getpid()))
    extra = []
    pgm_conf = REPO + "/parser_library/src/config/pgm_conf.h"
    if u.endswith("/feature_workspace_folders.cpp") and os.path.exists(pgm_conf):
        # the installed nlohmann/json needs pgm_conf complete here (the build does the same for its tests)
        extra = ["-include", pgm_conf]
    r = sh([EXTRACT, out, REPO + "/:" + gen + "/", u, "--"] + fl + extra)
    if r.returncode or not os.path.exists(out):
        raise AnalysisError("cannot analyse %s:\n%s" % (u, r.stdout[-1500:]))
    d = json.load(open(out))
    if d["errors"]:
        raise AnalysisError("errors in %s:\n%s" % (u, r.stdout[-1500:]))
    deps = sorted({p for p in d["files"] if p.startswith(REPO + "/") or p.startswith(gen)})
    deps = [[p, filehash(p)] for p in deps]
    key = hashlib.sha1(json.dumps([u, deps]).encode()).hexdigest()[:20]
    final = os.path.join(CACHE, "facts", key + ".pkl")
    del d["files"]
    with open(final + ".tmp%d" % os.getpid(), "wb") as f:
        pickle.dump(d, f, protocol=4)
    os.replace(final + ".tmp%d" % os.getpid(), final)
    os.unlink(out)
    entries = [e for e in entries if os.path.exists(e["out"]) and e["deps"] != deps][-3:] + [{"deps": deps, "out": final}]
    with open(idx + ".tmp", "w") as f:
        json.dump(entries, f)
    os.replace(idx + ".tmp", idx)
    return u, final, True


def extract_all(jobs=8, verbose=False):
    build_extractor()
    gen = generated_parser()
    os.makedirs(os.path.join(CACHE, "facts"), exist_ok=True)
    fl = flags(gen)
    us = units() + [gen + "/hlasmparser.cpp"]
    if len(us) < 120:
        raise AnalysisError("only %d translation units found" % len(us))
    basekey = filehash(os.path.join(VERIF, "extractor", "extract.cpp")) + json.dumps(fl)
    res, fresh = {}, 0
    with ThreadPoolExecutor(jobs) as ex:
        for u, out, new in ex.map(lambda u: _unit(u, gen, fl, basekey), us):
            res[u] = out
            fresh += new
            if verbose and new:
                print("extracted", u, flush=True)
    return res, fresh, gen


if __name__ == "__main__":
    import time
    t = time.time()
    r, n, _ = extract_all(verbose="-v" in sys.argv)
    print("%d units, %d extracted, %.1fs" % (len(r), n, time.time() - t))
