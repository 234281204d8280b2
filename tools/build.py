#!/usr/bin/env python3
"""Content-hash build of LucenePlusPlus (core + contrib, static, sanitised) and of the harnesses.

Objects are keyed on the *content* of everything they were compiled from (never on mtimes), so a
check always sees what /repo's working tree says, and recompiles only what changed.
Everything goes to /verif/build/<config>; nothing is written in /repo.
"""
import fcntl, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")

CONFIGS = {
    # the configuration every check uses
    "asan": ["-O1", "-g1", "-mllvm", "-inline-threshold=25", "-fno-omit-frame-pointer", "-fsanitize=address",
             "-fsanitize-coverage=inline-8bit-counters", "-DVF_COV=1"],
    # developer-only: source coverage of the harnesses
    "cov": ["-O1", "-g1", "-fprofile-instr-generate", "-fcoverage-mapping"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
COMMON = ["-DNDEBUG", "-DLPP_BUILDING_LIB", "-pthread", "-w", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-lboost_date_time", "-lboost_filesystem", "-lboost_iostreams", "-lboost_regex",
        "-lboost_thread", "-lboost_system", "-lz", "-pthread"]

AR = "/usr/lib/llvm-18/bin/llvm-ar" if os.path.exists("/usr/lib/llvm-18/bin/llvm-ar") else "ar"
LLD = ["--ld-path=/usr/lib/llvm-18/bin/ld.lld"] if os.path.exists("/usr/lib/llvm-18/bin/ld.lld") else []

BATCH = 90000
_hash_cache = {}


def fhash(path):
    h = _hash_cache.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_cache[path] = h
    return h


def sources():
    out = []
    core = os.path.join(REPO, "src/core")
    for sub in ("search", "analysis", "document", "index", "queryparser", "store", "util"):
        for d, _, fs in os.walk(os.path.join(core, sub)):
            for f in fs:
                if f.endswith((".cpp", ".c", ".cc")):
                    out.append(os.path.join(d, f))
    con = os.path.join(REPO, "src/contrib")
    for sub in ("analyzers", "highlighter", "memory", "snowball"):
        for d, _, fs in os.walk(os.path.join(con, sub)):
            rel = os.path.relpath(d, con)
            for f in fs:
                if f.endswith(".cpp"):
                    out.append(os.path.join(d, f))
                elif f.endswith(".c") and (rel.endswith("src_c") or rel.endswith("runtime")
                                           or f == "libstemmer_utf8.c"):
                    out.append(os.path.join(d, f))
    return sorted(out)


class Builder:
    def __init__(self, config="asan", verbose=False):
        self.cfg = config
        self.dir = os.path.join(VERIF, "build", config)
        self.gen = os.path.join(self.dir, "gen")
        self.obj = os.path.join(self.dir, "obj")
        os.makedirs(self.gen, exist_ok=True)
        os.makedirs(self.obj, exist_ok=True)
        self.flags = CONFIGS[config] + COMMON
        self.inc = ["-I" + self.gen, "-I" + REPO + "/include/lucene++", "-I" + REPO + "/src/core/include",
                    "-I" + REPO + "/src/contrib/include",
                    "-I" + REPO + "/src/contrib/snowball/libstemmer_c/include",
                    "-I" + HARNESS]
        self.verbose = verbose
        self.compiled = 0

    def config_h(self):
        t = open(REPO + "/include/config_h/Config.h.in").read()
        for k in ("USE_BOOST_INTEGER", "USE_CYCLIC_CHECK", "LPP_SHARED_DLL"):
            t = t.replace("@%s@" % k, "undef")
        p = os.path.join(self.gen, "Config.h")
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)

    def up_to_date(self, out, cmd):
        try:
            meta = json.load(open(out + ".dep"))
        except (OSError, ValueError):
            return False
        if meta["cmd"] != cmd or not os.path.exists(out):
            return False
        return all(fhash(p) == h for p, h in meta["deps"].items())

    def compile(self, src, out, cmd, extra_deps=()):
        """Run cmd (which writes `out` and `out.d`) unless its inputs are unchanged."""
        if self.up_to_date(out, cmd):
            return False
        tmp = out + ".tmp"
        real = [tmp if c == "@OUT@" else (out + ".d" if c == "@DEP@" else c) for c in cmd]
        p = subprocess.run(real, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError("compile failed: %s\n%s" % (src, p.stdout.decode("utf-8", "replace")[:6000]))
        deps = {}
        txt = open(out + ".d").read().replace("\\\n", " ")
        for d in txt.split(":", 1)[1].split():
            d = os.path.normpath(d)
            deps[d] = fhash(d)
        for d in extra_deps:
            deps[d] = fhash(d)
        os.rename(tmp, out)
        os.unlink(out + ".d")
        json.dump({"cmd": cmd, "deps": deps}, open(out + ".dep", "w"))
        self.compiled += 1
        if self.verbose:
            print("  cc", os.path.relpath(src, REPO), flush=True)
        return True

    def pch(self):
        self.config_h()
        src = REPO + "/src/core/include/LuceneInc.h"
        out = os.path.join(self.gen, "LuceneInc.pch")
        cmd = ["clang++", "-std=gnu++17"] + self.flags + self.inc + [
            "-MMD", "-MF", "@DEP@", "-Xclang", "-fvalidate-ast-input-files-content", "-x", "c++-header", src, "-o", "@OUT@"]
        self.compile(src, out, cmd)
        _hash_cache.pop(out, None)
        return out

    def obj_cmd(self, src, pch):
        if src.endswith(".c"):
            return ["clang"] + self.flags + self.inc + ["-MMD", "-MF", "@DEP@", "-c", src, "-o", "@OUT@"]
        return ["clang++", "-std=gnu++17"] + self.flags + self.inc + [
            "-include-pch", pch, "-MMD", "-MF", "@DEP@", "-c", src, "-o", "@OUT@"]

    def lib(self, jobs=8):
        pch = self.pch()
        # Sources are compiled in batches (one translation unit including several sources: the headers and
        # templates are then processed once).  A batch that does not compile as one (two sources defining
        # the same file-local name, say) is compiled source by source.
        todo, cur, size, last = [], [], 0, None

        def flush():
            if cur:
                todo.append(list(cur))
                del cur[:]
        for s in sources():
            n, d = os.path.getsize(s), os.path.dirname(s)
            if s.endswith(".c"):
                todo.append([s])
                continue
            if cur and (d != last or size + n > BATCH or len(cur) >= 14):
                flush()
            if not cur:
                size = 0
            cur.append(s)
            size += n
            last = d
        flush()
        # biggest first
        todo.sort(key=lambda t: -sum(os.path.getsize(s) + 12000 for s in t))

        def name(s):
            return os.path.relpath(s, REPO + "/src").replace("/", "__")

        def one(t):
            single = [(s, os.path.join(self.obj, name(s) + ".o")) for s in t]
            if len(t) > 1:
                key = hashlib.sha1("\n".join(t).encode()).hexdigest()[:12]
                u = os.path.join(self.gen, "u_%s_%s.cpp" % (name(t[0])[:-4], key))
                txt = "".join('#include "%s"\n' % s for s in t)
                if not os.path.exists(u) or open(u).read() != txt:
                    open(u, "w").write(txt)
                o = os.path.join(self.obj, os.path.basename(u) + ".o")
                try:
                    return [o], self.compile(u, o, self.obj_cmd(u, pch), extra_deps=self.pch_deps)
                except BuildError:
                    pass
            # the PCH holds hashed headers itself: depend on those through its dep list
            ch = [self.compile(s, o, self.obj_cmd(s, pch), extra_deps=self.pch_deps) for s, o in single]
            return [o for _, o in single], any(ch)
        self.pch_deps = list(json.load(open(pch + ".dep"))["deps"].keys())
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, todo))
        changed = [c for _, c in res]
        objs = sorted(o for os_, _ in res for o in os_)
        keep = set(objs)
        for f in os.listdir(self.obj):
            q = os.path.join(self.obj, f)
            if q not in keep and q[:-4] not in keep:
                os.unlink(q)
        lib = os.path.join(self.dir, "liblucene.a")
        stamp = hashlib.sha1("\n".join(objs).encode()).hexdigest()
        old = open(lib + ".stamp").read() if os.path.exists(lib + ".stamp") else ""
        if any(changed) or not os.path.exists(lib) or old != stamp:
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.run([AR, "rcsT", lib] + objs, check=True)
            open(lib + ".stamp", "w").write(stamp)
        self.lib_changed = any(changed)
        return lib

    def harness_objects(self, srcs):
        """Compile harness sources (each named once: two compilations of one source must not run together)."""
        pch = os.path.join(self.gen, "LuceneInc.pch")
        pairs = [(os.path.join(HARNESS, s), os.path.join(self.dir, "h_" + s.replace("/", "__") + ".o"))
                 for s in dict.fromkeys(srcs)]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda t: self.compile(t[0], t[1], self.obj_cmd(t[0], pch), extra_deps=self.pch_deps), pairs))
        return pairs

    def harness(self, name, srcs):
        """Build harness binary `name` from /verif/harness sources; returns its path."""
        pairs = self.harness_objects(srcs)
        exe = os.path.join(self.dir, name)
        sig = hashlib.sha1()
        for _, o in pairs:
            sig.update(json.dumps(json.load(open(o + ".dep")), sort_keys=True).encode())
        for o in sorted(os.listdir(self.obj)):
            if o.endswith(".dep"):
                sig.update(open(os.path.join(self.obj, o), "rb").read())
        sig = sig.hexdigest()
        st = exe + ".stamp"
        if not os.path.exists(exe) or not os.path.exists(st) or open(st).read() != sig:
            cmd = ["clang++"] + self.flags + LLD + \
                ["-o", exe] + [o for _, o in pairs] + [os.path.join(self.dir, "liblucene.a")] + LIBS
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError("link failed\n" + p.stdout.decode("utf-8", "replace")[-4000:])
            open(st, "w").write(sig)
        return exe


class BuildError(Exception):
    pass


class Lock:
    def __enter__(self):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        self.f = open(os.path.join(VERIF, "build", ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


if __name__ == "__main__":
    cfg = sys.argv[1] if len(sys.argv) > 1 else "asan"
    t = time.time()
    with Lock():
        b = Builder(cfg, verbose="-v" in sys.argv)
        b.lib()
    print("library built: %d objects compiled, %.1f s" % (b.compiled, time.time() - t))
