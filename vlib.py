"""Build and run support: compiles /repo's current sources to LLVM IR for the symbolic engine and, natively
with sanitizers, for the replay of counterexamples and sampled paths."""
import hashlib, json, os, re, subprocess, sys, time, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18"
LLVMBIN = "/usr/lib/llvm-18/bin"
NPROC = os.cpu_count() or 4
ENGINE = os.path.join(BUILD, "engine", "symrun")
ENV = dict(os.environ, LC_ALL="C", LANG="C", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

IRFLAGS = ("-std=gnu++17 -O1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-delete-null-pointer-checks "
           "-fno-threadsafe-statics -fno-pie -fno-pic -D__NO_INLINE__ -U_FORTIFY_SOURCE -DSYM_ENGINE -emit-llvm -c -w").split()
NATFLAGS = ("-std=gnu++17 -O1 -g1 -fno-omit-frame-pointer -ffp-contract=off -fno-delete-null-pointer-checks -fsanitize=address,undefined "
            "-ftrivial-auto-var-init=pattern -fno-sanitize=vptr,function,enum -fno-sanitize-recover=all -U_FORTIFY_SOURCE -c -w").split()


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d, exts):
    r = []
    for root, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if os.path.splitext(f)[1] in exts or "" in exts and "." not in f:
                r.append(os.path.join(root, f))
    return r


def repo_sources():
    """the library's translation units, plus the IDF helpers of the idf2igs tool (not its main program)"""
    src = os.path.join(REPO, "src")
    out = []
    for d in ("entities", "iges", "dllapi", "geom", "idf"):
        for f in sorted(os.listdir(os.path.join(src, d))):
            if f.endswith(".cpp") and f not in ("entity_template.cpp",):
                p = os.path.join(src, d, f)
                txt = rd(p)
                if re.search(rb"^\s*int\s+main\s*\(", txt, re.M):
                    continue
                out.append(p)
    return out


def conf_dir():
    """libigesconf.h as CMake would configure it for the static SISL build"""
    t = rd(os.path.join(REPO, "src", "libigesconf.h.in")).decode()
    cm = rd(os.path.join(REPO, "CMakeLists.txt")).decode()
    for k in ("MAJOR", "MINOR"):
        m = re.search(r"LIBIGES_VERSION_%s\s+(\d+)" % k, cm)
        t = t.replace("@LIBIGES_VERSION_%s@" % k, m.group(1) if m else "0")
    t = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", t)
    d = os.path.join(BUILD, "conf-" + sha(t))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "libigesconf.h")
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(t)
        os.rename(tmp, p)
    return d


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


class Builder:
    def __init__(self, log=None):
        os.makedirs(BUILD, exist_ok=True)
        self.conf = conf_dir()
        self.incs = [os.path.join(REPO, "src", "include"), self.conf, os.path.join(REPO, "src", "idf")]
        hdrs = tree(os.path.join(REPO, "src"), (".h", ".hpp", ".inl"))
        self.hhash = sha(*[rd(p) for p in hdrs], *[os.path.relpath(p, REPO) for p in hdrs], rd(os.path.join(self.conf, "libigesconf.h")))
        self.shim = sha(*[rd(p) for p in tree(os.path.join(VERIF, "rt"), ("", ".h"))])
        self.hh = sha(*[rd(p) for p in tree(os.path.join(VERIF, "harness"), (".h",))])
        self.log = log or (lambda s: None)

    def compile(self, src, native, extra=()):
        own = not src.startswith(REPO + "/")
        flags = (NATFLAGS if native else IRFLAGS) + list(extra)
        inc = []
        if not native:
            inc += ["-I" + os.path.join(VERIF, "rt", "shim")]
        inc += ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")] if own else []
        inc += ["-I" + i for i in self.incs]
        key = sha(rd(src), os.path.basename(src), self.hhash, self.shim if (own or not native) else "", self.hh if own else "", " ".join(flags))
        kind = "nat" if native else "ir"
        d = os.path.join(BUILD, kind)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, os.path.basename(src)[:-4] + "-" + key + (".o" if native else ".bc"))
        if not os.path.exists(out):
            tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            r = run([CLANG] + flags + inc + [src, "-o", tmp])
            if r.returncode:
                raise BuildError("cannot compile %s:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, out)
        return out

    def compile_all(self, srcs, native):
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(lambda s: self.compile(s, native), srcs))

    def link_ir(self, harness):
        """one IR module: every library source, the runtime model and the harness file"""
        srcs = repo_sources() + [os.path.join(VERIF, "rt", "runtime.cpp"), os.path.join(VERIF, "rt", "sisl_stub.cpp"), harness]
        bcs = self.compile_all(srcs, False)
        out = os.path.join(BUILD, "mod-%s-%s.bc" % (os.path.basename(harness)[:-4], sha(*bcs)))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = run([os.path.join(LLVMBIN, "llvm-link"), "-o", tmp] + bcs)
            if r.returncode:
                raise BuildError("llvm-link:\n" + r.stdout.decode(errors="replace")[-3000:])
            os.rename(tmp, out)
        return out

    def link_native(self, harness):
        srcs = repo_sources() + [os.path.join(VERIF, "rt", "native.cpp"), harness]
        objs = self.compile_all(srcs, True)
        out = os.path.join(BUILD, "nat-%s-%s" % (os.path.basename(harness)[:-4], sha(*objs)))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = run([CLANG, "-fsanitize=address,undefined", "-rdynamic", "-o", tmp] + objs + ["-lsisl", "-ldl", "-lm"])
            if r.returncode:
                raise BuildError("native link:\n" + r.stdout.decode(errors="replace")[-3000:])
            os.rename(tmp, out)
        return out


def build_engine():
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    r = run(["make", "-s", "-j%d" % NPROC, "-C", os.path.join(VERIF, "engine"), "OUT=" + d])
    if r.returncode:
        raise BuildError("engine build failed:\n" + r.stdout.decode(errors="replace")[-3000:])


def replay_text(fn, params, vals, head):
    s = "".join("# %s\n" % l for l in head)
    s += "fn %s\n" % fn
    for k, v in sorted(params.items()):
        s += "param %s %d\n" % (k, v)
    for n, v in vals:
        s += "var %s %s\n" % (n, v)
    return s


def replay_native(exe, fn, path, timeout=90):
    """returns (verdict, detail, reached): verdict in ok / fail / other"""
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:exitcode=43:max_malloc_fill_size=16777216:malloc_fill_byte=190:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=44:print_stacktrace=1")
    try:
        try:
            r = subprocess.run([exe, fn, path], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, txt = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, txt = "timeout", (e.stdout or b"").decode(errors="replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    reached = re.findall(r"^REACH (.*)$", txt, re.M)
    if rc == 0 and "REPLAY-OK" in txt:
        return "ok", "", reached
    if rc == 42:
        m = re.search(r"^REPLAY-ASSERT (.*)$", txt, re.M)
        return "fail", "assertion: " + (m.group(1) if m else "?"), reached
    if rc == 3:
        return "assume", "assumption not met natively", reached
    if rc == 43 or "AddressSanitizer" in txt:
        m = re.search(r"ERROR: AddressSanitizer:? (.*)", txt)
        return "fail", "AddressSanitizer: " + (m.group(1)[:160] if m else "?"), reached
    if rc == 44 or "runtime error:" in txt:
        m = re.search(r"runtime error: (.*)", txt)
        return "fail", "UBSan: " + (m.group(1)[:160] if m else "?"), reached
    if rc == "timeout" or rc == -14:
        return "fail", "does not terminate (time limit)", reached
    if isinstance(rc, int) and rc < 0:
        m = re.search(r"terminate called after throwing an instance of (.*)", txt)
        return "fail", "killed by signal %d%s" % (-rc, " (uncaught %s)" % m.group(1) if m else ""), reached
    return "other", "exit %s: %s" % (rc, txt[-300:]), reached
