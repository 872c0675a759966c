"""Shared machinery: building the library from /repo, running the drivers, running TLC."""
import os, re, sys, json, hashlib, shutil, subprocess, time, fcntl, random, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT") or os.path.join(ROOT, "out")
EVID = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4

CONFIGS = {
    "default": [],
    "wide": ["--with-clabel=uint64_t", "--with-typelabel=int", "--with-pointindex=uint64_t", "--with-arcindex=uint64_t"],
    "int_min": ["--with-clabel=int", "--with-clabel-na=min", "--with-typelabel=int", "--with-pointindex=int"],
    "int_mna": ["--with-clabel=int", "--with-clabel-na=-1", "--with-typelabel=int", "--with-pointindex=int", "--with-arcindex=uint64_t"],
    "int_max": ["--with-clabel=int", "--with-clabel-na=max", "--with-pointindex=uint64_t"],
}
CONFIGS["stable"] = []
DEFS = {"stable": " -DSCC_STABLE_NNG -DSCC_STABLE_FINDSEED"}      # the compile-time switches for a stable order
for _c in ["default", "wide", "int_min", "int_mna", "int_max"]:          # the same library with the search of examples/ann
    CONFIGS["ann_" + _c] = CONFIGS[_c]
COPY = ["configure", "dist_info", "LICENSE", "README.md", "doxyrefs.bib", "examples", "include", "src", "templates"]
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def src_hash():
    h = hashlib.sha256()
    for base, items in ((REPO, COPY), (HARN, sorted(os.listdir(HARN)))):
        for it in items:
            p = os.path.join(base, it)
            fl = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
            for f in fl:
                if f.endswith(".o") or f.endswith(".a"):
                    continue
                h.update(f.encode()); h.update(b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:20]


def build(cfg="default", san=True):
    """Build library + drivers for one configuration from /repo's working tree; returns dict of executables."""
    os.makedirs(os.path.join(OUT, "build"), exist_ok=True)
    key = "%s_%s_%s" % (cfg, "asan" if san else "plain", src_hash())
    d = os.path.join(OUT, "build", key)
    exe = {"driver": os.path.join(d, "driver"), "driver2": os.path.join(d, "driver2"), "dir": d}
    with open(os.path.join(OUT, "build", ".lock_%s_%d" % (cfg, san)), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".ok")):
            return exe
        for o in os.listdir(os.path.join(OUT, "build")):   # stale builds of this configuration
            if o.startswith("%s_%s_" % (cfg, "asan" if san else "plain")):
                shutil.rmtree(os.path.join(OUT, "build", o), ignore_errors=True)
        os.makedirs(d)
        st = os.path.join(d, "src_tree"); lo = os.path.join(d, "out"); bn = os.path.join(d, "bin")
        for x in (st, lo, bn):
            os.makedirs(x)
        for it in COPY:
            s = os.path.join(REPO, it)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(st, it))
            else:
                shutil.copy2(s, st)
        for dp, _, fs in os.walk(st):
            for f in fs:
                if f.endswith(".o"):
                    os.unlink(os.path.join(dp, f))
        for f in ("include/scclust.h", "src/scclust_types.h"):
            if os.path.exists(os.path.join(st, f)):
                os.unlink(os.path.join(st, f))
        with open(os.path.join(bn, "ed"), "w") as f:
            f.write("#!/bin/sh\nsed 's/^q$/Q/' | /usr/bin/ed \"$@\"\n")
        os.chmod(os.path.join(bn, "ed"), 0o755)
        env = dict(os.environ, PATH=bn + ":" + os.environ["PATH"], LC_ALL="C.UTF-8")
        sanf = "-g -fsanitize=address -fno-omit-frame-pointer" if san else "-g"
        def run(cmd, cwd):
            r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("build failed (%s): %s\n%s" % (cfg, cmd, r.stdout[-3000:]))
        run(["../src_tree/configure"] + CONFIGS[cfg], lo)
        mk = os.path.join(lo, "Makefile")
        txt = open(mk).read()
        open(mk, "w").write(txt.replace("-Werror", ""))   # sanitizer builds may warn where the plain build does not
        run(["make", "-j%d" % NPROC, "CC=gcc " + sanf + DEFS.get(cfg, "")], lo)
        ann = ""
        if cfg.startswith("ann_"):
            inc = os.path.join(d, "ann_inc", "include"); os.makedirs(inc); os.symlink("/usr/include/ANN", os.path.join(inc, "ANN"))
            for o, src in (("wrapper", os.path.join(st, "examples", "ann", "ann_wrapper.cpp")), ("glue", os.path.join(HARN, "ann_glue.cpp"))):
                run(["sh", "-c", "g++ -std=c++11 -O1 %s -w -I%s -I%s -I%s -c -o %s/ann_%s.o %s" % (sanf, lo, os.path.join(d, "ann_inc"), os.path.join(st, "examples", "ann"), d, o, src)], d)
            ann = "%s/ann_wrapper.o %s/ann_glue.o" % (d, d)
        for name in ("driver", "driver2"):
            src = os.path.join(HARN, name + ".c")
            if not os.path.exists(src):
                continue
            if ann:
                run(["sh", "-c", "gcc -std=gnu99 -O1 %s -DWITH_ANN -w -I%s/include -I%s/src -I%s -c -o %s.o %s && g++ %s -o %s %s.o %s %s/lib/libscclust.a -l:libann.a %s -lm"
                     % (sanf, lo, lo, HARN, os.path.join(d, name), src, sanf, os.path.join(d, name), os.path.join(d, name), ann, lo, WRAP)], d)
                continue
            cc = ["sh", "-c", "gcc -std=gnu99 -O1 %s -w -I%s/include -I%s/src -I%s -o %s %s %s/lib/libscclust.a %s -lm"
                 % (sanf + DEFS.get(cfg, ""), lo, lo, HARN, os.path.join(d, name), src, lo, WRAP)]
            try:
                run(cc, d)
            except ToolError as e:
                if name == "driver":
                    raise
                log(str(e))       # only the checks below the public interface need driver2
        shutil.rmtree(st); shutil.rmtree(os.path.join(lo, "examples"), ignore_errors=True)
        open(os.path.join(d, ".ok"), "w").close()
    return exe


def build_all(cfgs=None):
    cfgs = cfgs or [c for c in CONFIGS if not c.startswith("ann_")]
    with ThreadPoolExecutor(5) as ex:
        return dict(zip(cfgs, ex.map(build, cfgs)))


ASAN_ENV = dict(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:max_allocation_size_mb=4000",
                UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1")


def _run_chunk(exe, lines, timeout):
    """Feed lines; a crash is charged to the first line without a reply, and the rest is rerun."""
    res = []
    i = 0
    env = dict(os.environ, **ASAN_ENV)
    while i < len(lines):
        try:
            r = subprocess.run([exe], input="\n".join(lines[i:]) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, env=env, timeout=timeout, errors="replace")
            out, err, rc = r.stdout, r.stderr, r.returncode
            hang = False
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            err = (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
            rc = -1; hang = True
        got = []
        for l in out.split("\n"):
            if not l:
                continue
            try:
                got.append(json.loads(l))
            except ValueError:
                break
        got = got[:len(lines) - i]
        res += got
        i += len(got)
        if i < len(lines):
            if rc == 0 and not hang:
                raise ToolError("driver stopped without a crash at: " + lines[i][:300])
            fi = [int(x.split()[1]) for x in err.split("\n") if x.startswith("#F ")]
            msg = [x for x in err.split("\n") if "ERROR" in x or "runtime error" in x]
            res.append({"crash": 1, "hang": int(hang), "rc": rc, "fi": fi[-1] if fi else 0, "msg": (msg[0] if msg else err[-300:])[:300]})
            i += 1
    return res


def run_driver(exe, lines, jobs=None, timeout=120, sessions=False):
    """lines: list of str, or (sessions=True) list of list of str that must stay together."""
    if not lines:
        return []
    jobs = jobs or NPROC
    if sessions:
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(lambda s: _run_session(exe, s, timeout), lines))
    n = max(1, min(jobs, (len(lines) + 3) // 4))
    ch = [lines[k::n] for k in range(n)]
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda c: _run_chunk(exe, c, timeout), ch))
    res = [None] * len(lines)
    for k in range(n):
        for j, r in enumerate(rs[k]):
            res[k + j * n] = r
    return res


def _run_session(exe, lines, timeout):
    env = dict(os.environ, **ASAN_ENV)
    try:
        r = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=env, timeout=timeout, errors="replace")
        out, err, rc, hang = r.stdout, r.stderr, r.returncode, False
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        err = ""; rc = -1; hang = True
    res = []
    for l in out.split("\n"):
        if not l:
            continue
        try:
            res.append(json.loads(l))
        except ValueError:
            break
    if len(res) < len(lines):
        if rc == 0 and not hang:
            raise ToolError("driver stopped without a crash at: " + lines[len(res)][:300])
        msg = [x for x in err.split("\n") if "ERROR" in x or "runtime error" in x]
        res.append({"crash": 1, "hang": int(hang), "rc": rc, "msg": (msg[0] if msg else err[-300:])[:300]})
    return res


# ----------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.states = 0; self.generated = 0; self.out = ""; self.rejected = []; self.error = None; self.printed = []; self.wall = 0.0


def tlc(module, cfg, env=None, workers=1, timeout=800, extra=(), mem="3g", workdir=None, dfs=False):
    wd = workdir or tempfile.mkdtemp(prefix="tlc_", dir=ensure(os.path.join(OUT, "tlc")))
    e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else 4), "-Xss64m", "-Xmx" + mem, "-cp", JAR,
           "-Dtlc2.tool.queue.IStateQueue=StateDeque" if dfs else "-Dvf=1", "-Djava.io.tmpdir=" + wd, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-nowarning", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
        if workdir is None:
            shutil.rmtree(wd, ignore_errors=True)
    res = TlcResult(); res.out = r.stdout; res.rc = r.returncode; res.wall = time.time() - t
    for l in r.stdout.split("\n"):
        if " states generated, " in l and "distinct states found" in l and l[:1].isdigit():
            w = l.replace(",", "").split()
            res.generated = int(w[0]); res.states = int(w[3])
        if l.startswith("Error:") and res.error is None:
            res.error = l
    return res


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def parse_tla_set(s):
    """{1, 2, 3} or <<...>> of integers/strings -> list"""
    s = s.strip()
    inner = s[1:-1] if s[0] == "{" else s[2:-2]
    return [x.strip().strip('"') for x in inner.split(",") if x.strip()]


def tlc_cases(module, cfg, cases, env=None, chunk=None, jobs=None, timeout=800, mem="2500m", strip=None):
    """Check recorded cases against a trace specification. The module reads IOEnv.CASES (ndjson), and its
    POSTCONDITION prints  <<"REJECTED", {indices}>>. Returns (rejected indices, states, generated)."""
    if not cases:
        return [], 0, 0
    jobs = jobs or NPROC
    n = max(1, min(jobs, (len(cases) + 7) // 8))
    if chunk:
        n = max(n, (len(cases) + chunk - 1) // chunk)
    parts = [list(range(k, len(cases), n)) for k in range(n)]
    ensure(os.path.join(OUT, "tlc"))

    undef = []
    def one(ix):
        if len(undef) >= 6:
            return [], 0, 0
        wd = tempfile.mkdtemp(prefix="cs_", dir=os.path.join(OUT, "tlc"))
        try:
            p = os.path.join(wd, "cases.ndjson")
            with open(p, "w") as f:
                for i in ix:
                    f.write(json.dumps(cases[i], separators=(",", ":")) + "\n")
            r = tlc(module, cfg, dict(env or {}, CASES=p), workers=1, timeout=timeout, mem=mem, workdir=wd, dfs=True)
            rej = None
            for l in re.split(r'<<\s*"REJECTED",', r.out.replace("\n", " "))[1:]:
                rej = [ix[int(x) - 1] for x in parse_tla_set(l.split(">>")[0])]
            if rej is None or (r.rc != 0 and not rej and "POSTCONDITION" not in r.out.upper()):
                keep = os.path.join(OUT, "tlc_error.txt")
                with open(keep, "w") as f:
                    f.write(r.out)
                shutil.copy(p, os.path.join(OUT, "tlc_error.ndjson"))
                if r.rc in (75, 76, 12, 13) or (r.error and not any(x in r.out for x in ("StackOverflow", "OutOfMemory", "Java heap", "Parsing or semantic", "ran out of memory"))):
                    # a recorded value outside the domain of the specification: not a behaviour of it
                    if len(ix) == 1:
                        undef.append(ix[0])
                        return ix, r.states, r.generated
                    a, b = one(ix[:len(ix) // 2]), one(ix[len(ix) // 2:])
                    return a[0] + b[0], a[1] + b[1], a[2] + b[2]
                raise ToolError("TLC failed on %s/%s: %s (see %s)" % (module, cfg, r.error, keep))
            return rej, r.states, r.generated
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(one, parts))
    return sorted(i for r in rs for i in r[0]), sum(r[1] for r in rs), sum(r[2] for r in rs)
