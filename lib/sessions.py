"""C13, C17, C21, C22: sessions of public calls generated from the specification Lib (Gen_Lib, TLC -simulate),
replayed into the library and validated by Trace_Lib."""
import os, re, json, random, hashlib
from concurrent.futures import ThreadPoolExecutor
import vf

BIG = "18446744073709551615"
CFGS = ["default", "wide", "int_min", "int_mna", "int_max"]


def generate(mode, num, depth, seed):
    """random walks of Gen_Lib as lists of call records"""
    per = max(1, (num + vf.NPROC - 1) // vf.NPROC)
    wd = vf.ensure(os.path.join(vf.OUT, "tlc"))
    def one(j):
        cfg = os.path.join(wd, "gen_%s_%d_%d.cfg" % (mode, os.getpid(), j))
        with open(cfg, "w") as f:
            f.write('CONSTANTS NS = 4 NB = 4 ND = 4 D = %d MODE = "%s"\nSPECIFICATION GSpec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n' % (depth, mode))
        try:
            r = vf.tlc("Gen_Lib.tla", cfg, workers=1, extra=["-simulate", "num=%d" % per, "-depth", str(depth + 5), "-seed", str(seed * 1000 + j + 1)], mem="2g")
        finally:
            os.unlink(cfg)
        ss = [json.loads(json.loads(l)[8:]) for l in r.out.split("\n") if l.startswith('"SESSION ')]
        if not ss:
            with open(os.path.join(vf.OUT, "tlc_error.txt"), "w") as f:
                f.write(r.out)
            raise vf.ToolError("Gen_Lib produced no sessions: %s" % r.error)
        return ss
    with ThreadPoolExecutor(vf.NPROC) as ex:
        return [s for ss in ex.map(one, range(vf.NPROC)) for s in ss]


def lst(a):
    return ",".join(str(x) for x in a)


def wide_opt(o, n, M, rng):
    """the options of n points for n blocks of M points each: every requirement is broken exactly if it was"""
    if M == 1 or o["null"]:
        return o
    o = dict(o)
    if o["size"] >= 2:
        o["size"] = o["size"] * M if o["size"] <= n else n * M + rng.choice([1, 1, M])
    if o.get("defo"):
        return o
    o["tc"] = [t * M for t in o["tc"]]
    def block(t):
        if 0 <= t < max(o["nt"], 1):
            return [t] * M
        q = [0] * M; q[rng.randrange(M)] = t
        return q
    o["tl"] = [t for u in o["tl"][:n] for t in block(u)] + list(o["tl"][n:])
    if o["nt"] >= 2:
        o["ltl"] = n * M + o["ltl"] - n if o["ltl"] >= n else rng.choice([o["ltl"] * M + rng.randrange(M), n * M - 1])
    o["pp"] = [q for u in o["pp"] for q in ([u * M + j for j in range(M)] if 0 <= u < n else [u if u < 0 else n * M + u - n])]
    if o["lpp"] > 0:
        o["lpp"] = len(o["pp"])
    return o


def opt_line(o, rng):
    if o["null"]:
        return "optnull=1"
    if o.get("defo"):
        return "defo=1 size=%d" % o["size"]
    rad = lambda s: "0" if s == 0 else ("-1.5" if s < 0 else rng.choice(["0.5", "3", "60"]))
    p = ["size=%d" % o["size"], "nt=%s" % ("4294967295" if o["ntbig"] else o["nt"]), "sm=%d" % o["sm"], "pum=%d" % o["pum"], "sum=%d" % o["sum"],
         "sr=%d" % o["sr"], "pr=%d" % o["pr"], "secr=%d" % o["secr"], "ltl=%d" % o["ltl"], "lpp=%d" % o["lpp"]]
    if not o["ver"]:
        p.append("ver=%d" % rng.choice([0, -1, 722678000, 722678002, 5]))
    if not o["tcnull"]:
        p.append("tc=" + lst(o["tc"]))
    if not o["tlnull"]:
        p.append("tl=" + lst(o["tl"]))
    if not o["ppnull"]:
        p.append("pp=" + lst(o["pp"]))
    for f in ("sr", "pr", "secr"):
        p.append("%sv=%s" % (f, rad(o[f + "s"])))
    if o["sm"] == 1:
        p.append("batch=%d" % rng.choice([0, 1, 2, 5]))
    return " ".join(p)


def _line(v, rng, cfg, M=1):
    if M > 1:
        v = dict(v, v=[x for x in v["v"] for _ in range(M)], n=v["n"] * M)
        if v["c"] == "ds":
            v["len"] = v["n"] * v["dims"] + v["len"] - v["n"] // M * v["dims"]
        elif v["c"] == "labels":
            v["len"] *= M
        elif v["c"] in ("sc", "check"):
            o = v["o"]
            v["o"] = wide_opt(o, v["nn"], M, rng)
        elif v["c"] == "hier" and v["size"] >= 2:
            v["size"] = v["size"] * M if v["size"] <= v["nn"] else v["nn"] * M + 1
    big = BIG if cfg in ("wide", "int_max") else rng.choice([BIG, "4294967296", "4294967295"] if cfg != "default" else [BIG, "4294967296"])
    c = v["c"]
    s, t, d, b = v["s"] - 1, v["t"] - 1, v["d"] - 1, v["b"] - 1
    if c == "buf":
        return "s_buf b=%d v=%s" % (b, lst(v["v"]))
    if c == "poke":
        return "s_poke b=%d i=%d v=%d m=%d" % (b, v["i"] - 1, v["x"], M)
    if c == "ds":
        n = max(v["n"], 1)
        dims = v["dims"] if 0 < v["dims"] < 100 else 1
        x = [rng.randint(0, 40) for _ in range(n * dims + 1)]
        return "s_ds d=%d geo=sq n=%d dims=%d x=%s an=%s adims=%d alen=%d anull=%d onull=%d" % (d, n, dims, lst(x), big if v["nbig"] else v["n"], v["dims"], v["len"], v["anull"], v["onull"])
    if c == "freeds":
        return "s_freeds d=%d pnull=%d" % (d, v["pnull"])
    if c == "isds":
        return "s_isds d=%d" % d
    if c == "empty":
        return "s_empty s=%d b=%d n=%s onull=%d" % (s, b, big if v["nbig"] else v["n"], v["onull"])
    if c == "exist":
        return "s_exist s=%d b=%d n=%s k=%s deep=%d onull=%d" % (s, b, big if v["nbig"] else v["n"], BIG if v["kbig"] else v["k"], v["deep"], v["onull"])
    if c == "copy":
        return "s_copy s=%d t=%d onull=%d" % (s, t, v["onull"])
    if c == "free":
        return "s_free s=%d pnull=%d" % (s, v["pnull"])
    if c == "info":
        return "s_info s=%d nnull=%d knull=%d" % (s, v["nnull"], v["knull"])
    if c == "labels":
        return "s_labels s=%d len=%d onull=%d" % (s, v["len"], v["onull"])
    if c in ("sc", "hier", "check", "stats"):
        l = "s_%s s=%d d=%d clnull=%d dsnull=%d onull=%d" % (c, s, d, v["clnull"], v["dsnull"], v["onull"])
        if v["fa"]:
            l += " fa=%d fs=%d" % (v["fa"], v["fs"])
        if c == "hier":
            return l + " size=%d ba=%d" % (v["size"], v["ba"])
        if c in ("sc", "check"):
            return l + " " + opt_line(v["o"], rng)
        return l
    if c == "err":
        return "s_err len=%d onull=%d" % (v["len"], v["onull"])
    if c == "setfn":
        return "s_setfn t=" + lst(v["tags"])
    if c == "resetfn":
        return "s_resetfn"
    if c == "defopt":
        return "s_defopt"
    if c == "version":
        return "s_version ask=%d" % v["len"]
    if c == "reset":
        return "s_reset"
    raise vf.ToolError("unknown call " + c)


def to_line(v, rng, cfg, M=1):
    l = _line(v, rng, cfg, M)
    if v["c"] in ("isds", "copy", "info", "labels", "sc", "hier", "check", "stats") and rng.random() < .5:
        l += " z=1"         # a zero-filled object instead of NULL
    return l


BLANK = None


def close(sess):
    """release everything at the end; err reads after every step are added by the caller when wanted"""
    global BLANK
    if BLANK is None:
        BLANK = dict(sess[0], n=0, len=0, d=1, dims=1, v=[], b=0)
    tail = [dict(BLANK, c="free", s=s) for s in range(1, 5)] + [dict(BLANK, c="freeds", d=d) for d in range(1, 5)] + [dict(BLANK, c="reset")]
    return sess + tail


def with_reads(sess, rng):
    out = []
    for u in sess:
      for v in [u] + ([dict(sess[0], c="labels", s=rng.randint(1, 4), d=1, n=0, v=[], b=0, len=0, onull=0)] if rng.random() < .12 else []):   # a failure without a message of its own
        out.append(v)
        if v["c"] not in ("err", "buf", "poke") and rng.random() < .8:
            out.append(dict(sess[0], c="err", d=1, n=0, len=rng.choice([1, 3, 17, 19, 20, 21, 50, 120, 400]), onull=0))
    return out


DEF = {"ec": 0, "crash": 0, "out": [], "on": 0, "ok": 0, "outnull": 0, "r": 0, "over": 0, "term": 0, "pre": 0, "msg": "", "text": "", "used": [0] * 10, "optsame": 1, "live": 0, "live0": 0,
       "cl": [{"init": 0, "n": 0, "k": 0, "lab": []}] * 4, "null": [1] * 4, "buf": [[]] * 4, "zero": 1, "hit": 0, "isnull": 1, "def": []}


def narrow(r, M, ids):
    """a recording over blocks of M points as one over points; a mixed block gets a number of its own"""
    def seq(a):
        if len(a) % M:
            return [-99]
        q = []
        for i in range(0, len(a), M):
            b = tuple(a[i:i + M])
            q.append(b[0] if len(set(b)) == 1 else 1000 + ids.setdefault(b, len(ids)))
        return q
    num = lambda n: n // M if n % M == 0 else -99
    r = dict(r)
    if "out" in r:
        r["out"] = seq(r["out"])
    if "n" in r:
        r["n"] = num(r["n"])
    if "cl" in r:
        r["cl"] = [dict(c, n=num(c["n"]), lab=seq(c["lab"])) for c in r["cl"]]
    if "buf" in r:
        r["buf"] = [seq(b) for b in r["buf"]]
    return r


def steps(calls, outs, M=1):
    res = []; ids = {}
    for v, r in zip(calls, outs):
        if M > 1 and "crash" not in r:
            r = narrow(r, M, ids)
        e = dict(v)
        e.update(DEF)
        if "crash" in r:
            e["crash"] = 1
            res.append(e)
            break
        for k in ("ec", "out", "outnull", "r", "over", "term", "pre", "used", "optsame", "live", "live0", "cl", "null", "buf", "zero", "hit", "isnull", "def"):
            if k in r:
                e[k] = r[k]
        if v["c"] == "info":
            e["on"], e["ok"] = r["n"], r["k"]
        if v["c"] == "check":
            e["ok"] = r["ok"]
        if v["c"] == "err":
            e["msg"] = r["fullmsg"]
            e["text"] = r["fullmsg"].split(") ", 1)[-1]
            e["r2"] = r["r2"]
        if v["c"] == "reset":
            e["cl"], e["null"], e["buf"] = DEF["cl"], DEF["null"], DEF["buf"]
        res.append(e)
    return {"steps": res}


def sized(calls):
    """the number of points each call's options are meant for (follows the generator)"""
    n = {}; out = []
    for v in calls:
        v = dict(v, nn=(n.get(v["s"], 0) or 6))
        fine = not v["onull"] and not v["nbig"] and v["n"]
        if v["c"] in ("empty", "exist") and fine and not (v["c"] == "exist" and (v["kbig"] or not v["k"] or not v["b"])):
            n[v["s"]] = v["n"]
        elif v["c"] == "copy" and not v["onull"] and n.get(v["s"]):
            n[v["t"]] = n[v["s"]]
        elif v["c"] == "free" and not v["pnull"]:
            n[v["s"]] = 0
        out.append(v)
    return out


def go(ctx, name, mode, num, depth, seed, M=1, drop=()):
    sess = generate(mode, num, depth, seed)
    rng = ctx.rng(name)
    items = []
    if mode == "C22":      # several sessions one after the other in a process: the error state outlives the objects
        sess = [close(with_reads(s, rng)) for s in sess]
        joined = [sum(sess[i:i + 4], []) for i in range(0, len(sess), 4)]
    else:
        joined = [close(s) for s in sess]
    for i, calls in enumerate(joined):
        cfg = CFGS[i % len(CFGS)]
        if cfg == "wide":       # 64-bit labels: every number of clusters is representable
            calls = [dict(v, kbig=0, k=0) if v["c"] == "exist" and v["kbig"] else v for v in calls]
        if M > 1:
            calls = sized([v for v in calls if v["c"] not in drop])
        items.append({"calls": calls, "cfg": cfg, "lines": [to_line(v, rng, cfg, M) for v in calls]})
    for cfg in CFGS:
        sub = [it for it in items if it["cfg"] == cfg]
        for it, o in zip(sub, vf.run_driver(ctx.exe(cfg), [it["lines"] for it in sub], sessions=True)):
            it["case"] = steps(it["calls"], o, M)
            it["src"] = {"cfg": cfg, "session": it["lines"]}
    nst = sum(len(it["case"]["steps"]) for it in items)
    fails = {}
    for it in items:
        for e in it["case"]["steps"]:
            fails[e["ec"]] = fails.get(e["ec"], 0) + 1
    ctx.conform(name, "Trace_Lib.tla", "Trace_Lib.cfg", items, lambda it: steps(it["calls"], vf.run_driver(ctx.exe(it["cfg"]), [it["lines"]], sessions=True)[0], M),
                calls=nst, calls_by_code=fails)


OPT = {"null": 0, "ver": 1, "size": 2, "nt": 0, "ntbig": 0, "tcnull": 1, "tc": [], "ltl": 0, "tlnull": 1, "tl": [], "sm": 0, "lpp": 0, "ppnull": 1, "pp": [],
       "pum": 0, "sum": 0, "sr": 0, "srs": 1, "pr": 2, "prs": 1, "secr": 2, "secrs": 1, "defo": 0}
CALL = {"c": "", "s": 1, "t": 1, "d": 1, "b": 0, "n": 0, "nbig": 0, "k": 0, "kbig": 0, "deep": 1, "onull": 0, "pnull": 0, "nnull": 0, "knull": 0, "len": 0, "dims": 1, "anull": 0,
        "i": 0, "x": 0, "v": [], "clnull": 0, "dsnull": 0, "size": 2, "ba": 0, "fa": 0, "fs": 0, "tags": [], "o": OPT, "arcs": 32}
# largest number of points and of clusters per type configuration (the driver reports these values as codes)
NMAX = {"default": "4294967295", "wide": "18446744073709551614", "int_min": "2147483647", "int_mna": "2147483647", "int_max": "18446744073709551614"}
KMAX = {"default": "4294967295", "wide": "18446744073709551615", "int_min": "2147483647", "int_mna": "2147483647", "int_max": "2147483647"}
CODE = {"4294967295": 1000000001, "2147483647": 1000000002, "18446744073709551615": 1000000003, "18446744073709551614": 1000000004}


def limit_sessions(cfg, rng):
    """calls at the limits of the integer types; every entry is (call record, driver line)"""
    arcs = 32 if cfg in ("default", "int_min", "int_max") else 64
    ss = []
    def sess():
        q = []; ss.append(q)
        def add(c, line=None, **kw):
            v = dict(CALL, c=c, arcs=arcs, **kw)
            q.append((v, line or to_line(v, rng, cfg)))
        return add
    nm, km = NMAX[cfg], KMAX[cfg]
    n1, k1 = str(int(nm) + 1), str(int(km) + 1)
    fresh = lambda add: [add("ds", d=1, n=6, len=6), add("buf", b=1, v=[rng.randint(-1, 2) for _ in range(6)])]
    reads = lambda add, s: [add("info", s=s), add("labels", s=s, len=rng.choice([1, 4, 6, 9])), add("info", s=s, nnull=1), add("info", s=s, knull=1)]
    # the largest number of points
    add = sess(); fresh(add)
    for b in (0, 1):
        add("empty", "s_empty s=0 b=%d n=%s onull=0" % (b - 1, n1), s=1, n=0, nbig=1, b=b)
        if b == 0:
            add("empty", "s_empty s=0 b=-1 n=%s onull=0" % nm, s=1, n=CODE[nm])
            reads(add, 1)
            add("copy", s=1, t=2); reads(add, 2)
            add("hier", s=1, d=1, size=2); add("sc", s=2, d=1); add("check", s=1); add("stats", s=2, d=1)
            add("sc", s=1, d=1, o=dict(OPT, size=rng.choice([1, 2]), sm=rng.choice([0, 1, 2, 5])))
            add("free", s=1); add("info", s=2); add("free", s=2)
    add("exist", "s_exist s=0 b=0 n=%s k=2 deep=1 onull=0" % n1, s=1, nbig=1, k=2, b=1)
    add("ds", "s_ds d=1 geo=sq n=6 dims=1 x=1,2,3,4,5,6 an=%s adims=1 alen=6 anull=0 onull=0" % n1, d=2, nbig=1, len=6)
    add("ds", "s_ds d=1 geo=sq n=6 dims=1 x=1,2,3,4,5,6 an=%s adims=1 alen=6 anull=0 onull=0" % nm, d=2, n=CODE[nm], len=6)
    add("isds", d=2)
    # the largest number of clusters
    for deep in (0, 1):
        add = sess(); fresh(add)
        if cfg != "wide":
            add("exist", "s_exist s=0 b=0 n=6 k=%s deep=%d onull=0" % (k1, deep), s=1, n=6, kbig=1, b=1, deep=deep)
        add("exist", "s_exist s=0 b=0 n=6 k=%s deep=%d onull=0" % (km, deep), s=1, n=6, k=CODE[km], b=1, deep=deep)
        reads(add, 1); add("copy", s=1, t=2); reads(add, 2)
        add("sc", s=1, d=1); add("hier", s=1, d=1, size=7); add("hier", s=1, d=1, size=1)
        add("poke", b=1, i=2, x=0); reads(add, 1); reads(add, 2)
        add("free", s=1); reads(add, 2)
    # dimensions
    add = sess()
    for dims, n in ((65536, 1), (65535, 1), (65535, 3), (65536, 3), (70000, 2)):
        x = lst([rng.randint(0, 9) for _ in range(n * dims)])
        add("ds", "s_ds d=1 geo=sq n=%d dims=%d x=%s an=%d adims=%d alen=%d anull=0 onull=0" % (n, dims, x, n, dims, n * dims), d=2, n=n, dims=dims, len=n * dims)
        add("isds", d=2); add("freeds", d=2)
        add("ds", "s_ds d=1 geo=sq n=%d dims=%d x=%s an=%d adims=%d alen=%d anull=0 onull=0" % (n, dims, x, n, dims, n * dims - 1), d=2, n=n, dims=dims, len=n * dims - 1)
        add("isds", d=2); add("freeds", d=2)
    add("ds", "s_ds d=1 geo=sq n=2 dims=1 x=1,2 an=2 adims=4294967295 alen=2 anull=0 onull=0", d=2, n=2, dims=1000000000, len=2)
    # types
    add = sess(); fresh(add)
    for nt in (65535, 65536, 65537, 65536 * 2 + 2, 4294967295):
        for sm in (0, 3):
            add("empty", s=1, n=6)
            if nt <= 65535:
                tl = [rng.choice([0, 1, nt - 1]) for _ in range(7)]; tl[0] = nt - 1
                o = dict(OPT, nt=nt, tcnull=0, tc=[0] * nt, ltl=6, tlnull=0, tl=tl, sm=sm)
                o["tc"][nt - 1] = 1
            else:
                o = dict(OPT, nt=2, ntbig=1, tcnull=0, tc=[1, 1], ltl=6, tlnull=0, tl=[0, 1, 0, 1, 0, 1, 0], sm=sm)
            l = "s_sc s=0 d=0 clnull=0 dsnull=0 onull=0 " + opt_line(o, rng)
            add("sc", re.sub(r"nt=\d+", "nt=%d" % nt, l, 1), s=1, d=1, o=o)
            add("free", s=1)
    # problems whose graph cannot be numbered or held
    add = sess()
    for n, sizes in ((70000, (65536,)), (65537, (65535, 65536, 65535)), (65536, (65536,))):    # 65537 * 65535 = 2^32 - 1
        x = lst([rng.randint(0, 40) for _ in range(n)])
        add("ds", "s_ds d=0 geo=sq n=%d dims=1 x=%s an=%d adims=1 alen=%d anull=0 onull=0" % (n, x, n, n), d=1, n=n, len=n)
        add("empty", s=1, n=n)
        for size in sizes:
            for sm in (0, 2, 3, 4, 5) if n == 70000 else (rng.choice([0, 2, 3]), rng.choice([4, 5])):
                add("sc", s=1, d=1, o=dict(OPT, size=size, sm=sm))
                add("info", s=1)
        add("freeds", d=1); add("free", s=1)
    return ss


def limits(ctx):
    """sessions at the limits of the integer types"""
    rng = ctx.rng("limits")
    items = []
    for cfg in CFGS:
        for q in limit_sessions(cfg, rng):
            tail = [dict(CALL, c="free", s=s) for s in range(1, 5)] + [dict(CALL, c="freeds", d=d) for d in range(1, 5)] + [dict(CALL, c="reset")]
            q = q + [(v, to_line(v, rng, cfg)) for v in tail]
            items.append({"cfg": cfg, "calls": [v for v, _ in q], "lines": [l for _, l in q]})
    run = lambda it: steps(it["calls"], vf.run_driver(ctx.exe(it["cfg"]), [it["lines"]], sessions=True)[0])
    with ThreadPoolExecutor(vf.NPROC) as ex:
        for it, c in zip(items, ex.map(run, items)):
            it["case"] = c
            it["src"] = {"cfg": it["cfg"], "session": it["lines"]}
    ctx.conform("calls at the limits of the integer types", "Trace_Lib.tla", "Trace_Lib.cfg", items, run, calls=sum(len(it["case"]["steps"]) for it in items), chunk=1)


def _c(mode, q, t):
    def f(ctx):
        ctx.build()
        ctx.model("MC_Lib.tla", "MC_Lib_q.cfg" if ctx.quick else "MC_Lib.cfg")
        n, d = ctx.size(q, t)
        go(ctx, "sessions generated from the specification", mode, n, d, ctx.seed)
        if mode == "C17":
            go(ctx, "generated sessions with every point replaced by a block of points", mode, ctx.size(80, 800), 70, ctx.seed + 31, M=110, drop=("sc", "hier", "stats", "check"))
        if mode in ("C13", "C17"):
            limits(ctx)
        if mode == "C13":
            go(ctx, "generated sessions with every point replaced by a block of points", mode, ctx.size(100, 800), 60, ctx.seed + 31, M=30)
        if mode != "C13" and mode != "C22":
            go(ctx, "mixed sessions generated from the specification", "C22", n // 3, d, ctx.seed + 77)
    return f


C13 = _c("C13", (480, 60), (4000, 80))
C17 = _c("C17", (400, 70), (3000, 120))
C21 = _c("C21", (320, 60), (2500, 100))
C22 = _c("C22", (320, 60), (2500, 100))
