"""C14 (allocation faults) and C15 (provider faults) against the specification Faults; C16 (provider contract)."""
import gen, vf
from core import run_lines
from nng import CFGS
from batchhier import rand_input


def xrec(r):
    """what a call reported besides the clustering, as strings"""
    if "ok" in r:
        return [str(r["ok"])]
    if "st" in r:
        return ["0" if v == 0 else repr(v) for v in r["st"].values()]
    if "made" in r:
        m = r["made"]
        return [str(m["init"]), str(m.get("n", 0)), str(m.get("k", 0))] + [str(v) for v in m.get("lab", [])]
    return []


def scenario(rng, nmax, op=None, be=None, edge=False):
    n = rng.randint(2, nmax)
    op = op or rng.choice(["nng"] * 9 + ["hier"] * 4 + ["check", "stats", "stats", "copy", "mkempty", "mkexist", "mkds"])
    be = be or rng.choice(["spi", "imp"])
    if op == "mkds":
        be = "imp"
    geo = gen.rand_geo(rng, n, imp=be == "imp")
    D = gen.dist_matrix(geo)
    kw = {}
    if op == "nng":
        o = gen.rand_opts(rng, geo, D, max_size=min(n, 5), sms=[0, 1, 2, 3, 4, 5], est=True)
        if o["sm"] == 1:
            for k in ("nt", "tl", "tc", "prv", "secrv"):
                o.pop(k, None)
            o["pr"] = 2; o["secr"] = 2; o["sum"] = 0; o["pum"] = o["pum"] % 2; o["batch"] = rng.choice([0, 1, 2, n])
        if rng.random() < .3:
            kw["ext"] = 1
    elif op == "hier":
        size = rng.randint(2, max(2, n // 2)) if rng.random() < .9 else n
        o = {"size": size, "ba": rng.randint(0, 1)}
        if rng.random() < .55:
            o["in"], o["k0"] = rand_input(rng, n, size); kw["deep"] = rng.randint(0, 1)
        elif rng.random() < .3:
            kw["ext"] = 1
    else:
        o = {"size": 2}
        if op in ("check", "stats", "mkexist") or (op == "copy" and rng.random() < .7):
            o["in"], o["k0"] = rand_input(rng, n, 2); kw["deep"] = rng.randint(0, 1)
        if op == "check" and rng.random() < .5:
            o["nt"] = 2; o["tc"] = [1, 0]; o["tl"] = [rng.randrange(2) for _ in range(n)]
    return gen.line(op, geo, o, be, **kw), be == "imp"


def deep_hier(rng):
    """stack growth during the splits: the growth allocation is among the faulted ones"""
    n = rng.randint(420, 520)
    x, v = [], 1.0
    for i in range(n):
        x.append(v); v *= 1.3
    geo = {"n": n, "geo": "line", "dims": 1, "x": x, "prio": list(range(n))}
    return gen.line("hier", geo, {"size": 2, "ba": rng.randint(0, 1), "in": [0] * n, "k0": 1}, "imp", deep=1)


def explode(it, r):
    """one TLC case per faulted run"""
    cases = []
    if "crash" in r:
        return [({"crash": 1, "ev": [[0, 0]], "base": {}, "lib": it["lib"]}, r.get("fi", 0))]
    base = {"ec": r["ec"], "after": r["after"], "x": xrec(r)}
    for f in r["faults"]:
        c = {"crash": 0, "ev": f["ev"], "base": base, "lib": it["lib"], "before": r["before"], "after": f["after"], "x": xrec(f)}
        c["after2"] = f.get("after2", f["after"]); c["x2"] = xrec(f.get("x2", {}))
        cases.append((c, f["i"]))
    return cases


def run(ctx, name, scens, kind, cap=None):
    """scens: (line, lib, cfg)"""
    items = [{"line": l + " fk=%s flog=1" % kind, "cfg": c, "lib": lib} for l, lib, c in scens]
    run_lines(ctx, items)
    cases = []
    for it in items:
        for c, i in explode(it, it["out"]):
            cases.append({"case": c, "src": {"cfg": it["cfg"], "line": it["line"], "fault": i, "crash": it["out"].get("msg")}, "it": it, "i": i})
    def rerun(cs):
        a = [dict(cs["it"])]
        run_lines(ctx, a)
        for c, i in explode(a[0], a[0]["out"]):
            if i == cs["i"] or c["crash"]:
                return c
        return {"crash": 1, "ev": [[0, 0]], "base": {}, "lib": True}
    hit = sum(1 for c in cases if c["case"]["crash"] or any(e[0] in (2, 6) for e in c["case"]["ev"]))
    ctx.cov["evaluations"] = ctx.cov.get("evaluations", 0) + len(cases)
    ctx.cov["distinct_nontrivial"] = ctx.cov.get("distinct_nontrivial", 0) + hit
    soft = sum(1 for c in cases if not c["case"]["crash"] and any(e[0] == 2 for e in c["case"]["ev"]) and [e for e in c["case"]["ev"] if e[0] == 9][0][1] == c["case"]["base"]["ec"])
    ctx.conform(name, "Trace_Faults.tla", "Trace_Faults.cfg", cases, rerun, scenarios=len(items), faults_hit=hit, absorbed=soft)


def C14(ctx):
    ctx.build()
    ctx.cov["rule"] = "one evaluation per (scenario, index of the failing allocation); nontrivial = the fault was reached"
    ctx.model("MC_Faults.tla", "MC_Faults_q.cfg" if ctx.quick else "MC_Faults.cfg")
    q = ctx.quick
    rng = ctx.rng("a")
    run(ctx, "every single allocation fails", [scenario(rng, 12) + (rng.choice(CFGS),) for _ in range(700 if q else 6000)], "alloc")
    rng = ctx.rng("s")
    run(ctx, "all allocations fail from some point on", [scenario(rng, 12) + (rng.choice(CFGS),) for _ in range(350 if q else 3500)], "allocs")
    rng = ctx.rng("l")
    run(ctx, "larger inputs", [scenario(rng, 60, op=rng.choice(["nng", "nng", "hier"])) + (rng.choice(CFGS),) for _ in range(60 if q else 800)], "alloc")
    rng = ctx.rng("d")
    run(ctx, "growth of the split stack fails", [(deep_hier(rng), True, "default") for _ in range(2 if q else 12)], "alloc")


def C15(ctx):
    ctx.build()
    ctx.cov["rule"] = "one evaluation per (scenario, index of the failing provider call); nontrivial = the fault was reached"
    ctx.model("MC_Faults.tla", "MC_Faults_q.cfg" if ctx.quick else "MC_Faults.cfg")
    q = ctx.quick
    rng = ctx.rng("a")
    run(ctx, "every single provider call fails", [scenario(rng, 14, op=rng.choice(["nng"] * 5 + ["hier"] * 3 + ["stats"]), be="spi") + (rng.choice(CFGS),) for _ in range(2500 if q else 20000)], "cb")
    rng = ctx.rng("b")
    run(ctx, "larger inputs", [scenario(rng, 40, op=rng.choice(["nng", "hier", "stats"]), be="spi") + (rng.choice(CFGS),) for _ in range(300 if q else 2000)], "cb")


# ------------------------------------------------------------------ C16
def plog(it, r):
    if "crash" in r:
        return {"crash": 1, "n": it["n"], "log": []}
    return {"crash": 0, "n": it["n"], "log": r["log"]}


def provider(ctx, name, scens):
    items = [{"line": l + " log=1" + (" cbf=%d" % f if f else ""), "cfg": c, "n": int(l.split(" n=")[1].split()[0])} for l, c, f in scens]
    run_lines(ctx, items)
    for it in items:
        it["case"] = plog(it, it["out"]); it["src"] = {"cfg": it["cfg"], "line": it["line"], "msg": it["out"].get("msg")}
    def rerun(it):
        a = [dict(it)]
        run_lines(ctx, a)
        return plog(it, a[0]["out"])
    ev = {}
    for it in items:
        for e in it["case"]["log"]:
            ev[e["e"]] = ev.get(e["e"], 0) + 1
    ctx.conform(name, "Trace_Provider.tla", "Trace_Provider.cfg", items, rerun, events=ev)


def C16(ctx):
    ctx.build()
    ctx.model("MC_Provider.tla", "MC_Provider_q.cfg" if ctx.quick else "MC_Provider.cfg")
    q = ctx.quick
    ops = ["nng"] * 6 + ["hier"] * 3 + ["stats"]
    rng = ctx.rng("a")
    provider(ctx, "small inputs", [(scenario(rng, 14, op=rng.choice(ops), be="spi")[0], rng.choice(CFGS), 0) for _ in range(4000 if q else 30000)])
    rng = ctx.rng("f")
    provider(ctx, "a provider call fails", [(scenario(rng, 12, op=rng.choice(ops), be="spi")[0], rng.choice(CFGS), rng.choice([1, 2, 2, 3, 3, 4, 5, 7])) for _ in range(2000 if q else 15000)])
    rng = ctx.rng("b")
    provider(ctx, "larger inputs", [(scenario(rng, 70, op=rng.choice(ops), be="spi")[0], rng.choice(CFGS), 0) for _ in range(500 if q else 5000)])
    rng = ctx.rng("c")
    big = []
    for _ in range(20 if q else 150):
        n = rng.randint(220, 500)
        geo = gen.rand_geo(rng, n, kinds=("line",), spread=400)
        lab, k0 = rand_input(rng, n, 3)
        o = {"size": rng.randint(2, 60), "ba": rng.randint(0, 1)}
        if rng.random() < .5:
            o["in"] = lab; o["k0"] = k0
        big.append((gen.line("hier", geo, o, "spi"), rng.choice(CFGS), 0))
    provider(ctx, "clusters above the centre-sampling threshold", big)
