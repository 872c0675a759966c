"""C25: the neighbour search of examples/ann in place of the built-in one."""
import os, re
import vf, gen, nng, internals, big
CFGS = ["default", "wide", "int_min", "int_mna", "int_max"]


def avoid_known(cfg, sess):
    """keeps the recorded defects (KNOWN_FINDINGS.txt) out of a session: failing allocations, and with int point
    indices the search without radius over all points, which gets its search indices spelled out instead"""
    x, st = sess
    st = [dict(s, line=re.sub(r" f[as]=\d+", "", s["line"]) if s["op"] in ("dinn", "dsnn") else s["line"]) for s in st]
    if cfg in ("ann_int_min", "ann_int_mna"):
        op = {}
        for s in st:
            if s["op"] == "dinn":
                op[s["id"]] = s
            elif s["op"] == "dsnn" and s["rr"] == -1:
                o = op[s["id"]]
                o["line"] = re.sub(r"c=null nc=\d+", "c=" + ",".join(map(str, o["c"])), o["line"])
    return x, st


def known(ctx):
    """the recorded defects themselves: a line for each that is still there"""
    x = [[0], [3], [7]]; head = {"op": "dset", "line": "dset n=3 dims=1 sc=1.0 off=0.0 x=0,3,7"}
    a = {"op": "dinn", "line": "dinn id=0 c=null nc=3", "id": 0, "c": [0, 1, 2]}; z = {"op": "dcnn", "line": "dcnn id=0", "id": 0}
    f = {"op": "dsnn", "line": "dsnn id=0 q=null nq=3 k=2 rr=-1 wq=1 junk=0.0", "id": 0, "q": [0, 1, 2], "k": 2, "rr": -1, "wq": 1}
    cases = {"int-search-twice": ("ann_int_mna", [head, a, f, z]),
             "no-memory": ("ann_default", [head, a] + [dict(f, line=f["line"] + " fa=%d" % i) for i in (1, 2, 3, 4)] + [z])}
    for l in open(os.path.join(vf.ROOT, "KNOWN_FINDINGS.txt")):
        if l.startswith("known: property=C25 "):
            tag, text = l.split(" ", 3)[2:]
            cfg, st = cases[tag]
            out = internals.run_sessions(ctx, [(cfg, st)], lambda s: s["line"])[0]
            rej, n, g = vf.tlc_cases("Trace_Dist.tla", "Trace_Dist.cfg", [internals.dist_case((x, st), out)], {"PROP": "C25"})
            ctx.stage("recorded finding " + tag, still_there=bool(rej))
            if rej:
                print("KNOWN-FINDING: property=C25 " + tag + " " + text.strip(), flush=True)


def C25(ctx):
    q = ctx.quick
    ctx.build(["ann_" + c for c in CFGS])
    ctx.model("MC_Dist.tla", "MC_Dist_q.cfg" if q else "MC_Dist.cfg")
    for name, tag, cnt, nmax, length, dmax in (("random search sessions, few points", "a", 700 if q else 8000, 8, 30, 12), ("random search sessions, more points and dimensions", "b", 90 if q else 1200, 45, 16, 40),
                                               ("random search sessions, many points", "c", 16 if q else 200, 220, 10, 6)):
        rng = ctx.rng(tag)
        sess = [("ann_" + rng.choice(CFGS), internals.dist_session(rng, nmax, length, dmax, nn=.9)) for _ in range(cnt)]
        internals.dist_stage(ctx, name, [(c, avoid_known(c, s)) for c, s in sess])
    for name, tag, cnt, lo, hi, kw in (("clusterings of small tie-free data sets", "n", 700 if q else 8000, 2, 11, {}), ("clusterings of larger tie-free data sets", "m", 60 if q else 800, 12, 24, {"sms": [0, 2, 4, 5], "max_size": 5})):
        rng = ctx.rng(tag)
        items = []
        for i in range(cnt):
            geo = gen.tie_free_geo(rng, rng.randint(lo, hi)); D = gen.dist_matrix(geo); o = gen.rand_opts(rng, geo, D, **kw)
            items.append(nng.mk("nng", geo, o, "imp", "ann_" + rng.choice(CFGS), gen.inst(geo, o, D)))
        nng.conf(ctx, name, items)
    known(ctx)
    big.stage(ctx, *ctx.size((24, 200, 1500), (120, 200, 6000)))
