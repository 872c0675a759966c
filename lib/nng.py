"""C01-C08: scc_sc_clustering against the specification Nng."""
import gen, vf
from core import run_lines

CFGS = ["default", "wide", "int_min", "int_mna", "int_max", "stable"]


def outcome(r):
    if "crash" in r:
        return {"crash": 1, "ec": -1, "k": 0, "lab": []}
    return {"crash": 0, "ec": r["ec"], "k": r["after"]["k"], "lab": r["after"]["lab"]}


def mk(cmd, geo, o, be, cfg, x, **kw):
    return {"line": gen.line(cmd, geo, o, be, **kw), "cfg": cfg, "x": x}


def finish(ctx, items):
    run_lines(ctx, items)
    for it in items:
        it["case"] = dict(outcome(it["out"]), x=it["x"])
        it["src"] = {"cfg": it["cfg"], "line": it["line"], "reply": it["out"]}
    return items


def rerun(ctx):
    def f(it):
        a = [dict(it)]
        run_lines(ctx, a)
        return dict(outcome(a[0]["out"]), x=it["x"])
    return f


def conf(ctx, name, items, **info):
    finish(ctx, items)
    ec = {}
    for it in items:
        k = "crash" if it["case"]["crash"] else str(it["case"]["ec"])
        ec[k] = ec.get(k, 0) + 1
    ctx.conform(name, "Trace_Nng.tla", "Trace_Nng.cfg", items, rerun(ctx), env={"MODES": "strict"}, env2={"MODES": "both"}, codes=ec, **info)


def small(ctx, tag, count, nmax=11, full=True, ties_imp=False, nmin=2, **ok):
    """random instances: harness provider (ties broken by a random priority), built-in provider (tie-free unless ties_imp)"""
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        n = rng.randint(nmin, nmax)
        imp = rng.random() < .35
        if imp:
            geo = gen.rand_geo(rng, n, imp=True) if ties_imp else gen.tie_free_geo(rng, n)
        else:
            geo = gen.rand_geo(rng, n)
        D = gen.dist_matrix(geo)
        o = gen.rand_opts(rng, geo, D, **ok)
        if o["sm"] == 1:   # batches: no types, no leftover radii
            for k in ("nt", "tl", "tc", "prv", "secrv"):
                o.pop(k, None)
            o["pr"] = 2; o["secr"] = 2; o["sum"] = 0; o["pum"] = o["pum"] % 2; o["batch"] = rng.choice([0, 1, 2, 3, n, n + 5])
        cfg = rng.choice(CFGS) if i % 3 == 0 else "default"
        items.append(mk("nng", geo, o, "imp" if imp else "spi", cfg, gen.inst(geo, o, D, full=full)))
    return items


def hier_items(ctx, tag, count, nmax):
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        n = rng.randint(2, nmax)
        imp = rng.random() < .5
        geo = gen.rand_geo(rng, n, imp=imp)
        size = rng.randint(2, min(n, 6)) if n >= 2 else 2
        o = {"size": size, "ba": rng.randint(0, 1)}
        x = {"n": n, "size": size}
        items.append(mk("hier", geo, o, "imp" if imp else "spi", rng.choice(CFGS), x))
    return items


def tiny(ctx, tag, count, **ok):
    """a sample of ALL distance matrices over {0,1,2} on four points (3^6), every option family"""
    rng = ctx.rng(tag)
    items = []
    for c in rng.sample(range(3 ** 6), min(count, 3 ** 6)):
        m = [(c // 3 ** j) % 3 for j in range(6)]
        geo = {"n": 4, "geo": "mat", "dims": 1, "m": m, "prio": rng.sample(range(4), 4)}
        D = gen.dist_matrix(geo)
        o = gen.rand_opts(rng, geo, D, max_size=3, **ok)
        items.append(mk("nng", geo, o, "spi", "default", gen.inst(geo, o, D)))
    return items


def mc(ctx, fams):
    for f in fams:
        ctx.model("MC_Nng.tla", "MC_Nng_%s%s.cfg" % (f, "_q" if ctx.quick else ""))


def big(ctx, q, t):
    import big as b
    n, lo, hi = ctx.size(q, t)
    b.stage(ctx, n, lo, hi)


def C01(ctx):
    ctx.build()
    mc(ctx, ["order"] if ctx.quick else ["order", "prim", "second", "types"])
    q = ctx.quick
    conf(ctx, "small instances, all seed methods", small(ctx, "a", 1500 if q else 12000, 12, full=False, ties_imp=True, sms=[0, 1, 2, 3, 4, 5]))
    conf(ctx, "larger instances", small(ctx, "b", 300 if q else 3000, 90, full=False, ties_imp=True, sms=[0, 1, 2, 3, 4, 5], nmin=20, max_size=7))
    conf(ctx, "hierarchical, empty clustering", hier_items(ctx, "h", 500 if q else 4000, 60))
    big(ctx, (60, 300, 4000), (300, 300, 9000))


def C02(ctx):
    ctx.build()
    mc(ctx, ["types"])
    q = ctx.quick
    conf(ctx, "typed instances", small(ctx, "a", 1500 if q else 12000, 12, full=False, ties_imp=True, types=True, max_size=5))
    conf(ctx, "larger typed instances", small(ctx, "b", 400 if q else 4000, 70, full=False, ties_imp=True, nmin=16, types=True, max_size=7))
    big(ctx, (60, 300, 3000), (300, 300, 7000))


def C03(ctx):
    ctx.build()
    mc(ctx, ["types"] if ctx.quick else ["types", "order"])
    q = ctx.quick
    conf(ctx, "untyped, tight radii", small(ctx, "a", 1000 if q else 8000, 10, ties_imp=True, types=False, sms=[0, 1, 2, 3, 4, 5], seedr=.9))
    conf(ctx, "typed, tight radii", small(ctx, "b", 900 if q else 8000, 11, ties_imp=True, types=True, seedr=.8, max_size=5))
    conf(ctx, "larger", small(ctx, "c", 100 if q else 800, 60, ties_imp=True, nmin=20, seedr=.6))
    big(ctx, (50, 300, 3000), (200, 300, 7000))


def leftovers(ctx, fams, big=True, **ok):
    ctx.build()
    mc(ctx, fams)
    if ctx.prop == "C05" or not ctx.quick:
        ctx.model("MC_Line.tla", "MC_Line_q.cfg" if ctx.quick else "MC_Line.cfg")
    q = ctx.quick
    conf(ctx, "small instances", small(ctx, "a", 1300 if q else 12000, 10, **ok))
    conf(ctx, "all 4-point matrices", tiny(ctx, "t", 350 if q else 729, **ok))
    if big:
        conf(ctx, "larger instances", small(ctx, "b", 120 if q else 1500, 26, nmin=14, sms=[0, 2, 4, 5], max_size=5, min_size=3, **{k: v for k, v in ok.items() if k not in ("sms", "max_size")}))
    globals()["big"](ctx, (50, 200, 2500), (240, 200, 7000))


def C04(ctx):
    leftovers(ctx, ["prim"] if ctx.quick else ["prim", "second", "types"])


def C05(ctx):
    leftovers(ctx, ["prim"] if ctx.quick else ["prim", "second"], pums=(1, 2, 2, 3, 3), sums=(0, 2, 3), seedr=.5)


def C06(ctx):
    leftovers(ctx, ["order"] if ctx.quick else ["order", "types"])


def C07(ctx):
    leftovers(ctx, ["order"], pums=(0, 0, 1), sums=(0,))
    import internals, os
    if os.path.exists(vf.build("default")["driver2"]):     # the internal seed search, with the recorded seed order
        internals.seeds_stage(ctx, "seed search on arbitrary small graphs", "seeds", ctx.size(1200, 20000), 9)
        internals.seeds_stage(ctx, "seed search on arbitrary larger graphs", "seedsb", ctx.size(100, 1200), 40)
        internals.seeds_stage(ctx, "seed search on graphs with hubs", "hubs", ctx.size(7, 70), 0, hubs=True)


def C08(ctx):
    leftovers(ctx, ["second"] if ctx.quick else ["prim", "second"], pums=(1, 2, 2, 3, 3), sums=(0, 2, 3))
