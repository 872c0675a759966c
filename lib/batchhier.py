"""C09 (BATCHES) and C10-C12 (hierarchical clustering)."""
import gen
from core import run_lines
from nng import outcome, CFGS


def multi(ctx, items, build):
    """items with several driver lines; build(item, replies) -> TLC case"""
    flat = [{"line": l, "cfg": c, "it": k} for k, it in enumerate(items) for l, c in it["lines"]]
    run_lines(ctx, flat)
    out = [[] for _ in items]
    for f in flat:
        out[f["it"]].append(f["out"])
    for it, rs in zip(items, out):
        it["case"] = build(it, rs)
        it["src"] = {"lines": it["lines"], "replies": rs}
    return items


def multi_rerun(ctx, build):
    def f(it):
        a = [dict(it)]
        multi(ctx, a, build)
        return a[0]["case"]
    return f


# ------------------------------------------------------------------ C09
def _batch_case(it, rs):
    return {"x": it["x"], "runs": [outcome(r) for r in rs]}


def batch_items(ctx, tag, count, nmin, nmax):
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        n = rng.randint(nmin, nmax)
        imp = rng.random() < .35
        geo = gen.tie_free_geo(rng, n) if imp else gen.rand_geo(rng, n)
        D = gen.dist_matrix(geo)
        o = {"size": rng.choice([s for s in (2, 2, 3, 3, 4, 5) if s <= n]), "sm": 1, "pum": rng.choice([0, 1, 1]), "pr": 2, "secr": 2}
        if rng.random() < .45:
            o["pp"] = sorted(rng.sample(range(n), rng.randint(1, n)))
        if rng.random() < .5:
            o["sr"] = 1; o["srv"] = gen.pick_radius(rng, D, geo, .05, .8)
        bs = [0, 1, 2, 3, rng.randint(1, n), n - 1 or 1, n, n + 7, 4294967295]
        bs = [0] + rng.sample(bs[1:], 4)
        cfg = rng.choice([c for c in CFGS if c != "stable"])      # "stable" may resolve a tie with the point itself in another way
        items.append({"lines": [(gen.line("nng", geo, o, "imp" if imp else "spi", batch=b, **({"ext": 1} if rng.random() < .2 else {})), cfg) for b in bs],
                      "x": gen.inst(geo, o, D)})
    return items


def C09(ctx):
    ctx.build()
    ctx.model("MC_Batch.tla", "MC_Batch_q.cfg" if ctx.quick else "MC_Batch.cfg")
    q = ctx.quick
    for name, tag, cnt, a, b in (("small instances x 5 batch sizes", "a", 700 if q else 6000, 2, 11), ("larger instances x 5 batch sizes", "b", 60 if q else 600, 15, 40)):
        its = multi(ctx, batch_items(ctx, tag, cnt, a, b), _batch_case)
        ctx.conform(name, "Trace_Batch.tla", "Trace_Batch.cfg", its, multi_rerun(ctx, _batch_case))
    import big
    n, lo, hi = ctx.size((15, 200, 2500), (150, 200, 7000))
    big.stage(ctx, n, lo, hi)


# ------------------------------------------------------------------ C10 - C12
def _hier_case(it, rs):
    return dict(outcome(rs[0]), h=it["h"])


def hier_line(geo, be, size, ba, lab0=None, k0=0, **kw):
    o = {"size": size, "ba": ba}
    if lab0 is not None:
        o["in"] = lab0; o["k0"] = k0
    return gen.line("hier", geo, o, be, **kw)


def rand_input(rng, n, size):
    """labels of an existing clustering: unassigned points, empty labels, small and large clusters"""
    k = rng.choice([1, 1, 2, 2, 3, 4, max(1, n // 3)])
    k0 = k + rng.choice([0, 0, 0, 1, 2])
    w = [rng.random() ** 2 + .02 for _ in range(k)]
    labs = rng.sample(range(k0), k)
    lab = [labs[i] for i in rng.choices(range(k), w, k=n)]
    if rng.random() < .5:
        for p in range(n):
            if rng.random() < .2:
                lab[p] = -1
    return lab, k0


def hier_items(ctx, tag, count, nmin, nmax, existing, full=False, tiefree=False, big=False):
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        n = rng.randint(nmin, nmax)
        imp = rng.random() < .45 and not (tiefree and n > 60)
        if tiefree:
            geo = distinct_geo(rng, n, imp)
        else:
            geo = gen.rand_geo(rng, n, imp=imp, **({"kinds": ("line", "sq", "l1"), "spread": rng.choice([3, 60, 5000])} if big else {}))
            if rng.random() < .12:   # everything identical
                if geo["geo"] == "mat":
                    geo["m"] = [rng.choice([0, 3])] * len(geo["m"])
                else:
                    geo["x"] = [5] * len(geo["x"])
        size = rng.randint(2, max(2, min(n, rng.choice([3, 3, 4, 6, n if not big else min(n, 330)]))))
        ba = rng.randint(0, 1)
        ex = existing if existing is not None else rng.random() < .4
        lab0, k0 = rand_input(rng, n, size) if ex else (None, 0)
        h = {"n": n, "size": size, "batch": bool(ba), "k0": k0, "lab0": lab0 or []}
        if full:
            D = gen.dist_matrix(geo)
            h["D"] = D; h["prio"] = [p + 1 for p in geo["prio"]]; h["ord"] = gen.orders(D, geo["prio"])
        cfg = rng.choice(CFGS)
        items.append({"lines": [(hier_line(geo, "imp" if imp else "spi", size, ba, lab0, k0, deep=rng.randint(0, 1)), cfg)], "h": h})
    return items


def distinct_geo(rng, n, imp):
    """all pairwise distances different"""
    for _ in range(2000):
        if not imp:
            v = list(range(1, n * (n - 1) // 2 + 1)); rng.shuffle(v)
            if rng.random() < .4:
                # a long chain of ever farther points: finding two points that are each farthest from the other takes many steps
                odd = list(range(1, n, 2)); even = list(range(0, n, 2)); rng.shuffle(even)
                if rng.random() < .5:
                    rng.shuffle(odd)
                ch = (even[:1] + odd + even[1:])[:rng.randint(2, n)] if rng.random() < .7 else rng.sample(range(n), n)
                top = len(ch) - 1; m = n * (n - 1) // 2
                at = lambda a, b: max(a, b) * (max(a, b) - 1) // 2 + min(a, b)
                cells = [at(a, b) for a, b in zip(ch, ch[1:])]
                low = iter(rng.sample(range(1, m - top + 1), m - top)); v = [0] * m
                for j, c in enumerate(cells):
                    v[c] = m - top + 1 + j
                v = [x or next(low) for x in v]
            return {"n": n, "geo": "mat", "dims": 1, "m": v, "prio": rng.sample(range(n), n)}
        if rng.random() < .5:
            g = {"n": n, "geo": "line", "dims": 1, "x": [rng.randint(0, 40 * n * n) for _ in range(n)], "prio": list(range(n))}
        else:
            g = {"n": n, "geo": "sq", "dims": 2, "x": [rng.randint(0, 200 + 20 * n) for _ in range(2 * n)], "prio": list(range(n))}
        D = gen.dist_matrix(g)
        v = [D[a][b] for a in range(n) for b in range(a)]
        if len(set(v)) == len(v) and 0 not in v:
            return g
    raise RuntimeError("no distinct geometry")


def deep_line(n, rev):
    """geometric 1-D data: each split cuts off few points, so the stack of pending clusters gets deep"""
    x, v = [], 1.0
    for i in range(n):
        x.append(v); v *= 1.3
    if rev:
        x.reverse()
    return {"n": n, "geo": "line", "dims": 1, "x": x, "prio": list(range(n))}


def deep_items(ctx, tag, count, existing):
    rng = ctx.rng(tag)
    its = []
    for i in range(count):
        n = rng.randint(420, 640)
        geo = deep_line(n, i & 1)
        lab0, k0 = ([0] * n, 1) if existing and i % 3 else (rand_input(rng, n, 2) if existing else (None, 0))
        h = {"n": n, "size": 2, "batch": False, "k0": k0, "lab0": lab0 or []}
        its.append({"lines": [(hier_line(geo, ["imp", "spi"][(i >> 1) & 1], 2, (i >> 2) & 1, lab0, k0), "default")], "h": h})
    return its


def run(ctx, name, its, **kw):
    multi(ctx, its, _hier_case)
    ctx.conform(name, "Trace_Hier.tla", "Trace_Hier.cfg", its, multi_rerun(ctx, _hier_case), **kw)


def C10(ctx):
    ctx.build()
    ctx.model("MC_Hier.tla", "MC_Hier_q.cfg" if ctx.quick else "MC_Hier_6.cfg")
    q = ctx.quick
    run(ctx, "small, empty input", hier_items(ctx, "a", 2000 if q else 20000, 2, 14, False))
    run(ctx, "larger, empty input", hier_items(ctx, "b", 400 if q else 4000, 20, 120, False))
    run(ctx, "large (centre sampling)", hier_items(ctx, "c", 24 if q else 200, 210, 450, False))
    run(ctx, "very large", hier_items(ctx, "e", 16 if q else 120, 700, 2500, False, big=True))
    run(ctx, "deep stacks", deep_items(ctx, "d", 16 if q else 60, False))


def C11(ctx):
    ctx.build()
    ctx.model("MC_Hier.tla", "MC_Hier_q.cfg" if ctx.quick else "MC_Hier_6.cfg")
    q = ctx.quick
    run(ctx, "small, existing input", hier_items(ctx, "a", 2000 if q else 20000, 2, 14, True))
    run(ctx, "larger, existing input", hier_items(ctx, "b", 400 if q else 4000, 20, 120, True))
    run(ctx, "large (centre sampling)", hier_items(ctx, "c", 24 if q else 200, 210, 450, True))
    run(ctx, "very large", hier_items(ctx, "e", 16 if q else 120, 700, 2500, True, big=True))
    run(ctx, "deep stacks", deep_items(ctx, "d", 16 if q else 60, True))


def C12(ctx):
    ctx.build()
    ctx.model("MC_Hier.tla", "MC_Hier_q.cfg" if ctx.quick else "MC_Hier.cfg")
    q = ctx.quick
    run(ctx, "small, distinct distances", hier_items(ctx, "a", 1200 if q else 10000, 4, 12, None, full=True, tiefree=True))
    run(ctx, "larger, distinct distances", hier_items(ctx, "b", 120 if q else 1200, 16, 40, None, full=True, tiefree=True))
    run(ctx, "cluster above the centre-sampling threshold", hier_items(ctx, "c", 8 if q else 60, 205, 330, None, full=True, tiefree=True), chunk=1)
