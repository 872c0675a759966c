"""C18 (scc_check_clustering) and C19 (scc_get_clustering_stats) against the specification CheckStats."""
import gen, vf
from core import run_lines
from nng import CFGS

BIG = {18446744073709551615.0, 1.7976931348623157e308}


def _fix(v, scale):
    """the reported real as fixed-point number of the specification (30 binary places)"""
    if v == 1.7976931348623157e308:
        return [-9, 0, 0]
    v = v / scale
    if v != v or not 0 <= v < 2 ** 31 - 1:
        return [-7, 0, 0]
    f = int(v * 2 ** 30)
    return [f >> 30, (f >> 15) & 32767, f & 32767]


def case(it, r):
    if "crash" in r:
        return {"op": it["op"], "crash": 1, "ec": -1, "ok": 0, "same": 0, "made": False, "k": 0, "lab": [], "x": it.get("x", {})}
    c = {"op": it["op"], "crash": 0, "ec": r["ec"], "same": int(r["before"] == r["after"] and r["optsame"] and r["datasame"]),
         "k": it["k"], "lab": it["lab"], "made": it.get("made", False)}
    if it["op"] == "check":
        c["ok"] = r["ok"]; c["x"] = it["x"]
    else:
        s = r["st"]
        c["D"] = it["D"]
        c["st"] = {q: (s[q] if s[q] <= 2 ** 31 - 1 else -9) if q in ("n", "as", "k", "pop", "max") else (-9 if s[q] in BIG else int(s[q])) if q == "min" else _fix(s[q], 1 if q == "avg" else it["scale"]) for q in s}
    return c


def go(ctx, name, items, chunk=None):
    run_lines(ctx, items)
    for it in items:
        it["case"] = case(it, it["out"]); it["src"] = {"cfg": it["cfg"], "line": it["line"], "reply": it["out"]}
    def rerun(it):
        a = [dict(it)]
        run_lines(ctx, a)
        return case(it, a[0]["out"])
    kinds = {}
    for it in items:
        q = ("ok=%s" % it["case"].get("ok")) if it["op"] == "check" else "stats"
        kinds[q] = kinds.get(q, 0) + 1
    ctx.conform(name, "Trace_CheckStats.tla", "Trace_CheckStats.cfg", items, rerun, outcomes=kinds, chunk=chunk)


def balanced(rng, n, size, K, na=.15):
    """labels with cluster sizes at, just below and above the constraint"""
    tgt = [max(0, size + rng.choice([0, 0, 0, 0, 1, 1, 2, -1] if rng.random() < .5 else [0, 0, 1])) for _ in range(K)]
    lab = [c for c in range(K) for _ in range(tgt[c])][:n]
    while len(lab) < n:
        lab.append(-1 if rng.random() < na else rng.randrange(K))
    rng.shuffle(lab)
    return lab


def chk_line(n, o, lab, k, cfg, deep):
    geo = {"n": n, "geo": "mat", "dims": 1, "m": [1] * (n * (n - 1) // 2) if n < 40 else [], "prio": list(range(n))}
    return gen.line("check", geo, dict(o, **{"in": lab, "k0": k}), "spi", deep=deep)


def chk_x(n, o):
    return {"n": n, "size": o["size"], "elig": [p + 1 for p in o.get("pp") or []], "prim": o.get("pp") is not None,
            "tc": list(o.get("tc") or []), "tl": [t + 1 for t in (o.get("tl") or [])]}


def rand_check(ctx, tag, count, nmax, nmin=2):
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        n = rng.randint(nmin, nmax)
        K = rng.randint(1, max(1, min(n // 2, rng.choice([6, 6, 60, 300]) if nmin > 100 else 6)))
        size = rng.randint(2, max(2, min(n, n // K + 1)))
        lab = balanced(rng, n, size, K, rng.choice([0, 0, .2, .6]))
        o = {"size": size, "sm": rng.choice([0, 2, 3, 4, 5]), "pum": rng.choice([0, 1, 2, 3])}
        if rng.random() < .4:
            nt = rng.choice([2, 2, 3]) if nmin < 100 else rng.choice([2, 3, 9, 40, 290])
            o["nt"] = nt; o["tl"] = [rng.randrange(nt) for _ in range(n)]
            if rng.random() < .3:               # the last type occurs but little
                o["tl"] = [min(t, nt - 2) if rng.random() < .9 else t for t in o["tl"]]
            tally = {}
            for p in range(n):
                tally[o["tl"][p], lab[p]] = tally.get((o["tl"][p], lab[p]), 0) + 1
            cnt = [[tally.get((t, c), 0) for c in range(K)] for t in range(nt)]
            o["tc"] = [max(0, min(cnt[t]) + (1 if rng.random() < .12 else -rng.choice([0, 0, 0, 1]))) for t in range(nt)]
            o["size"] = max(size, sum(o["tc"]), 2) if rng.random() < .7 else max(2, sum(o["tc"]))
            o["size"] = min(o["size"], n)
        if rng.random() < .4:
            asn = [p for p in range(n) if lab[p] >= 0]
            un = [p for p in range(n) if lab[p] < 0]
            pp = rng.sample(asn, rng.randint(1, len(asn))) if asn else []
            if un and (rng.random() < .3 or not pp):
                pp.append(rng.choice(un))
            o["pp"] = sorted(pp)
        if rng.random() < .15:   # invalid labels: exactly K, beyond K, negative
            lab[rng.randrange(n)] = rng.choice([K, K, K + 1, K + 1000, -2, -3])
        cfg = rng.choice(CFGS)
        if -2 in lab and cfg not in ("int_min", "int_max"):   # the raw value -1 is the NA label there
            lab = [-3 if v == -2 else v for v in lab]
        if rng.random() < .1:
            K += 1                            # an empty cluster
        items.append({"op": "check", "line": chk_line(n, o, lab, K, cfg, rng.randint(0, 1)), "cfg": cfg, "x": chk_x(n, o), "k": K, "lab": lab})
    return items


def huge_check(ctx, tag, count):
    """more than 2^16 points: few clusters, sizes around 2^16"""
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        if i % 2 == 0:
            a = rng.choice([65535, 65536, 65537, 65540, 131072])
            b = rng.randint(3, 3000)
            lab = [0] * a + [1] * b
            size = rng.choice([a, a + 1, 65536, 2]) if b > a else rng.choice([b, b, b + 1, 2])
            K = 2
        else:
            K = 5 if i % 4 == 1 else 3
            n = 66000 + rng.randint(300, 900)
            lab = [p % K for p in range(n)]; size = n // K + (1 if rng.random() < .3 else 0)
        n = len(lab)
        if i % 4 != 1:
            rng.shuffle(lab)
        o = {"size": size, "sm": 0, "pum": 0}
        if i % 4 == 2 or i % 4 == 3:
            o["nt"] = 2; o["tl"] = [int(rng.random() < .5) for _ in range(n)]
            if i % 4 == 2:                  # one cluster: about 2^16 (2^17) points of one type, few of the other
                few = set(rng.sample([p for p in range(n) if lab[p] == 0], max(1, a % 65536 - rng.choice([0, 1, 2])) if a % 65536 < 9 else 5))
                o["tl"] = [int(lab[p] == 1 and p % 2 == 1 or p in few) for p in range(n)]
            c = [[0, 0] for _ in range(K)]
            for p in range(n): c[lab[p]][o["tl"][p]] += 1
            o["tc"] = [min(c[q][t] for q in range(K)) + (rng.random() < .2) for t in (0, 1)]
            o["size"] = max(2, sum(o["tc"]))
        if i % 4 == 0:
            o["pp"] = sorted(rng.sample(range(n), n - 7))
            if rng.random() < .5:
                lab[o["pp"][-1]] = -1
        cfg = rng.choice(CFGS)
        items.append({"op": "check", "line": chk_line(n, o, lab, K, cfg, rng.randint(0, 1)), "cfg": cfg, "x": chk_x(n, o), "k": K, "lab": lab})
    return items


def made_check(ctx, tag, count, nmax):
    """clusterings produced by the library, checked under the options that produced them"""
    rng = ctx.rng(tag)
    pre = []
    for i in range(count):
        n = rng.randint(3, nmax)
        geo = gen.rand_geo(rng, n)
        D = gen.dist_matrix(geo)
        cfg = rng.choice(CFGS)
        if rng.random() < .25:
            size = rng.randint(2, min(n, 5)); o = {"size": size, "ba": rng.randint(0, 1)}
            pre.append({"line": gen.line("hier", geo, o, "spi"), "cfg": cfg, "n": n, "o": {"size": size}})
        else:
            o = gen.rand_opts(rng, geo, D, max_size=6)
            if o.get("tc") and sum(o["tc"]) > o["size"]:
                o["size"] = sum(o["tc"])
            pre.append({"line": gen.line("nng", geo, o, "spi"), "cfg": cfg, "n": n, "o": o})
    run_lines(ctx, pre)
    items = []
    for it in pre:
        r = it["out"]
        if "crash" in r or r["ec"] != 0:
            continue
        lab, k, o, n = r["after"]["lab"], r["after"]["k"], it["o"], it["n"]
        items.append({"op": "check", "line": chk_line(n, o, lab, k, it["cfg"], 1), "cfg": it["cfg"], "x": chk_x(n, o), "k": k, "lab": lab, "made": True})
    return items


def C18(ctx):
    ctx.build()
    ctx.model("MC_CheckStats.tla", "MC_CheckStats_q.cfg" if ctx.quick else "MC_CheckStats.cfg")
    q = ctx.quick
    go(ctx, "chosen labellings", rand_check(ctx, "a", 4000 if q else 40000, 14))
    go(ctx, "larger labellings", rand_check(ctx, "b", 300 if q else 3000, 60))
    go(ctx, "very large labellings", rand_check(ctx, "c", 60 if q else 600, 2500, 300))
    go(ctx, "huge labellings (more than 2^16 points)", huge_check(ctx, "h", 8 if q else 48), chunk=1)
    go(ctx, "library-made clusterings", made_check(ctx, "m", 800 if q else 8000, 24))


def stat_items(ctx, tag, count, nmax, nmin=1, maxd=60, big=False):
    rng = ctx.rng(tag)
    items = []
    for i in range(count):
        n = rng.randint(nmin, nmax)
        imp = rng.random() < .4
        if imp:
            geo = gen.rand_geo(rng, n, kinds=("line",), spread=rng.choice([3, 10, maxd // 2]))
            geo["x"] = [min(v, maxd) for v in geo["x"]]; geo["prio"] = list(range(n))
        else:
            geo = gen.rand_geo(rng, n, kinds=("mat", "line", "l1"), spread=rng.choice([2, 9, maxd // 3]))
            if "x" in geo:
                geo["x"] = [min(v, maxd // geo["dims"]) for v in geo["x"]]
        D = [[v // 2 for v in r] for r in gen.dist_matrix(geo)]
        K = rng.choice([1, 1, 2, 3, max(1, n // 2), n, n + 2])
        if big:
            K = rng.choice([1, 2, 5, 20, 60] if big is True else big)
        mode = rng.random()
        if mode < .06:
            lab = [-1] * n
        elif mode < .2:
            lab = [c % K for c in range(n)]; rng.shuffle(lab)
        else:
            w = [rng.random() ** 3 + (.01 if rng.random() < .8 else 0) for _ in range(K)]
            lab = rng.choices(range(K), w, k=n)
            f = rng.choice([0, 0, .1, .4])
            lab = [-1 if rng.random() < f else v for v in lab]
        cfg = rng.choice(CFGS)
        scale = 2.0 ** rng.choice([0, 0, 0, 0, -60, -20, 20, 60])
        if scale != 1:
            geo = dict(geo, **{q: ["%.17g" % (v * scale) for v in geo[q]] for q in ("m", "x") if q in geo})
        items.append({"op": "stats", "scale": scale, "line": gen.line("stats", geo, {"in": lab, "k0": K}, "imp" if imp else "spi", deep=rng.randint(0, 1)), "cfg": cfg, "D": D, "k": K, "lab": lab})
    return items


def C19(ctx):
    ctx.build()
    ctx.model("MC_CheckStats.tla", "MC_CheckStats_q.cfg" if ctx.quick else "MC_CheckStats.cfg")
    q = ctx.quick
    go(ctx, "small clusterings", stat_items(ctx, "a", 3000 if q else 30000, 12))
    go(ctx, "larger clusterings", stat_items(ctx, "b", 200 if q else 2000, 40, 20, 20))
    go(ctx, "large clusterings", stat_items(ctx, "c", 32 if q else 300, 260, 120, 20, big=True), chunk=4)
    go(ctx, "large clusterings, more than 2^8 points or clusters", stat_items(ctx, "d", 8 if q else 60, 330, 262, 16, big=[1, 1, 2, 257, 290]), chunk=1)
