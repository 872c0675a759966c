"""Large inputs (thousands of points on a line) against the specification NngLine."""
import gen, vf
from core import run_lines
from nng import CFGS


def windows(xs, size):
    n = len(xs); W = []
    for r in range(n):
        a = b = r
        while b - a + 1 < size:
            if a == 0: b += 1
            elif b == n - 1: a -= 1
            elif xs[r] - xs[a - 1] < xs[b + 1] - xs[r]: a -= 1
            else: b += 1
        W.append((a, b))
    return W


def span(xs, r, w):
    return max(xs[r] - xs[w[0]], xs[w[1]] - xs[r])


def tie_free(xs, W):
    n = len(xs)
    for r, (a, b) in enumerate(W):
        s = span(xs, r, (a, b))
        if (a > 0 and xs[r] - xs[a - 1] <= s) or (b < n - 1 and xs[b + 1] - xs[r] <= s):
            return False
    return True


def line_points(rng, n, size, gap):
    """ascending coordinates without ties at the window borders"""
    while True:
        v, xs = 0, []
        sh = rng.random()
        for i in range(n):
            v += rng.randint(1, gap) if sh < .5 or rng.random() < .7 else rng.randint(gap, 3 * gap)
            xs.append(v)
        for _ in range(60):     # repair the few ties
            bad = [r for r, w in enumerate(windows(xs, size)) if not tie_free_at(xs, r, w)]
            if not bad:
                return xs
            for r in bad:
                lo, hi = (xs[r - 1] if r else -gap), (xs[r + 1] if r + 1 < n else xs[r] + gap)
                if hi - lo > 2:
                    xs[r] = rng.randint(lo + 1, hi - 1)


def tie_free_at(xs, r, w):
    n = len(xs); a, b = w; s = span(xs, r, w)
    return not ((a > 0 and xs[r] - xs[a - 1] <= s) or (b < n - 1 and xs[b + 1] - xs[r] <= s))


def estimate_points(rng, groups):
    """groups of three: a seed, its neighbour, and a leftover at about the mean seed-neighbour distance"""
    base, gs, avg = 0, [], 20000
    for _ in range(groups):
        g = rng.randint(10000, 30000)
        m = [base, base + g]
        if g < 19800 and rng.random() < .9:
            m.append(base - avg - rng.randint(-150, 150))
        gs.append(m); base += 120000
    pts = []   # index order: first the seeds, then neighbours and leftovers mixed
    order = [m[0] for m in gs]; rest = [y for m in gs for y in m[1:]]
    rng.shuffle(order); rng.shuffle(rest)
    return order + rest


def certificate(x, lab, k):
    n = x["n"]; xs, pt = x["xs"], x["pt"]
    W = windows(xs, x["size"])
    lr = [lab[pt[r] - 1] for r in range(n)]
    ok = [x["el"][pt[r] - 1] and (x["rs"] == -1 or span(xs, r, W[r]) <= x["rs"]) for r in range(n)]
    def key(r):
        if x["sm"] == 2:
            return sum(1 for u in range(max(0, r - x["size"]), min(n, r + x["size"] + 1)) if u != r and ok[u] and W[u][0] <= r <= W[u][1])
        if x["sm"] == 4:
            return sum(1 for u in range(max(0, r - 2 * x["size"]), min(n, r + 2 * x["size"] + 1)) if u != r and ok[u] and W[u][0] <= W[r][1] and W[r][0] <= W[u][1])
        return pt[r] if x["sm"] == 0 else 0
    sd, own = [0] * k, [0] * n
    best = {}
    for r in range(n):
        l = lr[r]
        if ok[r] and 0 <= l < k and all(lr[q] == l for q in range(W[r][0], W[r][1] + 1)):
            kk = (key(r), r)
            if l not in best or kk < best[l]:
                best[l] = kk
    for l, (_, r) in best.items():
        sd[l] = r + 1
        for q in range(W[r][0], W[r][1] + 1):
            own[q] = r + 1
    so = sorted((s for s in sd if s), key=lambda s: pt[s - 1])
    return {"sd": sd, "own": own, "so": so}


def witness(lab, k, size, tl=None, nt=0):
    w = [[] for _ in range(k)]; wt = [[[] for _ in range(nt)] for _ in range(k)]
    for p, l in enumerate(lab):
        if 0 <= l < k:
            if len(w[l]) < size: w[l].append(p + 1)
            if nt and len(wt[l][tl[p] - 1]) < size: wt[l][tl[p] - 1].append(p + 1)
    return {"wit": w, "witt": wt}


def case(it, r):
    x = it["x"]
    if "crash" in r:
        return {"x": x, "crash": 1, "ec": -1, "k": 0, "lab": [], "sd": [], "own": [], "so": [], "wit": [], "witt": []}
    lab, k = r["after"]["lab"], r["after"]["k"]
    c = {"x": x, "crash": 0, "ec": r["ec"], "k": k, "lab": lab, "sd": [], "own": [], "so": [], "wit": [], "witt": []}
    if r["ec"] == 0:
        if "xs" in x: c.update(certificate(x, lab, k))
        c.update(witness(lab, k, x["size"], x.get("tl"), len(x.get("tc", []))))
    return c


def make(rng, prop, n, kind):
    """one large instance: driver line and record"""
    pum = sum_ = 0; rp = rq = rs = -1; sm = 0
    if kind == "est":
        size = 2
        co = estimate_points(rng, n // 3)
        n = len(co)
        pum, rp = rng.choice([2, 3]), -2
        gap = 20000
    else:
        size = rng.choice([2, 2, 2, 3, 3, 3, 4, 6, 12, 40 if n < 1500 else 5, 140 if n < 700 else 9])
        gap = rng.choice([40, 400, 4000])
        co = line_points(rng, n, size, gap)
        rng.shuffle(co)
        if rng.random() < .3:
            co.sort(reverse=rng.random() < .5)
        if rng.random() < .5:
            rs = int(gap * rng.uniform(.3, 1.2) * size)
        if kind == "order":
            sm = rng.choice([0, 2, 4])
        elif kind == "any":
            sm = rng.choice([0, 2, 3, 4, 5])
        else:
            pum = rng.choice([0, 1, 2, 3]); sum_ = rng.choice([0, 0, 2, 3])
            rp = rng.choice([-1, int(gap * rng.uniform(.2, 1.5)), -2]) if pum >= 2 else -1
            rq = rng.choice([-1, int(gap * rng.uniform(.2, 1.5)), -2]) if sum_ else -1
    el = [1] * n
    o = {"size": size, "sm": sm, "pum": pum, "sum": sum_}
    if rng.random() < .4:
        f = rng.choice([.1, .5, .9])
        el = [int(rng.random() < f) for _ in range(n)]
        if not any(el): el[0] = 1
        o["pp"] = [p for p in range(n) if el[p]]
    if prop == "C03" and kind != "est":     # just feasible or just infeasible
        ys = sorted(co); rank = {y: i for i, y in enumerate(ys)}; W = windows(ys, size)
        sp = min(span(ys, rank[co[p]], W[rank[co[p]]]) for p in range(n) if el[p])
        rs = rng.choice([sp, sp - 1, sp - 1, sp + 1])
        rs = rs if rs > 0 else sp
    for k, r in (("pr", rp), ("secr", rq)):
        o[k] = 0 if r == -1 else 3 if r == -2 else 1
        if r >= 0:
            o[k + "v"] = r = max(1, r)
    if rs >= 0:
        o["sr"] = 1; o["srv"] = max(1, rs)
    rk = sorted(range(n), key=lambda p: co[p])
    x = {"n": n, "size": size, "xs": [co[p] for p in rk], "pt": [p + 1 for p in rk], "rk": [0] * n, "el": el, "rs": rs, "sm": sm, "pum": pum, "sum": sum_, "rp": rp, "rq": rq}
    for i, p in enumerate(rk):
        x["rk"][p] = i + 1
    be = rng.choice(["imp", "spi"])
    geo = {"n": n, "geo": "line", "dims": 1, "x": co, "prio": list(range(n))}
    return {"line": gen.line("nng", geo, o, be), "cfg": rng.choice(CFGS), "x": x}


def counted(rng, prop, n, wide=False):
    """one large instance judged by its labels only: all methods and geometries, types"""
    geo = gen.rand_geo(rng, n, kinds=("line", "sq"), spread=rng.choice([30, 1000]), imp=True)
    o = {"size": rng.choice([2, 3, 4, 7, 25, 130, min(n // 2, 300)]) if not wide else rng.randint(260, 310), "sm": rng.choice([0, 2, 3, 4, 5]), "pum": rng.choice([0, 1, 2, 3]), "sum": rng.choice([0, 0, 2, 3]), "pr": 0, "secr": 0}
    x = {"n": n, "size": o["size"]}
    if prop == "C02":
        nt = rng.choice([2, 3, 5, 12, 70, 290]); o["nt"] = nt
        o["tl"] = rng.choices(range(nt), [rng.random() + .1 for _ in range(nt)], k=n)
        o["tc"] = [0] * nt
        hot = rng.sample(range(nt), min(nt, rng.choice([1, 2, nt])))
        have = [o["tl"].count(t) for t in range(nt)]
        for _ in range(rng.randint(1, o["size"] if not wide else rng.choice([3, o["size"] - 255, o["size"]]))):
            t = rng.choice(hot)
            o["tc"][t] += o["tc"][t] < have[t]
        x["tl"] = [t + 1 for t in o["tl"]]; x["tc"] = o["tc"]
    elif rng.random() < .3:
        o.update(sm=1, batch=rng.choice([0, 1, 37, 1000]), sum=0, pum=o["pum"] % 2, pr=2, secr=2)
    if rng.random() < .3:
        o["pp"] = sorted(rng.sample(range(n), n // 2))
    if prop == "C01" and rng.random() < .3:
        return {"line": gen.line("hier", geo, {"size": o["size"], "ba": rng.randint(0, 1)}, "imp"), "cfg": rng.choice(CFGS), "x": x}
    return {"line": gen.line("nng", geo, o, rng.choice(["imp", "spi"])), "cfg": rng.choice(CFGS), "x": x}


def batch(rng, n):
    """one large instance with several batch sizes: a list of items, the first being the reference"""
    it = make(rng, "C09", n, "any")
    x = dict(it["x"], sm=0, pum=rng.choice([0, 1, 1]), sum=0, rp=-1, rq=-1)
    o = {"size": x["size"], "sm": 1, "pum": x["pum"], "pr": 2, "secr": 2}
    if x["rs"] >= 0:
        o["sr"] = 1; o["srv"] = x["rs"]
    if not all(x["el"]):
        o["pp"] = [p for p in range(x["n"]) if x["el"][p]]
    co = [x["xs"][r - 1] for r in x["rk"]]
    geo = {"n": x["n"], "geo": "line", "dims": 1, "x": co, "prio": list(range(x["n"]))}
    be = rng.choice(["imp", "spi"])
    out = []
    for b in [0] + rng.sample([1, 7, 100, 127, 128, 129, 255, 256, 1000, x["n"] - 1, x["n"] + 1], 3):
        out.append({"line": gen.line("nng", geo, o, be, batch=b), "cfg": it["cfg"], "x": x})
    return out


KINDS = {"C03": ["any"], "C04": ["left"], "C05": ["left", "est"], "C06": ["any"], "C07": ["order"], "C08": ["left"], "C25": ["left"]}


def stage(ctx, count, nlo, nhi):
    rng = ctx.rng("big")
    items = []
    for i in range(count):
        n = rng.randint(nlo, nhi)
        if ctx.prop == "C09":
            g = batch(rng, n)
            for it in g:
                it["group"] = g[0]
            items += g
            continue
        if ctx.prop in ("C01", "C02"):
            it = counted(rng, ctx.prop, n, i % 8 == 1)     # some with sizes beyond 2^8
        else:
            kd = KINDS[ctx.prop][i % len(KINDS[ctx.prop])]
            it = make(rng, ctx.prop, max(n, rng.choice([3300, 6600, 7000])) if kd == "est" else n, kd)
        items.append(it)
    if ctx.prop == "C25":
        for it in items:
            it["cfg"] = "ann_" + it["cfg"].replace("stable", "default"); it["line"] = it["line"].replace("be=spi", "be=imp", 1)
    run_lines(ctx, items)
    def ref(it, c):       # C09: the partition of the first batch size
        if "group" not in it or c["crash"] or "crash" in it["group"]["out"]:
            return c
        a = it["group"]["out"]["after"]
        mp = [-5] * a["k"]
        for l, m in zip(a["lab"], c["lab"]):
            if l >= 0 and mp[l] == -5: mp[l] = m
        return dict(c, ref=a["lab"], mp=mp)
    for it in items:
        it["case"] = ref(it, case(it, it["out"]))
        it["src"] = {"cfg": it["cfg"], "line": it["line"]}
    def rerun(it):
        a = [dict(it)]
        run_lines(ctx, a)
        return ref(it, case(it, a[0]["out"]))
    ec = {}
    for it in items:
        ec[it["case"]["ec"]] = ec.get(it["case"]["ec"], 0) + 1
    ctx.conform("large inputs (up to %d points)" % max(it["x"]["n"] for it in items), "Trace_Line.tla", "Trace_Line.cfg", items, rerun, codes=ec)
