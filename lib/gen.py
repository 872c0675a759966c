"""Case generation: geometries, option sets, their driver lines and their TLA+ records."""
import random, math, zlib

SM_ALL = [0, 2, 3, 4, 5]
FILLS = [0, 255, 165, 1, 127, 256, 257, 258, 513, 514, 515, 517, 769, 770] + list(range(1024, 1034))   # memory contents (harness/common.h)


def dist_matrix(geo):
    """integer distances (scaled): mat/line/l1 -> 2*d, sq -> 4*d^2 ; radius r (multiple of 1/2) -> 2r or (2r)^2"""
    n = geo["n"]
    if geo["geo"] == "mat":
        m = geo["m"]
        f = lambda a, b: 0 if a == b else 2 * m[max(a, b) * (max(a, b) - 1) // 2 + min(a, b)]
    else:
        k = geo["dims"]; x = geo["x"]
        if geo["geo"] == "sq":
            f = lambda a, b: 4 * sum((x[a * k + d] - x[b * k + d]) ** 2 for d in range(k))
        else:
            f = lambda a, b: 2 * sum(abs(x[a * k + d] - x[b * k + d]) for d in range(k))
    return [[f(a, b) for b in range(n)] for a in range(n)]


def rad(geo, r):
    return int(round(2 * r)) ** 2 if geo["geo"] == "sq" else int(round(2 * r))


def rand_geo(rng, n, kinds=("mat", "line", "l1", "sq"), spread=None, imp=False):
    """imp: only geometries the built-in provider can represent (line, sq)"""
    kind = rng.choice([k for k in kinds if not imp or k in ("line", "sq")])
    g = {"n": n, "geo": kind, "dims": 1, "prio": list(range(n))}
    sp = spread or rng.choice([2, 4, 8, 20, 60])
    if kind == "mat":
        g["m"] = [rng.randint(0 if rng.random() < .3 else 1, sp) for _ in range(n * (n - 1) // 2)]
    elif kind == "line":
        sh = rng.random()
        if sh < .5:
            g["x"] = [rng.randint(0, sp * 2) for _ in range(n)]
        elif sh < .8:    # clumps
            c = [rng.randint(0, 100) for _ in range(max(1, n // 3))]
            g["x"] = [rng.choice(c) + rng.randint(0, 3) for _ in range(n)]
        else:            # geometric growth
            v, x = 0, []
            for i in range(n):
                x.append(v); v += 1 + (v // 3 if v < 2000 else 7)
            rng.shuffle(x); g["x"] = x
    else:
        g["dims"] = rng.choice([2, 2, 3])
        g["x"] = [rng.randint(0, sp) for _ in range(n * g["dims"])]
    if not imp and rng.random() < .7:
        rng.shuffle(g["prio"])
    return g


def tie_free(D):
    """no two other points at the same distance from any point, and no duplicates"""
    for r in D:
        s = sorted(r)
        if any(s[i] == s[i + 1] for i in range(len(s) - 1)):
            return False
    return True


def tie_free_geo(rng, n, imp=True):
    for _ in range(1000):
        k = rng.random()
        if k < .5:
            g = {"n": n, "geo": "line", "dims": 1, "x": [rng.randint(0, 60 * n) for _ in range(n)]}
        else:
            d = rng.choice([2, 3]); w = 12 * n if n <= 14 else 25 * n
            g = {"n": n, "geo": "sq", "dims": d, "x": [rng.randint(0, w) for _ in range(n * d)]}
        g["prio"] = list(range(n))
        if tie_free(dist_matrix(g)):
            return g
    raise RuntimeError("no tie-free geometry")


def orders(D, prio):
    n = len(D)
    return [[p + 1 for p in sorted(range(n), key=lambda p: (D[v][p], prio[p]))] for v in range(n)]


def pick_radius(rng, D, geo, lo=0.0, hi=1.0):
    """a radius at, just below or just above an occurring distance; multiples of 1/2"""
    vals = sorted({D[a][b] for a in range(len(D)) for b in range(a)} - {0}) or [2]
    v = vals[min(len(vals) - 1, int(rng.uniform(lo, hi) * len(vals)))]
    if geo["geo"] == "sq":
        r = math.isqrt(v) / 2.0 + rng.choice([0, 0, .5, 1])
        r = math.floor(r * 2) / 2
    else:
        r = v / 2.0 + rng.choice([0, 0, 0, -.5, .5])
    return max(r, 0.5)


def rand_opts(rng, geo, D, sms=SM_ALL, types=None, prim=None, radii=True, est=True, max_size=4, min_size=2, pums=(0, 1, 2, 3), sums=(0, 0, 2, 3), seedr=.35):
    n = geo["n"]
    if not types and not prim and 0 in sms and 1 in pums and 0 in sums and rng.random() < .02:      # the default options
        return {"size": rng.choice([s for s in (2, 3) if min_size <= s <= min(n, max_size)] or [2]), "sm": 0, "pum": 1, "sum": 0, "pr": 2, "secr": 2}
    o = {"size": rng.choice([s for s in (2, 2, 2, 3, 3, 4, 5, 7, 11) if min_size <= s <= min(n, max_size)] or [2]), "sm": rng.choice(sms),
         "pum": rng.choice(pums), "sum": rng.choice(sums)}
    if types is None:
        types = rng.random() < .25
    if types:
        nt = rng.choice([2, 2, 3, 3, 4])
        o["nt"] = nt
        w = [rng.random() + .05 for _ in range(nt)]
        o["tl"] = rng.choices(range(nt), w, k=n)
        tc = [0] * nt
        budget = rng.randint(0, o["size"]) if rng.random() < .9 else o["size"] + 1
        for _ in range(budget):
            tc[rng.randrange(nt)] += 1
        o["tc"] = tc
    if prim is None:
        prim = rng.random() < .4
    if prim:
        k = rng.choice([1, 2, n // 2, max(1, n - 1), n, rng.randint(1, n)])
        o["pp"] = sorted(rng.sample(range(n), max(1, min(k, n))))
    if radii and rng.random() < seedr:
        o["sr"] = 1; o["srv"] = pick_radius(rng, D, geo, .05, .8)
    est = est and geo["geo"] != "sq"
    for key, m in (("pr", "pum"), ("secr", "sum")):
        ch = [0, 1, 2, 2] + ([3] if est else []) if radii else [0]
        o[key] = rng.choice(ch)
        if o[key] == 1:
            o[key + "v"] = pick_radius(rng, D, geo, 0, .7)
    return o


def rescale(cmd, geo, o):
    """the same instance in other units (a power of two) and with radii moved up to the next distance: nothing may change"""
    if cmd not in ("nng", "hier") or geo.get("plain"):
        return geo, o
    h = zlib.crc32(repr((geo, sorted(o.items(), key=repr))).encode())
    o = dict(o)
    if geo["geo"] != "sq":
        for j, k in enumerate(("srv", "prv", "secrv")):      # distances are integers: only the integer part of a radius counts
            if k in o and (h >> (8 + j)) % 2:
                m = math.floor(o[k])
                o[k] = (math.nextafter(m, 1e9) if m else 2.0 ** -40) if (h >> (12 + j)) % 2 else math.nextafter(m + 1, 0)
    e = (0, 0, 0, 0, 0, -60, -30, -20, 20, 60)[h % 10]
    if e and geo["n"] <= 400:
        f = lambda v: 0 if v == 0 else "%.17g" % (v * 2.0 ** e)
        geo = dict(geo, **{k: [f(v) for v in geo[k]] for k in ("m", "x") if k in geo})
        o.update({k: f(o[k]) for k in ("srv", "prv", "secrv") if k in o})
    else:
        o.update({k: "%.17g" % o[k] for k in ("srv", "prv", "secrv") if k in o and isinstance(o[k], float)})
    return geo, o


DEFAULTS = {"nt": 0, "sm": 0, "pum": 1, "sum": 0, "sr": 0, "pr": 2, "secr": 2, "pp": None, "tl": None, "tc": None, "batch": 0}


def line(cmd, geo, o, be="spi", **kw):
    if cmd == "nng" and "size" in o and all(o.get(k, 0 if k in ("nt", "sm", "sum", "sr", "batch") else None) == v for k, v in DEFAULTS.items()) and "size" not in kw:
        if zlib.crc32(repr((geo, o["size"])).encode()) % 2:      # the default options with nothing but the size filled in
            kw["defo"] = 1
    geo, o = rescale(cmd, geo, o)
    t = [cmd, "be=" + be, "n=%d" % geo["n"], "geo=" + geo["geo"], "dims=%d" % geo["dims"]]
    if geo["geo"] == "mat":
        t.append("m=" + ",".join(map(str, geo["m"])))
    else:
        t.append("x=" + ",".join(map(str, geo["x"])))
    if be == "spi" and geo["prio"] != list(range(geo["n"])):
        t.append("prio=" + ",".join(map(str, geo["prio"])))
    for k, v in list(o.items()) + list(kw.items()):
        if v is None:
            continue
        t.append("%s=%s" % (k, ",".join(map(str, v)) if isinstance(v, (list, tuple)) and v else ("empty" if isinstance(v, (list, tuple)) else v)))
    return " ".join(t)


def inst(geo, o, D=None, full=True):
    """the instance record of NngGeom"""
    n = geo["n"]
    D = D or dist_matrix(geo)
    rs = rad(geo, o["srv"]) if o.get("sr") == 1 else -1
    def r(key):
        m = o.get(key, 2)
        return -1 if m == 0 else rad(geo, o[key + "v"]) if m == 1 else rs if m == 2 else -2
    x = {"n": n, "size": o["size"], "elig": [p + 1 for p in o["pp"]] if o.get("pp") is not None else list(range(1, n + 1)),
         "tc": list(o.get("tc") or []), "tl": [t + 1 for t in (o.get("tl") or [])],
         "rs": rs, "sm": o.get("sm", 0), "pum": o.get("pum", 0), "sum": o.get("sum", 0), "rp": r("pr"), "rq": r("secr")}
    if full:
        x["D"] = D; x["prio"] = [p + 1 for p in geo["prio"]]; x["ord"] = orders(D, geo["prio"])
    return x
