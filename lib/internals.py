"""C24 (graph operations), C20 (built-in distance functions), and the seed search on arbitrary graphs (C07)."""
import itertools
import vf
from nng import CFGS
from gen import FILLS

EMPTYG = {"wf": 0, "v": 0, "cap": 0, "valid": 0, "empty": 0, "adj": []}


def adj_str(g):
    return ";".join(",".join(str(w) for w in r) for r in g)


def rand_graph(rng, v, dens=None, loops=True):
    dens = rng.choice([0, .1, .3, .6, 1]) if dens is None else dens
    g = []
    for i in range(v):
        r = [w for w in range(v) if (loops or w != i) and rng.random() < dens]
        rng.shuffle(r)
        g.append(r if rng.random() < .85 else [])
    return g


def gstep(op, **kw):
    return dict({"op": op, "a": 0, "b": -1, "o": -1, "rs": [], "keep": [], "all": 1, "kl": 0, "fl": 0, "max": 1, "v": 0, "cap": 0, "lim": 0, "fa": -1, "fs": 0, "adj": None, "slack": 0}, **kw)


def gline(s):
    op = s["op"]
    if op == "gset":
        return "gset r=%d v=%d slack=%d adj=%s" % (s["o"], s["v"], s["slack"], adj_str(s["adj"]))
    l = "%s a=%d b=%d o=%d rs=%s kl=%d fl=%d max=%d v=%d cap=%d lim=%d fs=%d" % (
        op, s["a"], s["b"], s["o"], ",".join(map(str, s["rs"])), s["kl"], s["fl"], s["max"], s["v"], s["cap"], s["lim"], s["fs"])
    if s["fa"] > 0:
        l += " fa=%d" % s["fa"]
    if not s["all"]:
        l += " keep=" + (",".join(map(str, s["keep"])) or "empty")
    return l + " fill=%d" % s.get("fill", 165)


def used(s):
    return {"gset": [], "gempty": [], "gunion": s["rs"], "gdiff": [s["a"], s["b"]], "gprod": [s["a"], s["b"]]}.get(s["op"], [s["a"]])


def rand_op(rng, v):
    op = rng.choice(["gunion"] * 4 + ["gprod"] * 4 + ["gdiff"] * 3 + ["gtrans"] * 2 + ["gloops", "gset", "gset", "gsize", "gempty"])
    s = gstep(op, a=rng.randrange(4), o=rng.randrange(4), fill=rng.choice(FILLS))
    if op == "gset":
        s.update(v=v, adj=rand_graph(rng, v), slack=rng.choice([0, 0, 1, 5]))
    if op in ("gdiff", "gprod"):
        s["b"] = rng.randrange(4)
    if op == "gdiff":
        s["max"] = rng.choice([1, 1, 2, 3, v, 4000000000 if rng.random() < .3 else 2])
        if s["b"] == s["a"]:
            s["b"] = (s["a"] + 1) % 4
    if op == "gprod":
        s["fl"] = rng.randrange(2)
    if op == "gunion":
        s["rs"] = [rng.randrange(4) for _ in range(rng.choice([1, 2, 2, 3, 4, 9]))]
        s["kl"] = rng.randrange(2)
        if rng.random() < .6:
            s["all"] = 0; s["keep"] = sorted(rng.sample(range(v), rng.choice([0, 1, max(1, v // 2), v])))
    if op == "gsize":
        s["cap"] = rng.choice([0, 1, v, v * v, v * v + 3])
    if op == "gempty":
        s.update(v=v, cap=rng.choice([0, 1, v * v]))
    if op in ("gunion", "gprod") and rng.random() < .3:
        s["lim"] = 1
    elif rng.random() < .25:
        s["fa"] = rng.randrange(1, 8); s["fs"] = int(rng.random() < .3)
    if op in ("gsize", "gloops", "gdiff", "gset"):
        s["o"] = s["a"] if op != "gset" else s["o"]
    return s


def rand_session(rng, vmax, length, sparse=False):
    v = rng.randint(90, vmax) if sparse else rng.choice([1, 2, 3]) if rng.random() < .2 else rng.randint(2, vmax)
    st = [gstep("gset", o=r, v=v, adj=rand_graph(rng, v, rng.choice([.5, 1.5, 4]) / v if sparse else None), slack=rng.choice([0, 0, 2])) for r in range(4)]
    return st + [rand_op(rng, v) for _ in range(length)]


def hub_session(rng, v, length):
    """a few vertices with hundreds of arcs out or in: row lengths around 2^8"""
    def hubs():
        g = [rng.sample(range(v), rng.choice([0, 0, 1, 2])) for _ in range(v)]
        for h in rng.sample(range(v), 3):
            g[h] = rng.sample(range(v), rng.choice([254, 255, 256, 257, 258, 300, v]))
        w = rng.randrange(v)
        for i in rng.sample(range(v), rng.choice([0, 255, 256, 257, v])):
            if w not in g[i]:
                g[i].append(w)
        return g
    st = [gstep("gset", o=r, v=v, adj=hubs() if r else [rng.sample(range(v), rng.choice([0, 1, 2])) if rng.random() < .98 else rng.sample(range(v), 3) for _ in range(v)], slack=rng.choice([0, 3])) for r in range(4)]
    st += [gstep("gdiff", a=1, b=0, o=1, max=rng.choice([255, 256, 257, 280])), gstep("gdiff", a=2, b=3, o=2, max=rng.choice([254, 255, 256, 512, 4000000000]))]
    for _ in range(length):
        s = rand_op(rng, v)
        if s["op"] == "gset":
            s["adj"] = hubs()
        if s["op"] == "gprod" and rng.random() < .7:
            s["b"] = 0
        if s["op"] == "gdiff":
            s["max"] = rng.choice([1, 255, 256, 257, 300, v])
        st.append(s)
    return st


def pair_session(g, h, v):
    """all operations on one pair of graphs"""
    st = []
    def setup():
        st.extend([gstep("gset", o=0, v=v, adj=g), gstep("gset", o=1, v=v, adj=h)])
    setup()
    for fl in (0, 1):
        for lim in (0, 1):
            st.append(gstep("gprod", a=0, b=1, o=2, fl=fl, lim=lim))
    for r in range(v + 1):
        for keep in itertools.combinations(range(v), r):
            for kl in (0, 1):
                for lim in (0, 1):
                    st.append(gstep("gunion", rs=[0, 1], all=0, keep=list(keep), kl=kl, o=2, lim=lim))
    for kl in (0, 1):
        for lim in (0, 1):
            st.append(gstep("gunion", rs=[0, 1], kl=kl, o=2, lim=lim))
    st.append(gstep("gtrans", a=0, o=3))
    for mx in range(1, v + 1):
        st.append(gstep("gdiff", a=0, b=1, o=0, max=mx)); setup()
    st.append(gstep("gloops", a=0, o=0))
    return st


def rows_of(v, ordered):
    return [list(p) for r in range(v + 1) for c in itertools.combinations(range(v), r) for p in (itertools.permutations(c) if ordered else [c])]


def gcase(steps, outs):
    res = []
    for i, s in enumerate(steps):
        o = outs[i] if i < len(outs) else {"crash": 1}
        cr = int("crash" in o)
        if cr:
            o = {"ec": -1, "same": 0, "leak": 0, "fa": 0, "g": EMPTYG}
        res.append({"op": s["op"], "a": s["a"], "b": s["b"], "o": s["o"], "rs": s["rs"], "used": used(s), "keep": [k + 1 for k in s["keep"]], "all": s["all"], "kl": s["kl"],
                    "fl": s["fl"], "max": min(s["max"], 2000000000), "v": s["v"], "cap": s["cap"], "lim": s["lim"], "ec": o["ec"], "same": o["same"], "leak": o["leak"], "fa": o["fa"], "g": o["g"], "crash": cr})
        if cr:
            break
    return {"steps": res}


def run_sessions(ctx, cfg_sess, line):
    by = {}
    for i, (c, _) in enumerate(cfg_sess):
        by.setdefault(c, []).append(i)
    out = [None] * len(cfg_sess)
    for c, ix in by.items():
        for i, r in zip(ix, vf.run_driver(ctx.exe(c, "driver2"), [[line(s) for s in cfg_sess[i][1]] for i in ix], sessions=True)):
            out[i] = r
    return out


def go(ctx, name, module, sess, line, case, **info):
    def run(cs):
        return [case(s, o) for (c, s), o in zip(cs, run_sessions(ctx, cs, line))]
    cs = run(sess)
    items = [{"case": k, "src": {"cfg": c, "lines": [line(x) for x in s]}, "cfg": c, "s": s} for k, (c, s) in zip(cs, sess)]
    ctx.conform(name, module + ".tla", module + ".cfg", items, lambda it: run([(it["cfg"], it["s"])])[0], steps=sum(len(s) for _, s in sess), **info)


def C24(ctx):
    ctx.build()
    q = ctx.quick
    ctx.model("MC_Digraph.tla", "MC_Digraph_o.cfg")
    ctx.model("MC_Digraph.tla", "MC_Digraph_q.cfg" if q else "MC_Digraph.cfg")
    rng = ctx.rng("pairs")
    rows = rows_of(2, True)
    gs = [list(p) for p in itertools.product(rows, repeat=2)]
    pairs = [(2, g, h) for g in gs for h in gs]
    if q:
        rng.shuffle(pairs); pairs = pairs[:300]
    rows3 = rows_of(3, True)
    for _ in range(200 if q else 4000):
        pairs.append((3, [rng.choice(rows3) for _ in range(3)], [rng.choice(rows3) for _ in range(3)]))
    go(ctx, "all operations on pairs of graphs with 2 and 3 vertices", "Trace_Digraph", [(rng.choice(CFGS), pair_session(g, h, v)) for v, g, h in pairs], gline, gcase)
    rng = ctx.rng("rand")
    go(ctx, "random sessions on small graphs, with memory faults", "Trace_Digraph", [(rng.choice(CFGS), rand_session(rng, 7, 40)) for _ in range(400 if q else 6000)], gline, gcase)
    rng = ctx.rng("big")
    go(ctx, "random sessions on larger graphs", "Trace_Digraph", [(rng.choice(CFGS), rand_session(rng, 40, 15)) for _ in range(60 if q else 800)], gline, gcase)
    rng = ctx.rng("sparse")
    go(ctx, "random sessions on large sparse graphs", "Trace_Digraph", [(rng.choice(CFGS), rand_session(rng, 320, 10, sparse=True)) for _ in range(24 if q else 300)], gline, gcase)
    rng = ctx.rng("hubs")
    go(ctx, "sessions on graphs with long rows", "Trace_Digraph", [(rng.choice(CFGS), hub_session(rng, rng.randint(301, 520), 6)) for _ in range(8 if q else 120)], gline, gcase, chunk=1)


# ----------------------------------------------------------------------------- seed search on arbitrary graphs (C07)
def seed_items(rng, count, vmax):
    its = []
    for _ in range(count):
        v = rng.randint(2, vmax)
        fam = rng.randrange(4)
        if fam == 0:
            g = rand_graph(rng, v, loops=False)
        elif fam == 1:                   # constant out-degree, as with a size constraint
            d = rng.randint(1, min(4, v - 1)); g = []
            for i in range(v):
                g.append(rng.sample([w for w in range(v) if w != i], d) if rng.random() < .9 else [])
        elif fam == 2:                   # hubs: very uneven in-degrees
            hub = rng.sample(range(v), max(1, v // 4)); g = []
            for i in range(v):
                c = [w for w in hub if w != i] if rng.random() < .7 else [w for w in range(v) if w != i]
                g.append(rng.sample(c, min(len(c), rng.randint(0, 3))))
        else:                            # sparse
            g = [rng.sample([w for w in range(v) if w != i], 1) if rng.random() < .5 else [] for i in range(v)]
        if not any(g):
            g[0] = [1]
        its.append({"g": g, "v": v, "sm": rng.choice([0, 2, 3, 3, 4, 5, 5]), "cap": rng.choice([1, 2, 8, v, 128])})
    return its


def hub_items(rng, count):
    """hundreds of vertices with one or two heads in common: in-degrees around 2^8, more than 2^16 conflicts"""
    its = []
    for i in range(count):
        v = rng.randint(270, 330)
        hub = rng.sample(range(v), rng.choice([1, 2]))
        g = [[] for _ in range(v)]
        for h in hub:
            for w in rng.sample([w for w in range(v) if w != h], rng.choice([255, 256, 257, 258, v - 8])):
                g[w].append(h)
        for w in range(v):
            for _ in range(rng.choice([0, 0, 1])):
                u = rng.randrange(v)
                if u != w and u not in g[w] and rng.random() < (1 if w not in hub else .3):
                    g[w].append(u)
            rng.shuffle(g[w])
        its.append({"g": g, "v": v, "sm": [2, 4, 5, 0, 2, 4, 5][i % 7], "cap": rng.choice([1, 128, v])})
    return its


def seeds_stage(ctx, name, tag, count, vmax, hubs=False):
    rng = ctx.rng(tag)
    sess = [(rng.choice(CFGS), [it]) for it in (hub_items(rng, count) if hubs else seed_items(rng, count, vmax))]
    line = lambda s: "seeds v=%d sm=%d cap=%d adj=%s" % (s["v"], s["sm"], s["cap"], adj_str(s["g"]))
    def case(s, o):
        s, o = s[0], o[0]
        cr = int("crash" in o)
        return {"v": s["v"], "adj": [[w + 1 for w in r] for r in s["g"]], "sm": s["sm"], "crash": cr, "ec": o.get("ec", -1), "same": o.get("same", 0), "leak": o.get("leak", 0), "seeds": o.get("seeds", [])}
    def run(cs):
        out = [None] * len(cs); by = {}
        for i, (c, _) in enumerate(cs):
            by.setdefault(c, []).append(i)
        for c, ix in by.items():
            for i, r in zip(ix, vf.run_driver(ctx.exe(c, "driver2"), [line(cs[i][1][0]) for i in ix])):
                out[i] = case(cs[i][1], [r])
        return out
    items = [{"case": k, "src": {"cfg": c, "lines": [line(s[0])]}, "cfg": c, "s": s} for k, (c, s) in zip(run(sess), sess)]
    ctx.conform(name, "Trace_Seeds.tla", "Trace_Seeds.cfg", items, lambda it: run([(it["cfg"], it["s"])])[0], chunk=1 if hubs else None)


# ----------------------------------------------------------------------------- built-in distance functions (C20)
def dist_session(rng, nmax, length, dmax, nn=.66):
    n = rng.randint(2, nmax)
    dims = rng.choice([1, 1, 2, 2, 3, 4, rng.randint(5, dmax)])
    R = rng.choice([1, 2, 4, 9, 100] + ([2000] if dims <= 4 else []))
    fam = rng.random()
    x = [[rng.randint(-R, R) for _ in range(dims)] for _ in range(n)]
    if fam < .2:
        x = [list(rng.choice(x[:max(1, n // 3)])) for _ in range(n)]     # duplicates
    elif fam < .35 and dims > 1:                                          # only one coordinate differs
        c = rng.randrange(dims); x = [[p[c] if j == c else 1 for j in range(dims)] for p in x]
    elif fam < .45:
        x = [[v * 3 for v in p] for p in x]
    sc = rng.choice([1, 1, 1, .5, 2, 2 ** -20, 2 ** 30, 2 ** -60])
    off = rng.choice([0, 0, 0, 10 ** 6, 2 ** 40, -2 ** 41])
    d2 = lambda a, b: sum((p - q) ** 2 for p, q in zip(x[a], x[b]))
    st = [{"op": "dset", "line": "dset n=%d dims=%d sc=%r off=%r x=%s" % (n, dims, float(sc), float(off), ",".join(str(v) for p in x for v in p))}]
    obj = {}
    def idx(nullok=True, dup=True, least=1):
        m = rng.randint(least, n)
        if nullok and rng.random() < .35:
            m = n if rng.random() < .7 else m
            return None, list(range(m))
        l = [rng.randrange(n) for _ in range(rng.randint(least, n + 2))] if dup and rng.random() < .5 else rng.sample(range(n), m)
        if rng.random() < .3:
            l.sort()
        return l, l
    def arg(k, l, eff):
        return "%s=%s" % (k, ",".join(map(str, l))) if l is not None else "%s=null n%s=%d" % (k, k, len(eff))
    def add(op, line, **kw):
        st.append(dict({"op": op, "line": op + " " + line + " fill=%d" % rng.choice(FILLS)}, **kw))
    while len(st) < length:
        r = rng.random()
        if r < .1:
            l, e = idx(least=2)
            add("dmat", arg("q", l, e), q=e)
        elif r < .22:
            l, e = idx(); l2, e2 = idx()
            add("drows", arg("q", l, e) + " " + arg("c", l2, e2), q=e, c=e2)
        elif r < .42 and len(obj) < 5:
            i = rng.choice([j for j in range(6) if j not in obj]); kind = "nn" if rng.random() < nn else "max"
            l, e = idx(dup=False)
            fa = "fa=%d " % rng.randint(1, 2) if kind == "nn" and rng.random() < .1 else ""      # one of the provider's own allocations fails first
            obj[i] = (kind, e); add("dinn" if kind == "nn" else "dimax", "id=%d " % i + fa + arg("c", l, e), id=i, c=e)
        elif r < .5 and obj:
            i = rng.choice(list(obj)); kind, _ = obj.pop(i)
            add("dcnn" if kind == "nn" else "dcmax", "id=%d" % i, id=i)
        elif obj:
            i = rng.choice(list(obj)); kind, sp = obj[i]
            l, e = idx()
            if kind == "max":
                add("dgmax", "id=%d " % i + arg("q", l, e), id=i, q=e)
            else:
                k = rng.choice([1, 2, len(sp), rng.randint(1, len(sp))]); k = min(k, len(sp))
                rr = -1
                if rng.random() < .6:
                    v = d2(rng.choice(e), rng.choice(sp)); b = max(1, int(v ** .5))
                    rr = rng.choice([2 * v + 1, 2 * b * b, max(1, 2 * v - 1)])
                wq = 1 if rr >= 0 or rng.random() < .6 else 0
                fa = " fa=%d fs=%d" % (rng.randint(1, 4), rng.randint(0, 1)) if rng.random() < .1 else ""
                add("dsnn", "id=%d %s k=%d rr=%d wq=%d junk=%r" % (i, arg("q", l, e), k, rr, wq, rng.choice([0.0, -1.0, 0.5])) + fa, id=i, q=e, k=k, rr=rr, wq=wq)
    for i, (kind, _) in obj.items():
        add("dcnn" if kind == "nn" else "dcmax", "id=%d" % i, id=i)
    return x, st


def dist_case(xst, outs):
    x, st = xst
    res = []
    for i, s in enumerate(st):
        o = outs[i] if i < len(outs) else {"crash": 1}
        cr = int("crash" in o)
        rec = {"op": s["op"], "crash": cr, "q": [v + 1 for v in s.get("q", [])], "c": [v + 1 for v in s.get("c", [])], "id": s.get("id", 0), "k": s.get("k", 1), "rr": s.get("rr", -1), "wq": s.get("wq", 0),
               "ok": 0, "same": 0, "live": 0, "hit": 0, "lost": 0, "num": 0, "chk": 0, "d": [], "nn": [], "oq": [], "mi": []}
        if not cr:
            rec.update({k: v for k, v in o.items() if k in rec})
        res.append(rec)
        if cr:
            break
    return {"x": x, "steps": res}


def dist_stage(ctx, name, sess):
    """sess: list of (configuration, session)"""
    def run(cs):
        outs = run_sessions(ctx, [(c, s[1]) for c, s in cs], lambda s: s["line"])
        return [dist_case(s, o) for (c, s), o in zip(cs, outs)]
    items = [{"case": k, "src": {"cfg": c, "lines": [z["line"] for z in s[1]]}, "cfg": c, "s": s} for k, (c, s) in zip(run(sess), sess)]
    ctx.conform(name, "Trace_Dist.tla", "Trace_Dist.cfg", items, lambda it: run([(it["cfg"], it["s"])])[0], steps=sum(len(s[1]) for _, s in sess))


def C20(ctx):
    ctx.build()
    q = ctx.quick
    ctx.model("MC_Dist.tla", "MC_Dist_q.cfg" if q else "MC_Dist.cfg")
    for name, tag, cnt, nmax, length, dmax in (("random sessions, few points", "a", 700 if q else 8000, 8, 30, 12), ("random sessions, more points and dimensions", "b", 90 if q else 1200, 45, 14, 60), ("random sessions, many points", "c", 16 if q else 200, 220, 8, 9)):
        rng = ctx.rng(tag)
        sess = [(rng.choice(CFGS), dist_session(rng, nmax, length, dmax)) for _ in range(cnt)]
        dist_stage(ctx, name, sess)
