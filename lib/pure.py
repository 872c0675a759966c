"""C23: results depend only on the arguments (specification Pure)."""
import gen, vf
from core import run_lines
CFGS = ["default", "wide", "int_min", "int_mna", "int_max"]      # not "stable": it breaks ties differently
from faults import scenario, xrec
from gen import FILLS


def result(r):
    return {"ec": r["ec"], "n": r["after"]["n"], "k": r["after"]["k"], "lab": r["after"]["lab"], "x": xrec(r)}


BAD = ["nng be=spi n=4 geo=line dims=1 x=1,2,3,4 size=1", "nng be=imp n=4 geo=line dims=1 x=1,2,3,4 size=9",
       "nng be=imp n=4 geo=line dims=1 x=1,5,9,14 size=3 sr=1 srv=0.5", "hier be=imp n=3 geo=line dims=1 x=1,2,3 size=4",
       "nng be=spi n=5 geo=line dims=1 x=1,2,3,4,5 size=2 cbf=1", "hier be=spi n=8 geo=line dims=1 x=1,2,3,4,5,6,7,8 size=2 cbf=2",
       "nng be=imp n=5 geo=line dims=1 x=1,2,3,4,5 size=2 pum=2 fk=alloc", "hier be=imp n=8 geo=line dims=1 x=1,2,3,4,5,6,7,8 size=2 fk=allocs",
       "check be=spi n=3 geo=line dims=1 x=1,2,3 size=7 in=0,0,0 k0=1"]


def session(rng, pool, length, fills):
    """one process: pool entries in random order, disturbed by failing calls"""
    out = []
    order = list(range(len(pool))) + [rng.randrange(len(pool)) for _ in range(length - len(pool))]
    rng.shuffle(order)
    for a in order:
        while rng.random() < .35:
            out.append((0, rng.choice(BAD)))
        out.append((a + 1, pool[a] + " rep=1 fill=%d" % rng.choice(fills)))
    return out


def calls(it, outs):
    cs = []
    for sess, rs in zip(it["sess"], outs):
        for (a, l), r in zip(sess, rs):
            if "crash" in r:
                cs.append({"a": a or 99, "r": {"ec": -1}, "same": 0}); continue
            same = int(r["optsame"] and r["datasame"] and r["bufsame"])
            if a == 0:
                cs.append({"a": 0 if same else 98, "r": {"ec": r["ec"]}, "same": same}); continue
            cs.append({"a": a, "r": result(r), "same": same})
            cs.append({"a": a, "r": result(r["rep"]), "same": 1})
    return {"calls": cs}


def go(ctx, name, items):
    def run(its):
        flat = [(k, s, c) for k, it in enumerate(its) for s, c in zip(it["sess"], it["cfgs"])]
        by = {}
        for f in flat:
            by.setdefault(f[2], []).append(f)
        got = {}
        for c, fs in by.items():
            for f, r in zip(fs, vf.run_driver(ctx.exe(c), [[l for _, l in f[1]] for f in fs], sessions=True)):
                got[id(f[1])] = r
        return [[got[id(s)] for s in it["sess"]] for it in its]
    for it, o in zip(items, run(items)):
        it["case"] = calls(it, o); it["src"] = {"cfgs": it["cfgs"], "sessions": it["sess"]}
    ctx.conform(name, "Trace_Pure.tla", "Trace_Pure.cfg", items, lambda it: calls(it, run([it])[0]), calls=sum(len(it["case"]["calls"]) for it in items))


def C23(ctx):
    ctx.build()
    ctx.model("MC_Pure.tla", "MC_Pure_q.cfg" if ctx.quick else "MC_Pure.cfg")
    q = ctx.quick
    for name, tag, cnt, npool, nmax in (("small inputs, five configurations", "a", 60 if q else 600, 30, 14), ("larger inputs, five configurations", "b", 16 if q else 150, 16, 80)):
        rng = ctx.rng(tag)
        items = []
        for _ in range(cnt):
            pool = [scenario(rng, nmax, op=rng.choice(["nng"] * 7 + ["hier"] * 4 + ["check", "stats", "copy", "mkexist"]))[0] for _ in range(npool)]
            cf = CFGS + [rng.choice(CFGS)]
            items.append({"sess": [session(rng, pool, npool + 6, FILLS) for _ in cf], "cfgs": cf})
        go(ctx, name, items)
