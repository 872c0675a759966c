"""Frame of every check: stages, evidence, verdicts, replay files."""
import os, sys, json, time, random, shutil, traceback
import vf

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {"traces_validated_against_impl": 0, "states": 0, "transitions": 0, "stages": []}
        self.viol = []
        self.exes = {}
        self.samples = []
        shutil.rmtree(os.path.join(vf.OUT, "replay", prop), ignore_errors=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, tag):
        return random.Random("%s/%s/%d" % (self.prop, tag, self.seed))

    def size(self, q, t):
        return q if self.quick else t

    def build(self, cfgs=None):
        for k, v in vf.build_all(cfgs).items():
            self.exes[k] = v
        return self.exes

    def exe(self, cfg="default", name="driver"):
        if cfg not in self.exes:
            self.exes[cfg] = vf.build(cfg)
        p = self.exes[cfg][name]
        if not os.path.exists(p):
            raise vf.ToolError("%s was not built" % name)
        return p

    def elapsed(self):
        return time.time() - self.t0

    def stage(self, name, **kw):
        self.cov["stages"].append(dict({"name": name}, **kw))

    # ---- exploration of the specification itself
    def model(self, module, cfg, workers=None, timeout=800, mem="8g", extra=(), env=None):
        t = time.time()
        r = vf.tlc(module, cfg, env=env, workers=workers or vf.NPROC, timeout=timeout, mem=mem, extra=extra)
        if r.rc != 0 or r.error or r.states == 0:
            with open(os.path.join(vf.OUT, "tlc_error.txt"), "w") as f:
                f.write(r.out)
            raise vf.ToolError("the specification %s/%s does not check: %s" % (module, cfg, r.error or r.out[-400:]))
        self.cov["states"] += r.states; self.cov["transitions"] += r.generated
        self.stage("model %s/%s" % (module, cfg), kind="specification model-checked exhaustively within its constants", states=r.states, generated=r.generated, wall_s=round(time.time() - t, 1))

    # ---- recorded runs against a trace specification
    def conform(self, name, module, cfg, items, rerun, env=None, chunk=None, env2=None, timeout=800, **info):
        """items: list of dicts {"case": record for TLC, "src": what to replay}. rerun(item) -> fresh case record."""
        t = time.time()
        env = dict(env or {}, PROP=self.prop)
        cases = [it["case"] for it in items]
        def judge(cs):
            rej, st, gn = vf.tlc_cases(module, cfg, cs, env, chunk=chunk, timeout=timeout)
            if rej and env2:      # second, more permissive pass over what the first did not explain
                r2, s2, g2 = vf.tlc_cases(module, cfg, [cs[i] for i in rej], dict(env, **env2), timeout=timeout)
                rej, st, gn = [rej[j] for j in r2], st + s2, gn + g2
            return rej, st, gn
        rej, st, gn = judge(cases)
        self.cov["traces_validated_against_impl"] += len(cases); self.cov["states"] += st; self.cov["transitions"] += gn
        self.stage(name, kind="recorded executions checked by TLC against %s" % module, cases=len(cases), states=st, generated=gn, rejected=len(rej), wall_s=round(time.time() - t, 1), **info)
        if items:
            self.samples.append({"stage": name, "case": short(items[0]["src"])})
        if rej:
            # a rejection counts only if an independent re-execution is rejected again
            sub = [items[i] for i in rej[:6]]
            again = [dict(it, case=rerun(it)) for it in sub]
            rej2, _, _ = judge([a["case"] for a in again])
            if not rej2:
                raise vf.ToolError("rejections of %s did not repeat" % name)
            for j in rej2:
                self.violation(name, again[j], module, cfg, env)

    def violation(self, stage, item, module="", cfg="", env=None):
        d = vf.ensure(os.path.join(vf.OUT, "replay", self.prop))
        p = os.path.join(d, "%d.json" % (len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "stage": stage, "module": module, "cfg": cfg, "env": env, "replay": item["src"], "case": item["case"]}, f, indent=1)
        self.viol.append(p)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        vf.log("  stage %s: %s" % (stage, str(item["src"])[:600]))

    def evidence(self, level, wall):
        os.makedirs(vf.EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "wall_s": round(wall, 2),
              "coverage": dict(self.cov, samples=self.samples[:12]), "violations": len(self.viol)}
        with open(os.path.join(vf.EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def short(v, most=3000):
    """a sample for the evidence file: long texts and lists are cut"""
    if isinstance(v, dict):
        return {k: short(w, most) for k, w in v.items()}
    if isinstance(v, list):
        return [short(w, most) for w in v[:200]] + (["... %d more" % (len(v) - 200)] if len(v) > 200 else [])
    if isinstance(v, str) and len(v) > most:
        return v[:most] + "... (%d characters)" % len(v)
    return v


def run_lines(ctx, items, key="line", timeout=120):
    """items carry 'line' and 'cfg'; adds the driver's reply as item['out']"""
    by = {}
    for i, it in enumerate(items):
        by.setdefault(it.get("cfg", "default"), []).append(i)
    for cfg, ix in by.items():
        rs = vf.run_driver(ctx.exe(cfg), [items[i][key] for i in ix], timeout=timeout)
        for i, r in zip(ix, rs):
            items[i]["out"] = r


def main(registry):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    level, fn = registry[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        fn(ctx)
    except vf.ToolError as e:
        vf.log("ERROR: %s" % e)
        if ctx.viol:
            ctx.evidence(level, time.time() - ctx.t0)
            sys.exit(1)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    ctx.evidence(level, time.time() - ctx.t0)
    print("%s %s: %d cases, %d TLC states, %d violations, %.1f s" % (prop, tier, ctx.cov["traces_validated_against_impl"], ctx.cov["states"], len(ctx.viol), time.time() - ctx.t0))
    sys.exit(1 if ctx.viol else 0)
