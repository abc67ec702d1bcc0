"""C14 parallel routing (spec/Parallel, spec/ParTrace); C12: its repeatability."""
import copy
import os

import envgen
from core import ToolError

NAME, MODULE, SHARDS, DRIVERS = "par", "ParTrace", 6, 3
CLAUSES = {"C14": ("par.error", "par.object", "par.args", "par.count", "par.aligned",
                   "par.start", "par.copies", "iters.", "combine.",
                   "contain.", "absorb.", "route.", "steep.", "time.", "vars."),
           "C12": ("par.repeat", "par.error", "par.object")}


def models(ck, prop):
    ck.model("Parallel", level=0 if ck.quick else 1, workers=2)
    # the specification tells copied random states from independent ones
    rc, out = ck.tlc("Parallel", "ParallelCopied", {"MCLEVEL": "0"}, 1, count=False)
    if "Independent is violated" not in out:
        raise ToolError("Parallel with copied random states was not refuted:\n" + out[-1500:])


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 8
    out = []
    for i in range((24 if prop == "C14" else 8) * k):
        kind = rng.choice(["basin", "basin", "channel", "random", "custom", "patchy"])
        over = {"dc": 20, "omit": []} if rng.random() < .6 else {}
        e = envgen.make_env(rng, kind, **over)
        if rng.random() < .5:
            e["vars"] = rng.sample(envgen.ALLVARS, rng.randint(1, 6))
        if rng.random() < .3:
            envgen.rescale(rng, [e])
        xs, ys = envgen.rand_seeds(rng, e, rng.randint(1, 4))
        out.append({"kind": "par", "e": e, "cores": rng.choice([1, 2, 2, 3, 4]),
                    "n": rng.randint(1, 6), "iters": rng.choice([1, 2, 4, 7]),
                    "xs": xs, "ys": ys, "before": 2 if rng.random() < .2 else 0,
                    "seed": rng.randrange(2**31)})
        if i % 12 == 5:
            out[-1].update(n=rng.choice([70, 40]), cores=rng.choice([2, 4]), iters=rng.choice([1, 2]))
        if i % 12 == 7:
            out[-1].update(n=2, iters=40)
        if i % 12 == 3:         # more processes than processors
            out[-1].update(n=rng.randint(1, 2), iters=rng.randint(1, 3), before=0,
                           cores=rng.choice([5, 7, 9, 10, (os.cpu_count() or 1) + 1, 17]))
        if i % 24 == 10:        # ... by far, on a domain where every step is noisy
            e = envgen.make_env(rng, "basin", dc=20, omit=[])
            xs, ys = envgen.rand_seeds(rng, e, 3)
            out[-1].update(e=e, xs=xs, ys=ys, n=2, iters=5, before=0, cores=rng.choice([18, 20, 33]))
        if i % 24 == 11:
            e = envgen.make_env(rng, "basin", ctype=[])     # nobody reaches the border
            e["L"] = e["W"] = 301
            out[-1].update(e=e, xs=[150, 151], ys=[149, 150], n=2, iters=rng.choice([70, 130]), cores=2,
                           before=0)
    if prop == "C14":
        for i in range(20 * k):
            keys = ["xinds", "yinds", "travel_times"] + rng.sample(envgen.ALLVARS, rng.randint(0, 3))
            rng.shuffle(keys)
            parts = []
            for _ in range(rng.randint(1, 5)):
                n = rng.randint(0, 4)
                lens = [rng.randint(1, 4) for _ in range(n)]
                parts.append([[[rng.randint(0, 99) for _ in range(m)] for m in lens] for _ in keys])
            out.append({"kind": "combine", "keys": keys, "parts": parts})
    return out


def corrupt(prop, recs, rng):
    out = []
    for r in recs:
        if len(out) >= 4:
            break
        if r["err"] or r["kind"] != "par" or r["before"]:
            continue
        if prop == "C12":
            r["again"] = {"none": True}
        elif len(out) == 0:
            for k in ("x", "y", "t"):
                r["w"][k] = r["w"][k][:-1]
            for v in r["w"]["vars"]:
                r["w"]["vars"][v] = r["w"]["vars"][v][:-1]
        elif len(out) == 1:
            r["kept"] = False
        else:
            lens = [i for i, p in enumerate(r["w"]["x"]) if len(p) == r["iters"] + 1]
            if not lens:
                continue
            i = lens[0]
            r["w"]["x"][i][-1] += 3
        out.append(r)
    return out


def run(sc):
    import numpy as np
    import dorado.particle_track as pt
    import dorado.parallel_routing as pr
    import drive
    import rec
    import walkfam

    def once(s):
        np.random.seed(s["seed"])
        P = pt.Particles(drive.make_params(s["e"]))
        if s["before"]:
            P.generate_particles(s["before"], s["xs"], s["ys"])
            P.run_iteration()
        fields = ("depth", "stage", "qx", "qy", "u", "v", "weight", "cell_type", "velocity",
                  "velocity_angle", "theta", "gamma", "dry_depth", "diff_coeff",
                  "steepest_descent", "dx")
        keep = rec.snapshot(P.walk_data, {f: getattr(P, f, None) for f in fields})
        xs, ys = list(s["xs"]), list(s["ys"])
        w = pr.parallel_routing(P, s["iters"], s["n"], xs, ys, s["cores"])
        kept = rec.same(keep, rec.snapshot(P.walk_data, {f: getattr(P, f, None) for f in fields}))
        return drive.enc_walk(w, s["e"]), bool(kept), xs == s["xs"] and ys == s["ys"]

    def one(s):
        r = dict(s, err="")
        if s["kind"] == "combine":
            parts = [dict(zip(s["keys"], copy.deepcopy(p))) for p in s["parts"]]
            keep = copy.deepcopy(parts)
            res, r["err"], _ = rec.guarded(lambda: pr.combine_result(parts))
            r.update(out=[], outkeys=[], kept=rec.same(keep, parts))
            if not r["err"]:
                r["outkeys"] = list(res)
                r["out"] = [[[rec.num(a) for a in p] for p in res[k]] for k in res]
                # key order carries no meaning
                if sorted(r["outkeys"]) == sorted(r["keys"]):
                    r["out"] = [[[rec.num(a) for a in p] for p in res[k]] for k in r["keys"]]
                    r["outkeys"] = list(r["keys"])
            return r
        r.update(e=walkfam.strip(s["e"]), w={"none": True}, again={"none": True}, kept=True,
                 keptargs=True)
        a, r["err"], _ = rec.guarded(lambda: once(s), 120)
        if r["err"] == "Timeout":       # a pool that hangs for good does so again
            a, r["err"], _ = rec.guarded(lambda: once(s), 120)
        if not r["err"]:
            b, r["err"], _ = rec.guarded(lambda: once(s), 120)
        if not r["err"]:
            r.update(w=a[0], again=b[0], kept=a[1] and b[1], keptargs=a[2])
        return r
    return rec.run_all(sc, one)
