"""Checks C01-C03, C05-C12: recorded walks against spec/WalkTrace.tla."""
import copy
import json
import math

import envgen
from core import SpecDomain, ToolError

CLAUSES = {
    "C01": ("contain.",),
    "C02": ("absorb.",),
    "C03": ("route.", "progress."),
    "C05": ("steep.",),
    "C06": ("time.",),
    "C07": ("hist.",),
    "C08": ("vars.", "gen.prevvars", "gen.intvars"),
    "C09": ("target.",),
    "C10": ("limit.",),
    "C11": ("gen.", "api.clear", "api.norun"),
    "C12": ("repeat.", "isolate.", "gen.prevchanged", "hist.returned"),
}


# ---------------------------------------------------------------- scenarios
class Batch:
    def __init__(self):
        self.envs, self.eps = [], []

    def env(self, e):
        self.envs.append(e)
        return len(self.envs)

    def ep(self, envs, calls, rng, seed=None, twin=0):
        self.eps.append({"envs": envs, "calls": calls, "twin": twin,
                         "seed": rng.randrange(2**31) if seed is None else seed})
        return len(self.eps)

    def random(self, rng, **kw):
        ep = envgen.rand_episode(rng, self.envs, 0, **kw)
        ep["twin"] = 0
        self.eps.append(ep)
        return ep

    def json(self):
        return {"envs": self.envs, "episodes": self.eps}


def new(o, env, share=0):
    return {"op": "new", "obj": o, "env": env, "share": share}


def gen(o, cells, n=None, method="exact", prev="none", t0=0, cont="list", **kw):
    d = {"op": "gen", "obj": o, "n": len(cells) if n is None else n,
         "xs": [c[0] for c in cells], "ys": [c[1] for c in cells],
         "t0": t0, "method": method, "prev": prev, "cont": cont}
    d.update(kw)
    return d


def step(o=1):
    return {"op": "step", "obj": o}


def target(T, maxit=60, o=1):
    return {"op": "target", "obj": o, "T": T, "maxit": maxit}


def all_cells(e):
    return [(i, j) for i in range(e["L"]) for j in range(e["W"])]


def programs(rng, progs, b, count, **over):
    """Turn TLC generated call sequences (Lifecycle) into concrete episodes."""
    for p in rng.sample(progs, min(count, len(progs))):
        e1 = envgen.make_env(rng, rng.choice(["basin", "random", "channel", "still", "patchy"]), **over)
        share = p[1]["share"]
        e2 = e1 if share else envgen.make_env(
            rng, rng.choice(["basin", "random", "channel"]),
            **dict(over, vars=rng.sample(envgen.ALLVARS, rng.randint(0, 4)),
                   roi=[]))
        if not share:
            # walks can be handed over between domains of one size only
            e2 = envgen.make_env(rng, "basin", **dict(
                over, vars=rng.sample(envgen.ALLVARS, rng.randint(0, 4)), roi=[]))
            L, W = min(e1["L"], e2["L"]), min(e1["W"], e2["W"])
            e1, e2 = crop(e1, L, W), crop(e2, L, W)
        i1, i2 = b.env(e1), b.env(e2)
        es = {1: e1, 2: e2}
        calls = []
        for c in p:
            o = c["obj"]
            if c["op"] == "new":
                calls.append(new(o, i1 if o == 1 else i2, c["share"]))
            elif c["op"] == "gen":
                pv = {"none": "none", "self": "live:%d" % o}.get(
                    c["prev"], "%s:%d" % (c["prev"], 3 - o))
                n = c["n"]
                xs, ys = envgen.rand_seeds(rng, es[o], rng.randint(1, 3)) if n else ([], [])
                calls.append(gen(o, list(zip(xs, ys)), n=n, method=c["method"],
                                 prev=pv, t0=rng.choice([0, 2500])))
            elif c["op"] == "step":
                calls.append(step(o))
            elif c["op"] in ("near", "far"):
                dt = envgen.typical_dt(es[o])
                T = rng.randint(0, dt) if c["op"] == "near" else rng.randint(3 * dt, 8 * dt)
                calls.append(target(T, rng.choice([1, 4, 40]), o))
            elif c["op"] == "clear":
                calls.append({"op": "clear", "obj": o})
            elif c["op"] == "load":
                calls.append({"op": "load", "obj": o, "from": 3 - o, "bare": c["bare"]})
        b.ep([i1, i2], calls, rng)


def common(rng, b, k, progs, **over):
    """every property of walks holds in every call sequence and kind of domain"""
    programs(rng, progs, b, 12 * k, **over)
    for _ in range(6 * k):      # a fresh start, also for particles that stood still
        e = envgen.make_env(rng, rng.choice(["basin", "custom", "pits", "still", "patchy"]), **over)
        i = b.env(e)
        dt = envgen.typical_dt(e)
        edge = [c for c in all_cells(e) if c[0] in (0, e["L"] - 1) or c[1] in (0, e["W"] - 1)]

        def some():
            m = [rng.choice(edge) if rng.random() < .4 else c
                 for c in zip(*envgen.rand_seeds(rng, e, 5))]
            rng.shuffle(m)
            return m
        calls = [new(1, i), gen(1, some())] + [step()] * rng.randint(1, 3)
        for _ in range(3):
            calls.append(rng.choice([{"op": "clear", "obj": 1}, {"op": "clear", "obj": 1},
                                     gen(1, some(), prev=rng.choice(["copy:1", "none", "bare:1"]))]))
            if calls[-1]["op"] == "clear":
                calls.append(gen(1, some(), t0=rng.choice([0, 0, 5000])))
            calls += [step()] * rng.randint(0, 3)
            if rng.random() < .5:
                calls.append(target(rng.randint(1, 8) * dt, 30))
        b.ep([i], calls, rng)
    every_cell(rng, b, ["nan"], 2 * k, over=over, steps=2)
    every_cell(rng, b, ["pits", "nan", "random", "custom"], 2 * k,
               over=dict(over, vars=list(envgen.ALLVARS)), steps=2, reps=1)


def crop(e, L, W):
    e = dict(e, L=L, W=W)
    for k in ("depth", "stage", "topo", "fx", "fy", "ctype", "roi"):
        if e[k]:
            e[k] = [r[:W] for r in e[k][:L]]
    return e


def lifecycle_programs(ck, num=None, calls=7):
    num = num or (60 if ck.quick else 400)
    return ck.generate("Lifecycle", {"CALLS": str(calls)},
                       ["-simulate", "num=%d" % num, "-depth", str(calls + 3),
                        "-seed", str(1 + ck.seed)])


def every_cell(rng, b, kinds, n, over=None, steps=3, reps=2):
    """particles in every cell of a domain, stepped together"""
    for _ in range(n):
        e = envgen.make_env(rng, rng.choice(kinds), **(over or {}))
        i = b.env(e)
        cells = all_cells(e) * reps
        b.ep([i], [new(1, i), gen(1, cells)] + [step()] * steps, rng)


def large(rng, b, n, **over):
    """long domains, walks of more than a thousand steps, many particles"""
    for _ in range(n):
        e = envgen.make_env(rng, "long", **over)
        i = b.env(e)
        L, W = e["L"], e["W"]
        cells = [(rng.randint(1, L - 2), rng.randint(1, W - 2)) for _ in range(5)]
        far = [(L - 2 - rng.randint(0, min(20, L - 3)), W - 2 - rng.randint(0, min(20, W - 3)))
               for _ in range(4)]
        dt = envgen.typical_dt(e)
        b.ep([i], [new(1, i), gen(1, cells + far)] + [step()] * 3
             + [target(8 * dt, 20), step()], rng)
        # nobody can leave: walks of hundreds of steps
        e = envgen.make_env(rng, "basin", **over)
        e["ctype"] = [[0] * e["W"] for _ in range(e["L"])]
        if rng.random() < .5:
            e["ctype"] = [[2 if a in (0, e["L"] - 1) or c in (0, e["W"] - 1) else 0
                           for c in range(e["W"])] for a in range(e["L"])]
        i = b.env(e)
        dt = envgen.typical_dt(e)
        cells = list(zip(*envgen.rand_seeds(rng, e, 1)))
        b.ep([i], [new(1, i), gen(1, cells), step(), target(150 * dt, 140),
                   target(150 * dt, 137), target(1500 * dt, 850), step()], rng)
        # more particles than one byte counts
        e = envgen.make_env(rng, "basin", **over)
        i = b.env(e)
        cells = list(zip(*envgen.rand_seeds(rng, e, 7)))
        b.ep([i], [new(1, i), gen(1, cells, n=rng.choice([270, 1100]), method=rng.choice(["exact", "random"])),
                   step(), gen(1, cells, n=3), step(), target(3 * envgen.typical_dt(e), 2)], rng)
        # many particles stop at edges everywhere
        e = envgen.make_env(rng, "custom", **dict(over, model="DeltaRCM"))
        e["ctype"] = [[-1 if rng.random() < .07 else rng.choice([0, 1])
                       for c in range(e["W"])] for a in range(e["L"])]
        i = b.env(e)
        cells = list(zip(*envgen.rand_seeds(rng, e, 40)))
        b.ep([i], [new(1, i), gen(1, cells, n=rng.choice([560, 700])), step(), step(), step(),
                   target(20 * envgen.typical_dt(e), 4)], rng)
        # domains of more cells than two bytes count: a tile repeated
        for vast in ((270, 265), (2, 70000) if rng.random() < .5 else (70000, 5), (1200, 60)):
            e = envgen.make_env(rng, rng.choice(["basin", "patchy", "random"]), **over)
            rng.random() < .5 and e.update(ctype=[])
            e["L"], e["W"] = vast
            i = b.env(e)
            cells = [(e["L"] - 1 - rng.randrange(2, max(3, min(25, e["L"] - 2))) if e["L"] > 9 else rng.randrange(e["L"]),
                      rng.randrange(e["W"])) for _ in range(25)]
            cells += [(rng.randrange(e["L"]), rng.randrange(e["W"])) for _ in range(15)]
            b.ep([i], [new(1, i), gen(1, cells), step(), step(),
                       target(8 * envgen.typical_dt(e), 12), step()], rng)


def confusable(rng, b, n, **over):
    """particles in cells that are easily taken for each other"""
    for _ in range(n):
        e = envgen.make_env(rng, "custom", **dict(over, model="DeltaRCM"))
        e["ctype"] = [[-1 if rng.random() < .04 else rng.choice([0, 1, 1, 1])
                       for c in range(e["W"])] for a in range(e["L"])]
        e["L"], e["W"] = 70, 1300
        i = b.env(e)
        for base in rng.sample([10, 100, 128, 256, 1000, 1024, 70, 1], 4):
            cells = []
            for _ in range(8):
                r, c = rng.randint(1, 60), rng.randint(3, 68) + base
                d = rng.randint(1, 3) if base < 300 else 1
                cells += [(r, c), (r + d, c - d * base)] if c - d * base >= 0 else [(r, c)]
                cells += [(r, c - base), (c - base, r)] if rng.random() < .4 else []
            cells = [c for c in cells if c[0] < 70]
            b.ep([i], [new(1, i), gen(1, cells), step(), step(), step(),
                       target(8 * envgen.typical_dt(e), 8), step()], rng)


def whirl(rng, b, long=True, **over):
    """a closed vortex: thousands of steps; the step limit as it comes"""
    e = envgen.make_env(rng, "basin", **dict(
        dict(vars=[], roi=[], sd=False) if long else {}, mode="ds", flow="uv", dx=10,
        model="DeltaRCM", omit=[], dc=20, gamma=5, theta2=2, verbose=True, **over))
    L, W = e["L"], e["W"]
    e["ctype"] = [[2 if a in (0, L - 1) or c in (0, W - 1) else 0 for c in range(W)]
                  for a in range(L)]
    e["fx"] = [[20 * (2 * c - W + 1) or 20 for c in range(W)] for _ in range(L)]
    e["fy"] = [[-20 * (2 * a - L + 1) or 20] * W for a in range(L)]
    e["depth"] = [[100 * rng.randint(2, 4) for _ in range(W)] for _ in range(L)]
    e["stage"] = [[0] * W for _ in range(L)]
    i = b.env(e)
    if not long:
        b.ep([i], [new(1, i), gen(1, [(2, 2), (3, 3)]), target(700000, 3000), step(), step(),
                   target(1200000, 3000), gen(1, [(2, 3)], t0=1200000), step(),
                   target(1203000), step()], rng)
        return
    last = dict(target(60000000, 10000), default=True)
    b.ep([i], [new(1, i), gen(1, [(2, 2), (3, 3)]), dict(target(8000000, 10000), default=True),
               target(8004000), last, step()], rng)


def scen_C01(ck, b, rng, k):
    every_cell(rng, b, ["thin", "custom", "custom", "random", "basin", "nan"], 8 * k)
    for _ in range(25 * k):
        b.random(rng, kinds=["thin", "custom", "random", "patchy", "pits", "nan", "basin"])
    for _ in range(8 * k):        # long walks
        e = envgen.make_env(rng, rng.choice(["basin", "custom", "channel"]))
        i = b.env(e)
        xs, ys = envgen.rand_seeds(rng, e, 6)
        dt = envgen.typical_dt(e)
        b.ep([i], [new(1, i), gen(1, list(zip(xs, ys)))] + [step()] * 12
             + [target(40 * dt, 80)] + [step()] * 2, rng)


def scen_C02(ck, b, rng, k):
    every_cell(rng, b, ["custom", "custom", "thin", "channel", "random"], 8 * k, steps=2)
    for _ in range(30 * k):
        e = envgen.make_env(rng, rng.choice(["custom", "basin", "channel", "random"]))
        i = b.env(e)
        xs, ys = envgen.rand_seeds(rng, e, 6)
        dt = envgen.typical_dt(e)
        calls = [new(1, i), gen(1, list(zip(xs, ys)))] + [step()] * rng.randint(3, 8)
        calls += [target(20 * dt, 60), step(), gen(1, list(zip(xs, ys))[:2]), step(),
                  target(25 * dt, 60), target(60 * dt, 60), step()]
        b.ep([i], calls, rng)
    for _ in range(10 * k):
        b.random(rng, kinds=["custom", "thin", "channel"])


def scen_C03(ck, b, rng, k):
    every_cell(rng, b, ["random", "pits", "nan", "patchy", "still", "custom", "basin"],
               16 * k, reps=4, steps=2, over={"sd": False})
    for _ in range(25 * k):
        b.random(rng, kinds=["random", "pits", "nan", "patchy", "still", "custom"],
                 over={"sd": False})


def scen_C05(ck, b, rng, k):
    every_cell(rng, b, ["random", "pits", "nan", "patchy", "still", "custom", "basin", "channel"],
               20 * k, reps=3, steps=3, over={"sd": True})
    for _ in range(20 * k):
        b.random(rng, over={"sd": True})
    # weights that differ by less than a percent
    every_cell(rng, b, ["near"], 5 * k, reps=3, steps=2, over={"sd": True})


def scen_C06(ck, b, rng, k):
    for dc in (0, 0, 20, 100):
        every_cell(rng, b, ["random", "basin", "patchy", "basin", "still"], 5 * k, reps=3,
                   over={"dc": dc, "omit": []})
    for _ in range(20 * k):
        b.random(rng, kinds=["random", "basin", "patchy", "channel", "still"])


def scen_C07(ck, b, rng, k):
    programs(rng, lifecycle_programs(ck), b, 60 * k)
    for _ in range(25 * k):
        b.random(rng)


def scen_C08(ck, b, rng, k):
    programs(rng, lifecycle_programs(ck), b, 50 * k,
             vars=list(envgen.ALLVARS))
    for _ in range(30 * k):
        e = envgen.make_env(rng, rng.choice(["random", "basin", "nan", "patchy"]),
                            vars=list(envgen.ALLVARS))
        ids = rng.choice([[0, 1, 1, 2], [0, 1, -1, 3], [0, 1, 256, 257], [1, -255, 65537, 40000, 0]])
        if rng.random() < .6:
            e["roi"] = envgen.grid(e["L"], e["W"], lambda i, j: rng.choice(ids))
        i = b.env(e)
        dt = envgen.typical_dt(e)
        xs, ys = envgen.rand_seeds(rng, e, 5)
        b.ep([i], [new(1, i), gen(1, list(zip(xs, ys)), method=rng.choice(["exact", "random"]))]
             + [step()] * 3 + [target(6 * dt, 30), gen(1, list(zip(xs, ys))[:2]), step(),
                               target(12 * dt, 30)], rng)
    for _ in range(15 * k):
        b.random(rng, kinds=["random", "basin", "nan", "patchy"])


def scen_C09(ck, b, rng, k):
    for _ in range(50 * k):
        e = envgen.make_env(rng, rng.choice(["basin", "basin", "channel", "random", "patchy", "still"]))
        i = b.env(e)
        dt = envgen.typical_dt(e)
        xs, ys = envgen.rand_seeds(rng, e, 4)
        calls = [new(1, i), gen(1, list(zip(xs, ys)), t0=rng.choice([0, 0, dt]))]
        T = 0
        for _ in range(rng.randint(2, 6)):
            T += rng.choice([0, dt // 3, dt, 2 * dt, 5 * dt, -dt])
            calls.append(target(max(0, T), 60))
            if rng.random() < .2:
                calls.append(step())
        b.ep([i], calls, rng)
    for _ in range(25 * k):
        b.random(rng, ops=("target",))
    for _ in range(6 * k):      # seeded late: steps are short against the time
        e = envgen.make_env(rng, rng.choice(["basin", "basin", "random"]))
        i = b.env(e)
        dt = envgen.typical_dt(e)
        T = rng.choice([200, 1000, 3000, 10000]) * dt
        if T > 900000000:
            T = 900000000 - rng.randint(0, 1000000)
        calls = [new(1, i), gen(1, list(zip(*envgen.rand_seeds(rng, e, 4))), t0=T)]
        for _ in range(rng.randint(2, 5)):
            T += rng.choice([0, dt // 3, dt, 2 * dt, 5 * dt])
            calls.append(target(T, 60))
            if rng.random() < .2:
                calls.append(step())
        b.ep([i], calls, rng)


def scen_C10(ck, b, rng, k):
    for _ in range(50 * k):
        e = envgen.make_env(rng, rng.choice(["basin", "basin", "channel", "random", "pits"]),
                            verbose=rng.random() < .8)
        i = b.env(e)
        dt = envgen.typical_dt(e)
        xs, ys = envgen.rand_seeds(rng, e, 5)
        cells = list(zip(xs, ys))
        calls = [new(1, i), gen(1, cells)]
        for _ in range(rng.randint(1, 4)):
            calls.append(target(rng.choice([0, dt, 4 * dt, 50 * dt]),
                                rng.choice([1, 2, 3, 4, 7])))
        b.ep([i], calls, rng)
    for _ in range(5 * k):      # no particles at all
        e = envgen.make_env(rng, "basin")
        i = b.env(e)
        b.ep([i], [new(1, i), gen(1, [], n=0, method="random"), target(1000, 5), step()], rng)
    for _ in range(20 * k):
        b.random(rng, ops=("target",))
    e = envgen.make_env(rng, "basin", verbose=True, dry=10)      # long lists of particles
    i = b.env(dict(e, loud=True))
    b.ep([i], [new(1, i), gen(1, [(a, c) for a in range(2, e["L"] - 2)
                                             for c in range(2, e["W"] - 2)], n=1300), target(60 * envgen.typical_dt(e), 2)], rng)
    whirl(rng, b)


CONT = ["list", "array", "tuple", "array2", "row", "block", "block", "blockF", "blockF",
        "strided", "short", "unsigned", "numpyints"]
BAD = [({"n": "many"}, "TypeError"), ({"n": None}, "TypeError"),
       ({"xs": 3}, "TypeError"), ({"xs": ["a"]}, "TypeError"), ({"ys": 3}, "TypeError"),
       ({"ys": [None]}, "TypeError"),
       ({"seed_time": "0"}, "TypeError"), ({"seed_time": [1]}, "TypeError"),
       ({"method": 3}, "TypeError"), ({"method": "nearest"}, "ValueError")]


def scen_C11(ck, b, rng, k):
    for _ in range(k):             # very many at once
        e = envgen.make_env(rng)
        i = b.env(e)
        cells = [(rng.randrange(e["L"]), rng.randrange(e["W"])) for _ in range(rng.randint(2, 5))]
        b.ep([i], [new(1, i), gen(1, cells, n=rng.randint(500, 1500)), step(),
                   gen(1, cells[:2], n=rng.randint(300, 700)),
                   gen(1, cells, n=rng.randint(300, 700), method="random")], rng)
    for _ in range(60 * k):
        e = envgen.make_env(rng)
        i = b.env(e)
        calls = [new(1, i)]
        if rng.random() < .3:
            calls.append(step())           # not initialised
        for _ in range(rng.randint(1, 4)):
            m = rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 12])
            cells = [(rng.randrange(e["L"]), rng.randrange(e["W"])) for _ in range(m)]
            calls.append(gen(1, cells, n=rng.randint(0, 12),
                             method=rng.choice(["exact", "random"]),
                             t0=rng.choice([0, 1000, 12345]),
                             cont=rng.choice(CONT), cont2=rng.choice(CONT),
                             prev=rng.choice(["none", "none", "live:1", "json:1", "bare:1"])
                             if len(calls) > 2 else "none"))
            if rng.random() < .4:
                calls.append(step())
            if rng.random() < .15:
                calls.append({"op": "clear", "obj": 1})
                if rng.random() < .3:
                    calls.append(step())
            if rng.random() < .3:
                raw, err = rng.choice(BAD)
                calls.append(gen(1, cells, raw=raw, bad=err))
                if rng.random() < .4:       # no location to choose from
                    calls.append(gen(1, cells, n=rng.randint(1, 4), bad="any",
                                     raw={"xs": [], "ys": []},
                                     method=rng.choice(["exact", "random"])))
        b.ep([i], calls, rng)
    programs(rng, lifecycle_programs(ck), b, 40 * k)
    for _ in range(6 * k):      # every location of a random seeding is reachable
        e = envgen.make_env(rng, "basin")
        i = b.env(e)
        rows = rng.sample(range(e["L"]), rng.randint(1, e["L"]))
        cells = [(r, rng.randrange(e["W"])) for r in rows]
        b.ep([i], [new(1, i), dict(gen(1, cells, n=600, method="random"), spread=True)], rng)


GRIDS = ("depth", "stage", "topo", "fx", "fy", "ctype", "roi")


def lookalike(rng, e):
    """a domain of the same shape made of the same values in other places"""
    how = rng.choice(["rows", "cols", "both", "swap", "inner"])
    f = copy.deepcopy(e)
    for n in GRIDS:
        if f[n]:
            if how in ("rows", "both"):
                f[n] = f[n][::-1]
            if how in ("cols", "both"):
                f[n] = [r[::-1] for r in f[n]]
            if how == "inner":      # same rim
                f[n][1:-1] = [r[:1] + r[1:-1][::-1] + r[-1:] for r in f[n][1:-1]]
    if how == "swap":               # two inner cells changed places
        a, c = ((rng.randrange(1, e["L"] - 1), rng.randrange(1, e["W"] - 1)) for _ in range(2))
        for n in GRIDS:
            if f[n]:
                g = f[n]
                g[a[0]][a[1]], g[c[0]][c[1]] = g[c[0]][c[1]], g[a[0]][a[1]]
    return f


def scen_C12(ck, b, rng, k):
    def pair(calls_a, calls_b, envs):
        s = rng.randrange(2**31)
        a = b.ep(envs, calls_a, rng, seed=s)
        b.ep(envs, calls_b, rng, seed=s, twin=a)
    for _ in range(25 * k):     # repeatability
        ep = b.random(rng, kinds=["basin", "random", "channel", "custom"], ncalls=5)
        a = len(b.eps)
        b.eps.append(dict(copy.deepcopy(ep), twin=a))
    for _ in range(40 * k):     # parameters can be reused
        e = envgen.make_env(rng, rng.choice(["still", "patchy", "nan", "basin", "random"]))
        i, j = b.env(e), b.env(dict(e))
        dt = envgen.typical_dt(e)
        xs, ys = envgen.rand_seeds(rng, e, 5)
        cells = list(zip(xs, ys))
        tail = [gen(2, cells)] + [step(2)] * 3 + [target(6 * dt, 20, 2)]
        s = rng.randrange(2**31)
        # the second object is built from parameters the first one consumed,
        # or from equal ones of its own
        a = b.ep([i, j], [new(1, i), new(2, j, 0)] + tail, rng, seed=s)
        b.ep([i, j], [new(1, i), new(2, j, 1)] + tail, rng, seed=s, twin=a)
    for _ in range(30 * k):     # ... also after they were changed and changed back
        e = envgen.make_env(rng, rng.choice(["still", "patchy", "basin", "random"]),
                            gamma=rng.choice([5, 50]), theta2=2, dry=10, dc=20, omit=[],
                            sd=rng.random() < .3)
        f = dict(e, **rng.choice([{"sd": not e["sd"]}, {"sd": not e["sd"]}, {"gamma": 100},
                                  {"theta2": 0}, {"dry": 50}, {"dc": 0},
                                  {"gamma": 0, "sd": not e["sd"]}]))
        i, j, l = b.env(f), b.env(e), b.env(dict(e))
        dt = envgen.typical_dt(e)
        cells = list(zip(*envgen.rand_seeds(rng, e, 6)))
        tail = [{"op": "seed", "obj": 3, "seed": rng.randrange(2**31)}, gen(3, cells)] \
            + [step(3)] * 4 + [target(6 * dt, 20, 3)]
        s = rng.randrange(2**31)
        use = [gen(1, cells * 4)] + [step(1)] * 3
        a = b.ep([i, j, l], [new(1, i), new(2, j, 0)] + use + [new(3, l, 0)] + tail, rng, seed=s)
        b.ep([i, j, l], [new(1, i), new(2, j, 1)] + use + [new(3, l, 1)] + tail, rng, seed=s, twin=a)
    twins = []
    for _ in range(12 * k):     # nor does one on a domain that looks alike
        e = envgen.make_env(rng, rng.choice(["basin", "random", "channel", "custom", "patchy"]))
        f = lookalike(rng, e)
        i, j, l = b.env(f), b.env(e), b.env(dict(e))
        dt = envgen.typical_dt(e)
        cells = list(zip(*envgen.rand_seeds(rng, e, 8)))
        s = rng.randrange(2**31)
        body = [{"op": "seed", "obj": 2, "seed": rng.randrange(2**31)}, gen(2, cells)] \
            + [step(2)] * 4 + [target(5 * dt, 20, 2)]
        a = b.ep([i, j], [new(1, i), new(2, j)] + body, rng, seed=s)
        twins.append(([j, l], [new(1, l), new(2, j)] + body, s, a))
    b.eps[-12 * k]["fresh"] = True
    for ix, calls, s, a in twins:       # in a process that has not met those
        b.ep(ix, calls, rng, seed=s, twin=a)
    b.eps[-12 * k]["fresh"] = True
    for _ in range(10 * k):     # an idle second object changes nothing
        e, f = envgen.make_env(rng, "basin"), envgen.make_env(rng, "random")
        i, j = b.env(e), b.env(f)
        xs, ys = envgen.rand_seeds(rng, e, 4)
        cells = list(zip(xs, ys))
        dt = envgen.typical_dt(e)
        body = [gen(1, cells)] + [step(1)] * 3 + [target(5 * dt, 20, 1)]
        pair([new(1, i), new(2, j)] + body,
             [new(1, i), new(2, j), ] + body, [i, j])
    for _ in range(3 * k):      # many locations to choose from
        e = envgen.make_env(rng, rng.choice(["basin", "patchy"]))
        e["L"], e["W"] = rng.choice([(30, 30), (9, 150)])
        i = b.env(e)
        cells = list({(rng.randrange(2, e["L"] - 2), rng.randrange(2, e["W"] - 2))
                      for _ in range(rng.choice([300, 450]))})
        body = [new(1, i), gen(1, cells, n=rng.choice([25, 320]), method="random"), step(),
                gen(1, cells, n=9, method="random"), step()]
        pair(body, copy.deepcopy(body), [i])
    programs(rng, lifecycle_programs(ck), b, 40 * k)


def corrupt(prop, rec, rng):
    """Recordings with one planted contradiction of the property; the trace
    specification has to reject each of them (binding self test)."""
    out = []
    for ep in rec["episodes"]:
        if len(out) >= 4:
            break
        if ep["twin"]:
            continue
        for n, ev in enumerate(ep["events"]):
            if ev["op"] not in ("step", "target", "gen") or ev["err"]:
                continue
            w = ev["all"][ev["obj"] - 1]
            if "none" in w or not w["x"]:
                continue
            prevw = ep["events"][n - 1].get("all", [])
            pw = prevw[ev["obj"] - 1] if ev["obj"] <= len(prevw) else {"none": True}
            e = rec["envs"][ev["env"] - 1]
            c = copy.deepcopy(ep)
            c["events"] = c["events"][:n + 1]
            cev = c["events"][n]
            cw = cev["all"][ev["obj"] - 1]
            moved = [] if "none" in pw or ev["op"] == "gen" else [
                p for p in range(min(len(pw["x"]), len(w["x"])))
                if len(w["x"][p]) > len(pw["x"][p])]
            still = [] if "none" in pw or ev["op"] == "gen" else [
                p for p in range(min(len(pw["x"]), len(w["x"])))
                if len(w["x"][p]) == len(pw["x"][p])]
            ok = False
            if prop == "C01" and moved:
                cw["x"][moved[0]][-1] += 2 * e["L"]
                ok = True
            elif prop in ("C02",) and still:
                p = still[0]
                x, y = cw["x"][p][-1], cw["y"][p][-1]
                border = x in (0, e["L"] - 1) or y in (0, e["W"] - 1)
                if border:
                    for key, v in (("x", x), ("y", y + 1 if y == 0 else y - 1),
                                   ("t", cw["t"][p][-1])):
                        cw[key][p].append(v)
                    for v in cw["vars"]:
                        cw["vars"][v][p].append(cw["vars"][v][p][-1])
                    ok = True
            elif prop == "C06" and moved:
                cw["t"][moved[0]][-1] = cw["t"][moved[0]][-2] - 50
                ok = True
            elif prop == "C07" and moved:
                cw["x"][moved[0]][0] += 1
                ok = True
            elif prop == "C08" and moved and cw["vars"]:
                v = sorted(cw["vars"])[0]
                a = cw["vars"][v][moved[0]][-1]
                cw["vars"][v][moved[0]][-1] = a + 7 + abs(a) // 20
                ok = True
            elif prop == "C09" and ev["op"] == "target" and moved:
                cev["T"] = pw["t"][moved[0]][-1] - 5000
                ok = True
            elif prop == "C10" and ev["op"] == "target" and moved and ev["verbose"]:
                p = moved[0]
                cev["maxit"] = len(w["x"][p]) - len(pw["x"][p])
                cev["warn"], cev["warnids"] = 0, []
                ok = True
            elif prop == "C11" and ev["op"] == "gen" and ev["n"] > 0 and not ev["bad"]:
                cw["x"][-1][0] = 77
                ok = True
            elif prop == "C12" and moved:
                cev["retsame"] = False
                ok = True
            elif prop in ("C03", "C05") and moved:
                # against the recorded choice: put it somewhere dry
                p = moved[0]
                x0, y0 = cw["x"][p][-2], cw["y"][p][-2]
                if not (0 < x0 < e["L"] - 1 and 0 < y0 < e["W"] - 1) or len(e["depth"]) != e["L"] \
                        or len(e["depth"][0]) != e["W"]:
                    continue
                dry = [(x0 + a, y0 + d) for a in (-1, 0, 1) for d in (-1, 0, 1)
                       if (a or d) and 0 <= e["depth"][x0 + a][y0 + d] <= e["dry"]]
                deep = max(e["depth"][x0 + a][y0 + d] for a in (-1, 0, 1) for d in (-1, 0, 1))
                if dry and deep > e["dry"] and (prop == "C03" or e["sd"]):
                    cw["x"][p][-1], cw["y"][p][-1] = dry[0]
                    ok = True
            if ok:
                out.append(c)
                break
    return out


def judge_shards(ck, module, rec, shards):
    """split a recording over several TLC runs; twins stay together"""
    eps = rec["episodes"]
    groups, group_of = [], {}
    for i, ep in enumerate(eps):
        t = ep["twin"]
        if t:
            group_of[i] = group_of[t - 1]
            groups[group_of[i]].append(i)
        else:
            group_of[i] = len(groups)
            groups.append([i])
    # balance by recorded steps
    def cost(i):
        return 1 + sum(len(ev.get("all", [])) for ev in eps[i]["events"])
    parts = [[] for _ in range(shards)]
    load = [0] * shards
    for g in sorted(groups, key=lambda g: -sum(cost(i) for i in g)):
        s = load.index(min(load))
        parts[s] += g
        load[s] += sum(cost(i) for i in g)
    def document(part):
        pos = {old: k for k, old in enumerate(part)}
        sub = []
        used = {}
        for old in part:
            ep = copy.copy(eps[old])
            ep["twin"] = pos[ep["twin"] - 1] + 1 if ep["twin"] else 0
            evs = []
            for ev in ep["events"]:
                if "env" in ev:
                    k = used.setdefault(ev["env"], len(used) + 1)
                    ev = dict(ev, env=k)
                evs.append(ev)
            ep["events"] = evs
            sub.append(ep)
        envs = [rec["envs"][k - 1] for k in sorted(used, key=used.get)]
        return {"envs": envs, "episodes": sub}

    def one(part):
        try:
            return [(part, ck.judge(module, document(part)))]
        except SpecDomain as ex:
            # a recorded value the specification has no meaning for
            gs = []
            for i in part:
                if eps[i]["twin"] and gs:
                    gs[-1].append(i)
                else:
                    gs.append([i])
            if len(gs) == 1:
                return [(part, {"fails": [{"ep": 1, "ev": 0, "p": 0, "clause": "recording.domain",
                                           "info": str(ex)[-300:]}],
                                "seen": {"steps": 0, "events": 0}})]
            h = len(gs) // 2
            return one([i for g in gs[:h] for i in g]) + one([i for g in gs[h:] for i in g])
    res = []
    for r in ck.parallel([lambda p=p: one(p) for p in parts if p], shards):
        res += r
    fails, steps, events = [], 0, 0
    for part, r in res:
        for f in r["fails"]:
            f["ep"] = part[f["ep"] - 1]
            fails.append(f)
        steps += r["seen"]["steps"]
        events += r["seen"]["events"]
    return fails, steps, events


def strip(e):
    return dict({"slow": max(1, math.ceil(1 / e.get("vf", 1)))}, **{k: e[k] for k in ("L", "W", "dx", "depth", "stage", "topo", "fx", "fy",
                              "flow", "model", "theta2", "gamma", "dry", "dc", "sd",
                              "ctype", "roi", "vars")})


def chunks_of(b, size):
    """split a batch over several driver processes, keeping twins together"""
    out, cur = [], []
    for i, ep in enumerate(b.eps):
        if ep.get("fresh") or len(cur) >= size and not ep["twin"]:
            out.append(cur)
            cur = []
        cur.append(i)
    if cur:
        out.append(cur)
    res = []
    for part in out:
        off = part[0]
        eps = []
        for i in part:
            ep = dict(b.eps[i])
            ep["twin"] = max(0, ep["twin"] - off)     # 0: in another process
            eps.append(ep)
        res.append({"envs": b.envs, "episodes": eps})
    return res, out


def rescale(rng, b):
    """other magnitudes for a third of the domains (those that meet, together)"""
    group = list(range(len(b.envs)))

    def find(i):
        while group[i] != i:
            i = group[i]
        return i
    for ep in b.eps:
        for i in ep["envs"]:
            group[find(i - 1)] = find(ep["envs"][0] - 1)
    sets = {}
    for i in range(len(b.envs)):
        sets.setdefault(find(i), []).append(b.envs[i])
    for g in sets.values():
        if not any(n in e for e in g for n in ("sf", "df", "vf")) and rng.random() < .35:
            envgen.rescale(rng, g)


def extremes(rng, b, n, **over):
    """trickles and torrents, films of water and deep sea"""
    for j in range(n):
        e = envgen.make_env(rng, rng.choice(["basin", "random", "custom"]) if j % 6 > 3 else "basin",
                            **dict(dict(mode="ds", flow="uv", omit=[]), **over))
        for name in ("fx", "fy"):      # no still water
            e[name] = [[v or 7 for v in r] for r in e[name]]
        e["vf"], e["df"] = [(.0005, .0001), (1000, 3000), (.05, .001), (.0005, .0001),
                            (300, .0001), (1000, .01)][j % 6]
        if e["vf"] < .001:       # nothing but a trickle
            e["gamma"] = 0
        e["sf"] = rng.choice([1, .000001, .001, 300])
        i = b.env(e)
        dt = envgen.typical_dt(e)
        cells = all_cells(e) if e["kind"] == "basin" else list(zip(*envgen.rand_seeds(rng, e, 20)))
        b.ep([i], [new(1, i), gen(1, cells), step(), step(), target(5 * dt, 12), step()], rng)


def mirrored(rng, b, n, **over):
    """domains that only differ in where things are: nothing computed for one
    may serve the other"""
    def flip(e, how):
        f = dict(e)
        for k in ("depth", "stage", "topo", "fx", "fy", "ctype", "roi"):
            if e[k]:
                a = [list(r) for r in e[k]]
                a = a[::-1] if how != "cols" else a
                f[k] = [r[::-1] for r in a] if how != "rows" else a
        return f
    for _ in range(n):
        e = envgen.make_env(rng, rng.choice(["custom", "custom", "custom", "random", "channel"]),
                            **over)
        if e["kind"] == "custom" and rng.random() < .5:     # edges on one side only
            q = rng.choice([1, 2, e["W"] // 2])
            e["ctype"] = [[-1 if c == q else abs(t) for c, t in enumerate(r)] for r in e["ctype"]]
        fs = [e] + [flip(e, how) for how in rng.sample(["rows", "cols", "both"], 2)]
        ix = [b.env(f) for f in fs]
        dt = envgen.typical_dt(e)
        calls = []
        for o in (1, 2, 3):
            calls += [new(o, ix[o - 1]), gen(o, all_cells(e))] + [step(o)] * rng.randint(0, 2)
        for _ in range(6):
            o = rng.choice([1, 2, 3])
            calls.append(step(o) if rng.random() < .7 else target(rng.randint(1, 6) * dt, 8, o))
        b.ep(ix, calls, rng)


def run(ck, prop):
    rng = ck.rng
    level = 0 if ck.quick else 1
    b = Batch()
    globals()["scen_" + prop](ck, b, rng, 2 if ck.quick else 12)
    over = {"C03": {"sd": False}, "C05": {"sd": True}}.get(prop, {})
    large(rng, b, 1 if ck.quick else 8, **over)
    for _ in range(1 if ck.quick else 4):
        whirl(rng, b, False, **over)
    if prop != "C12":
        common(rng, b, 1 if ck.quick else 6, lifecycle_programs(ck), **over)
        mirrored(rng, b, 2 if ck.quick else 16, **over)
    extremes(rng, b, 4 if ck.quick else 32, **over)
    confusable(rng, b, 1 if ck.quick else 6, **over)
    rescale(rng, b)
    for e in b.envs[4::6]:
        e["verbose"] = e.get("loud", False)
    parts, idx = chunks_of(b, max(20, len(b.eps) // 6))
    jobs = [lambda p=p: ck.drive("walk", p) for p in parts]
    jobs.append(lambda: ck.model("MCWalk", level=level, workers=2 if ck.quick else 6))
    res = ck.parallel(jobs, 8)
    rec = {"envs": [strip(e) for e in b.envs], "episodes": []}
    for part, r in zip(idx, res):
        for ep in r["episodes"]:
            ep["twin"] = b.eps[len(rec["episodes"])]["twin"]
            if ep["twin"] and not rec["episodes"][ep["twin"] - 1]["events"]:
                ep.update(events=[], twin=0)
            if "crash" in ep:
                sc = b.eps[len(rec["episodes"])]
                ck.add_fail("recording.failed", ep.pop("crash"),
                            {"seed": sc["seed"], "calls": sc["calls"]})
            rec["episodes"].append(ep)
    n_real = len(rec["episodes"])
    try:
        bad = corrupt(prop, rec, rng)
    except Exception:               # the recordings themselves are malformed
        bad = []
    rec["episodes"] += bad
    fails, steps, events = judge_shards(ck, "WalkTrace", rec, 6)
    want = CLAUSES[prop] + ("api.error", "recording.domain")
    caught = {f["ep"] for f in fails if f["ep"] >= n_real and f["clause"].startswith(CLAUSES[prop])}
    if (not bad or len(caught) < len(bad)) and not ck.fails \
            and not any(f["ep"] < n_real for f in fails):
        raise ToolError("binding self test: %d of %d corrupted recordings accepted"
                        % (len(bad) - len(caught), len(bad)))
    for f in fails:
        if f["ep"] < n_real and f["clause"].startswith(want):
            sc = b.eps[f["ep"]]
            ck.add_fail(f["clause"], "%s particle %s" % (f["info"], f["p"]),
                        {"seed": sc["seed"], "calls": sc["calls"],
                         "envs": {i: b.envs[i - 1] for i in set(
                             c["env"] for c in sc["calls"] if c["op"] == "new")}},
                        "episode %d call %d" % (f["ep"] + 1, f["ev"]))
    ck.traces += n_real
    ck.cov.update(calls_recorded=events, particle_steps_judged=steps,
                  corrupted_recordings_rejected=len(caught),
                  clauses=list(want))
    ck.samples += [{"calls": ep["calls"][:6], "seed": ep["seed"]} for ep in b.eps[:2]]
