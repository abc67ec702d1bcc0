"""Concrete hydrodynamic domains and call sequences for the walk family.

Everything is integers in the units of spec/Num.tla (cm, cm/s, ms, percent);
drive.py turns them into dorado inputs.  No dorado code is imported here.
"""
import random

NAN = -99999
ALLVARS = ["depth", "stage", "qx", "qy", "u", "v"]
PYTH = [(3, 4), (4, 3), (5, 12), (8, 15), (20, 21), (5, 0), (0, 5), (10, 10),
        (7, 24), (60, 80), (1, 0), (0, 1), (30, 30), (100, 0), (0, 100)]


def grid(L, W, f):
    return [[f(i, j) for j in range(W)] for i in range(L)]


def make_env(rng, kind=None, **over):
    kind = kind or rng.choice(["channel", "channel", "random", "random",
                               "patchy", "still", "pits", "nan", "custom",
                               "custom", "thin", "basin"])
    L = rng.randint(5, 9)
    W = rng.randint(5, 9)
    if kind == "thin":
        if rng.random() < .5:
            L = rng.choice([3, 4, 5])
        else:
            W = rng.choice([3, 4, 5])
    if kind == "basin":
        L, W = rng.randint(7, 11), rng.randint(7, 11)
    if kind == "long":       # indices beyond one byte
        L, W = rng.choice([(4, 290), (290, 4), (5, 140), (140, 5), (7, 135)])
    mode = over.get("mode") or rng.choice(["ds", "ds", "ds", "dt", "st"])
    if kind == "near":
        mode = "ds"
    step = 25 if mode != "ds" else 1

    def q(v):            # quantise where sums of floats must be exact
        return (v // step) * step

    if kind in ("channel", "thin"):
        a = rng.choice([0, 1, 2])
        def f(i, j):
            on = {0: abs(i - L // 2) <= 1, 1: abs(j - W // 2) <= 1,
                  2: abs(i - j) <= 1}[a]
            return q(rng.choice([100, 150, 200, 300])) if on else \
                rng.choice([0, 0, 0, 5 if step == 1 else 0])
    elif kind in ("basin", "long"):
        def f(i, j):
            return q(rng.choice([100, 150, 200, 250]))
    elif kind == "near":
        def f(i, j):
            return q(rng.choice([398, 399, 400, 401, 402]))
    elif kind == "pits":
        def f(i, j):
            return q(rng.choice([0, 0, 0, 3 if step == 1 else 0, 50, 200]))
    else:
        def f(i, j):
            return q(rng.choice([0, 3 if step == 1 else 0, 10 if step == 1
                                 else 25, 11 if step == 1 else 25,
                                 50, 75, 100, 100, 200, 350]))
    depth = grid(L, W, f)
    base = rng.choice([0, 0, 100, -300, 0, 0, 100, -300, 250000, -450000])
    slope = rng.choice([0, 0, 1, 2, 5, -3])
    rough = rng.choice([0, 0, 0, 2, 10])
    stage = grid(L, W, lambda i, j: q(base + slope * (i + j)
                                      + rng.randint(-rough, rough)) if
                 step == 1 else q(base + 25 * rng.randint(-2, 2)))
    # flow: velocities, turned into discharges where needed
    fv = rng.choice(["uniform", "random", "mixed"])
    u0, v0 = rng.choice(PYTH)
    if kind == "near":      # diagonal flow favours three neighbours equally
        fv, (u0, v0) = "uniform", (30, 30)
    u0 *= rng.choice([-1, 1])
    v0 *= rng.choice([-1, 1])

    def flow(i, j):
        if kind == "still":
            return (0, 0) if rng.random() < .85 else (rng.randint(-9, 9),
                                                      rng.randint(-9, 9))
        if fv == "uniform":
            return (u0, v0)
        if fv == "random":
            a, b = rng.choice(PYTH)
            return (a * rng.choice([-1, 1]), b * rng.choice([-1, 1]))
        return (u0, v0) if rng.random() < .6 else (rng.randint(-60, 60),
                                                   rng.randint(-60, 60))
    uv = grid(L, W, flow)
    if kind == "patchy":
        uv = grid(L, W, lambda i, j: uv[i][j] if rng.random() < .6 else (0, 0))
    topo = []
    if mode == "dt":
        topo = grid(L, W, lambda i, j: stage[i][j] - depth[i][j])
        stage = []
    elif mode == "st":
        # topography above the stage where it is dry
        topo = grid(L, W, lambda i, j: stage[i][j] - depth[i][j] if depth[i][j]
                    else stage[i][j] + 25 * rng.randint(0, 3))
    e = {"L": L, "W": W, "dx": rng.choice([10, 50, 100, 500, 25, 3, 333, 2500]),
         "mode": mode, "kind": kind,
         "depth": [] if mode == "st" else depth, "stage": stage, "topo": topo,
         "flow": rng.choice(["q", "q", "uv"]),
         "model": rng.choice(["DeltaRCM", ""]),
         "theta2": rng.choice([0, 1, 2, 2, 3, 4, 0, 1, 2, 2, 3, 4, 6, 10, 7]),
         "gamma": rng.choice([0, 5, 5, 30, 50, 100]),
         "dry": rng.choice([10, 10, 10, 0, 1, 50]),
         "dc": rng.choice([0, 20, 20, 100]),
         "sd": rng.random() < .25, "ctype": [], "roi": [], "vars": [],
         "omit": [], "verbose": True}
    if rng.random() < .35:    # rely on defaults
        for k, val in (("theta2", 2), ("gamma", 5), ("dry", 10)):
            if rng.random() < .6:
                e[k] = val
                e["omit"].append(k)
        if rng.random() < .6:
            e["dc"] = 0 if e["sd"] else 20
            e["omit"].append("dc")
    if rng.random() < .5:
        e["vars"] = rng.sample(ALLVARS, rng.randint(1, len(ALLVARS)))
    if rng.random() < .35:
        e["roi"] = grid(L, W, lambda i, j: int(rng.random() < .5))
        if rng.random() < .3 and "roi_flag" not in e["vars"]:
            e["vars"] = e["vars"] + ["roi_flag"]
    if kind == "near":
        e.update(theta2=2, gamma=0)
        e["omit"] = [k for k in e["omit"] if k not in ("theta2", "gamma")]
    e.update({k: v for k, v in over.items() if k != "mode"})
    if kind == "custom" and not e["ctype"]:
        flavour = rng.choice(["noedge", "interior", "partial", "land"])
        def ct(i, j):
            border = i in (0, L - 1) or j in (0, W - 1)
            if flavour == "noedge":
                return rng.choice([0, 1, 1, 1, 2])
            if flavour == "interior":
                return -1 if (not border and rng.random() < .06) else \
                    rng.choice([0, 1])
            if flavour == "partial":
                return -1 if (border and rng.random() < .3) else \
                    rng.choice([1, 1, 1, 1, 2])
            return -1 if border else rng.choice([0, 1, 2])
        e["ctype"] = grid(L, W, ct)
    # dry cells carry no discharge
    def d_eff(i, j):
        if e["mode"] == "st":
            return max(0, stage[i][j] - topo[i][j])
        return depth[i][j]
    if e["flow"] == "q":
        e["fx"] = grid(L, W, lambda i, j: uv[i][j][0] * d_eff(i, j))
        e["fy"] = grid(L, W, lambda i, j: uv[i][j][1] * d_eff(i, j))
    else:
        e["fx"] = grid(L, W, lambda i, j: uv[i][j][0])
        e["fy"] = grid(L, W, lambda i, j: uv[i][j][1])
    if kind == "nan":
        for name in ("fx", "fy", "stage", "depth", "topo"):
            a = e[name]
            if not a or (name == "topo" and mode != "st"):
                continue
            for _ in range(rng.choice([0, 1, 2, 4, L * W // 6, L * W // 4])):
                i, j = rng.randrange(L), rng.randrange(W)
                a[i][j] = NAN
                if name in ("depth", "stage", "topo"):
                    # where the depth vanishes a discharge has no velocity
                    if name != "stage" or mode == "st":
                        if e["flow"] == "q":
                            e["fx"][i][j] = 0
                            e["fy"][i][j] = 0
    return e


def rescale(rng, envs):
    """The same domains in other magnitudes: shallower or deeper water, gentler
    or steeper surfaces, faster flow over larger cells.  None of it changes what
    the specification allows, so only the inputs are multiplied.  One factor
    for all of envs, which may hand over walks to each other."""
    f = {}
    if all(e["mode"] == "ds" for e in envs):
        f["sf"] = rng.choice([1, .0001, .01, 30, 3000])
        if all(e["flow"] == "uv" and "dry" not in e["omit"] for e in envs):
            f["df"] = rng.choice([1, .002, .05, 30])
    if all(e["flow"] == "uv" and all(a or b for r, q in zip(e["fx"], e["fy"])
                                     for a, b in zip(r, q))
           and not any(NAN in r for r in e["fx"] + e["fy"]) for e in envs):
        f["vf"] = rng.choice([1, .02, .1, 8])
    for e in envs:
        e.update(f)


def wet_cells(e):
    L, W = e["L"], e["W"]
    out = []
    for i in range(1, L - 1):
        for j in range(1, W - 1):
            if e["mode"] == "st":
                a, b = e["stage"][i][j], e["topo"][i][j]
                d = 0 if NAN in (a, b) else max(0, a - b)
            else:
                d = e["depth"][i][j]
            if d != NAN and d > e["dry"]:
                out.append((i, j))
    return out


def rand_seeds(rng, e, n):
    wet = wet_cells(e)
    inner = [c for c in wet if 2 <= c[0] < e["L"] - 2 and 2 <= c[1] < e["W"] - 2]
    xs, ys = [], []
    for _ in range(n):
        r = rng.random()
        if inner and r < .7:
            c = rng.choice(inner)
        elif wet and r < .8:
            c = rng.choice(wet)
        else:
            c = (rng.randrange(e["L"]), rng.randrange(e["W"]))
        xs.append(c[0])
        ys.append(c[1])
    return xs, ys


def rand_gen(rng, e, obj, prev=None):
    k = rng.randint(1, 4)
    xs, ys = rand_seeds(rng, e, k)
    return {"op": "gen", "obj": obj, "n": rng.randint(1, 5), "xs": xs, "ys": ys,
            "t0": rng.choice([0, 0, 0, 1500, 60000]),
            "method": rng.choice(["exact", "exact", "random"]),
            "prev": prev or "none", "cont": rng.choice(["list", "array", "tuple", "array2"])}


def typical_dt(e):
    """ms of a typical step"""
    vals = [abs(a) for row in e["fx"] + e["fy"] for a in row if a not in (0, NAN)]
    if not vals:
        return 10000
    m = sorted(vals)[len(vals) // 2]
    if e["flow"] == "q":
        m = max(1, m // 150)
    return max(200, min(10**6, 10000 * e["dx"] // max(1, m)))


def rand_episode(rng, envs, base, kinds=None, nobj=None, ncalls=None, over=None,
                 ops=("step", "target")):
    """A random call sequence on 1-2 objects. Appends envs, 1-based indices."""
    calls = []
    nobj = nobj or rng.choice([1, 1, 1, 2])
    mine = []
    for o in range(1, nobj + 1):
        kind = rng.choice(kinds) if kinds else None
        e = make_env(rng, kind, **(over or {}))
        envs.append(e)
        mine.append(len(envs) + base)
        calls.append({"op": "new", "obj": o, "env": mine[-1], "share": 0})
        calls.append(rand_gen(rng, e, o))
    for _ in range(ncalls or rng.randint(4, 12)):
        o = rng.randint(1, nobj)
        e = envs[mine[o - 1] - base - 1]
        op = rng.choice(list(ops) * 3 + ["gen"])
        if op == "step":
            for _ in range(rng.randint(1, 4)):
                calls.append({"op": "step", "obj": o})
        elif op == "target":
            dt = typical_dt(e)
            calls.append({"op": "target", "obj": o,
                          "T": rng.randint(0, 8) * dt + rng.randint(0, dt),
                          "maxit": rng.choice([1, 2, 3, 5, 25, 60])})
        else:
            calls.append(rand_gen(rng, e, o))
    return {"envs": mine, "calls": calls, "seed": rng.randrange(2**31), "twin": 0}
