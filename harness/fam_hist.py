"""C15 exposure, C16 states, C17 nourishment, C19 chunks (spec/Histories)."""
import copy

NAME, MODULE, SHARDS, DRIVERS = "hist", "HistTrace", 6, 3
CLAUSES = {"C15": ("exposure.",), "C16": ("state.", "timestate."),
           "C17": ("nourish.",), "C19": ("chunk.",)}
NAN, NONE = -99999, -77777


def models(ck, prop):
    ck.model("MCHist", env={"MAXLEN": "4", "OUT": ck.dir + "/mchist.json"}, workers=2)


def late(rng, w):
    """the same walk, eleven days later and in steps of milliseconds"""
    w["t"] = [[900000000 + 8 * (t // 125) for t in p] for p in w["t"]]
    return w


def rand_walk(rng, L, W, n, maxlen, vars_=(), starts=None, maxdt=40):
    w = {"x": [], "y": [], "t": [], "vars": {v: [] for v in vars_}}
    for p in range(n):
        m = rng.randint(1, maxlen)
        i, j = starts[p] if starts else (rng.randrange(L), rng.randrange(W))
        t = rng.choice([0, 0, 0, 1000])
        xs, ys, ts = [i], [j], [t]
        for _ in range(m - 1):
            if rng.random() < .9:
                i = min(L - 1, max(0, i + rng.randint(-1, 1)))
                j = min(W - 1, max(0, j + rng.randint(-1, 1)))
            else:
                i, j = rng.randrange(L), rng.randrange(W)
            t += 125 * rng.choice([0, 1, rng.randint(1, maxdt), rng.randint(1, maxdt)])
            xs.append(i)
            ys.append(j)
            ts.append(t)
        w["x"].append(xs)
        w["y"].append(ys)
        w["t"].append(ts)
        for v in vars_:
            w["vars"][v].append([rng.choice([rng.randint(-80, 800), 0, 8, NONE])
                                 if rng.random() < .3 else rng.randint(-80, 800)
                                 for _ in range(m)])
    return w


def mask(rng, L, W, p=None, vals=(0, 1)):
    p = p if p is not None else rng.choice([.1, .3, .5, .8, 1., 0.])
    other = [v for v in vals if v != 1]
    return [[1 if rng.random() < p else rng.choice(other) for _ in range(W)] for _ in range(L)]


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 10
    out = []
    pool = ck.generate("MCHist", {"MAXLEN": "4"})        # every walk of the model
    rng.shuffle(pool)

    def from_pool(n):
        part = [pool[rng.randrange(len(pool))] for _ in range(n)]
        return {"x": [[0] * len(q["c"]) for q in part], "y": [q["c"] for q in part],
                "t": [q["t"] for q in part], "vars": {}}
    VARS = ["depth", "qx", "qy", "u", "v", "stage", "roi_flag"]
    if prop == "C15":
        for m in range(8):        # the whole state space of the design model
            roi = [[m & 1, (m >> 1) & 1, (m >> 2) & 1]]
            for a in range(0, len(pool), 250):
                part = pool[a:a + 250]
                out.append({"kind": "exposure", "roi": roi, "w": {
                    "x": [[0] * len(q["c"]) for q in part], "y": [q["c"] for q in part],
                    "t": [q["t"] for q in part], "vars": {}}})
        for _ in range(150 * k):
            L, W = rng.randint(2, 9), rng.randint(2, 9)
            out.append({"kind": "exposure", "roi": mask(rng, L, W),
                        "roitype": rng.choice(["int", "float", "int"]),
                        "w": rand_walk(rng, L, W, rng.randint(0, 6), rng.choice([1, 2, 5, 30]),
                                       rng.sample(VARS, rng.randint(0, 2)))})
            if rng.random() < .2:
                late(rng, out[-1]["w"])
        for _ in range(8 * k):       # sums of many days, exact to a fraction of a second
            L, W = rng.randint(2, 5), rng.randint(2, 5)
            out.append({"kind": "exposure", "roi": mask(rng, L, W),
                        "w": rand_walk(rng, L, W, 4, rng.choice([20, 90]), maxdt=30000)})
            q = rng.choice([125, 77, 101, 113])      # not only eighths of a second
            out[-1]["w"]["t"] = [[t // 125 * q for t in p] for p in out[-1]["w"]["t"]]
        for _ in range(2 * k):       # many and long walks, wide domains
            L, W = rng.choice([(3, 270), (140, 4), (270, 3)])
            out.append({"kind": "exposure", "roi": mask(rng, L, W),
                        "w": rand_walk(rng, L, W, 280, 5)})
            out.append({"kind": "exposure", "roi": mask(rng, L, W, .5),
                        "w": rand_walk(rng, L, W, 3, 1200)})
            w = rand_walk(rng, 3, 12, 6, 1000)        # back after long absences
            for p in range(6):
                a = rng.randint(30, 700)
                for j in range(2, min(a, len(w["y"][p]))):
                    w["y"][p][j] = max(1, w["y"][p][j])
            out.append({"kind": "exposure", "roi": [[1] + [0] * 11] * 3, "w": w})
    elif prop == "C16":
        for _ in range(2 * k):
            w = rand_walk(rng, 300, 300, 280, 4, rng.sample(VARS, 1))
            out.append({"kind": "state", "w": w, "it": rng.choice([-1, 0, 2])})
            out.append({"kind": "timestate", "w": w, "T": 125 * rng.randint(0, 60)})
            out.append({"kind": "state", "w": w, "it": rng.choice([4, 50])})
            out.append({"kind": "timestate", "w": w, "T": 10**7})
            w = rand_walk(rng, 300, 300, 3, 1200, rng.sample(VARS, 1))
            out.append({"kind": "state", "w": w, "it": rng.choice([-1, 127, 128, 256, 300, 1000])})
            out.append({"kind": "timestate", "w": w, "T": 125 * rng.randint(0, 30000)})
        for _ in range(350 * k):
            L, W = rng.randint(2, 9), rng.randint(2, 9)
            w = rand_walk(rng, L, W, rng.randint(0, 6), rng.choice([1, 3, 8]),
                          rng.sample(VARS, rng.randint(0, 3)), maxdt=8)
            if rng.random() < .5:
                out.append({"kind": "state", "w": w, "it": rng.choice(
                    [-1, 0, 1, 2, 3, 7, 8, 50, -2, -3, -8, -9])})
            else:
                ts = [t for p in w["t"] for t in p] or [0]
                T = rng.choice([rng.choice(ts), (rng.choice(ts) + rng.choice(ts)) // 250 * 125,
                                rng.randint(-5, 200) * 125, 10**7, 0])
                out.append({"kind": "timestate", "w": w, "T": T})
        for _ in range(40 * k):
            w = late(rng, rand_walk(rng, 6, 6, rng.randint(1, 4), 8,
                                    rng.sample(VARS, rng.randint(0, 2)), maxdt=8))
            T = rng.choice([t for p in w["t"] for t in p]) + rng.choice([-3, -2, 1, 2])   # no ties: not exact
            out.append({"kind": "timestate", "w": w, "T": T})
        for _ in range(15 * k):      # entries almost equally near, far away
            d = 125 * rng.randint(20000, 1600000)
            T = d + 125 * rng.randint(0, 1000)
            w = rand_walk(rng, 5, 5, 3, 1, rng.sample(VARS, rng.randint(0, 1)))
            for p in range(3):
                a = sorted([T - d + 125 * rng.choice([0, -1, 1, 2]), T + d + 125 * rng.choice([0, 1, -1, 8])]
                           + rng.choice([[], [0], [T + 2 * d], [T + d + 125 * 9]]))
                w["t"][p] = a
                for g in [w["x"], w["y"]] + list(w["vars"].values()):
                    g[p] = [rng.randint(0, 4) for _ in a]
            out.append({"kind": "timestate", "w": w, "T": T})
        for _ in range(40 * k):
            w = from_pool(20)
            out.append({"kind": "state", "w": w, "it": rng.randint(-5, 5)})
            out.append({"kind": "timestate", "w": w, "T": 125 * rng.randint(-2, 64)})
    elif prop == "C17":
        for _ in range(120 * k):
            L, W = rng.randint(2, 7), rng.randint(2, 7)
            out.append({"kind": rng.choice(["area", "ntime"]), "L": L, "W": W,
                        "s10": rng.choice([0, 0, 0, 5, 7, 10, 15, 20]),
                        "pc": rng.choice([995, 1000, 1000, 900, 500, 250, 987]),
                        "w": rand_walk(rng, L, W, rng.randint(1, 6), rng.choice([3, 5, 20]),
                                       rng.sample(VARS, rng.randint(0, 1)), maxdt=60)})
        for _ in range(25 * k):
            w = from_pool(rng.randint(1, 8))
            for kind in ("area", "ntime"):
                out.append({"kind": kind, "L": 1, "W": 3, "s10": 0,
                            "pc": rng.choice([995, 1000, 500]), "w": w})
        for i in range(2 * k):
            L, W = rng.choice([(3, 140), (140, 3), (260, 2)])
            out.append({"kind": ["area", "ntime"][i % 2], "L": L, "W": W, "s10": rng.choice([0, 0, 7]),
                        "pc": rng.choice([995, 1000]), "w": rand_walk(rng, L, W, 30, 40)})
            for kind, m in (("area", rng.choice([5000, 9000])), ("area", 70000), ("ntime", 3500)):
                w = {"x": [[rng.random() < .03 for _ in range(m)]], "y": [[rng.random() < .1 for _ in range(m)]],
                     "t": [[25 * a for a in range(m)]], "vars": {}}     # hardly moving
                w["x"], w["y"] = [list(map(int, w["x"][0]))], [list(map(int, w["y"][0]))]
                out.append({"kind": kind, "L": 2, "W": 2, "s10": 0, "pc": 1000, "w": w})
            out.append({"kind": rng.choice(["area", "ntime"]), "L": 2, "W": 2, "s10": 0, "pc": 1000,
                        "w": rand_walk(rng, 2, 2, 3, 900)})
        for i in range(10 * k):      # default arguments
            L, W = rng.randint(4, 8), rng.randint(4, 8)
            out.append({"kind": ["area", "ntime"][i % 2], "L": L, "W": W, "s10": 7,
                        "pc": 995, "default": True,
                        "w": rand_walk(rng, L, W, 5, 12, maxdt=60)})
    elif prop == "C19":
        for i in range(2 * k):
            L, W = rng.choice([(6, 270), (140, 5), (270, 4)])
            out.append({"kind": ["systemwide", "localized"][i % 2], "L": L, "W": W,
                        "f": rng.choice([3, 4, 2]), "roi": mask(rng, L, W, .2), "seed": 1,
                        "w": rand_walk(rng, L, W, 60, 4)})
            L, W = rng.randint(5, 9), rng.randint(5, 9)      # many walks
            out.append({"kind": ["localized", "systemwide"][i % 2], "L": L, "W": W,
                        "f": rng.choice([3, 4, 2]), "roi": mask(rng, L, W, .4), "seed": 2,
                        "w": rand_walk(rng, L, W, rng.choice([270, 290, 600]), 3)})
        for _ in range(12 * k):          # large chunks, small regions
            f = rng.randint(9, 25)
            L, W = f * rng.randint(1, 3) + rng.randint(0, f - 1), f * rng.randint(1, 3) + rng.randint(0, f - 1)
            def ok(v, N):
                return v < f or v % f or v // f >= N // f
            cells = [(i, j) for i in range(L) for j in range(W) if ok(i, L) and ok(j, W)]
            out.append({"kind": rng.choice(["systemwide", "localized"]), "L": L, "W": W, "f": f,
                        "roi": mask(rng, L, W, rng.choice([.003, .01, .1])), "seed": 3,
                        "w": rand_walk(rng, L, W, 20, 4, [], [rng.choice(cells) for _ in range(20)])})
        for _ in range(110 * k):
            f = rng.randint(1, 4)
            L, W = rng.randint(f, 10), rng.randint(f, 10)
            n = rng.randint(1, 12)
            starts = None
            if rng.random() < .5:       # no particle on the disputed upper bounds
                def ok(v, N):
                    nc = N // f
                    return v < f or v % f or v // f >= nc
                cells = [(i, j) for i in range(L) for j in range(W) if ok(i, L) and ok(j, W)]
                starts = [rng.choice(cells) for _ in range(n)]
            out.append({"kind": rng.choice(["systemwide", "localized"]), "L": L, "W": W, "f": f,
                        "roi": mask(rng, L, W, vals=(0, 1, 2, -1)), "seed": rng.randrange(10**6),
                        "w": rand_walk(rng, L, W, n, rng.choice([1, 4, 8]),
                                       rng.sample(VARS, rng.randint(0, 2)), starts)})
    return out


def corrupt(prop, recs, rng):
    out = []
    for r in recs:
        if len(out) >= 4:
            break
        if r["err"]:
            continue
        c = copy.deepcopy(r)
        if prop == "C15" and r["out"]:
            c["out"][0] += 125
        elif prop == "C16" and r["out"]["x"]:
            c["out"][rng.choice(["x", "y", "t"])][-1] += 1
        elif prop == "C17":
            vals = [(i, j) for i, row in enumerate(r["out"]) for j, v in enumerate(row) if v != NAN]
            if not vals:
                continue
            i, j = rng.choice(vals)
            c["out"][i][j] += 60000 + abs(c["out"][i][j])
        elif prop == "C19":
            n = [o for o in c["out"] if not o["nan"] and o["v"]]
            if not n:
                continue
            n[0]["v"][0] += 125
        else:
            continue
        out.append(c)
    return out


# ------------------------------------------------------------ on the real code
def run(sc):
    import numpy as np
    import dorado.particle_track as pt
    import dorado.routines as rt
    import dorado.spatial as sp
    import rec

    def one(s):
        w = rec.walk(s["w"])
        r = {k: v for k, v in s.items() if k not in ("seed", "roitype", "default")}
        keep = rec.snapshot(w)
        kind = s["kind"]
        r["same"], r["out"] = True, []
        if kind == "exposure":
            roi = np.array(s["roi"], dtype=s.get("roitype", "int"))
            k2 = rec.snapshot(roi)
            with rec.Listen() as ear:
                res, r["err"], _ = rec.guarded(lambda: pt.exposure_time(w, roi))
            r["told"] = ear.lists()
            if not r["err"]:
                r["out"] = [rec.num(v, 2000) for v in res]
                r["same"] = rec.same(keep[0], w) and rec.same(k2[0], roi)
        elif kind in ("state", "timestate"):
            fn = (lambda: rt.get_state(w, s["it"])) if kind == "state" else \
                 (lambda: rt.get_time_state(w, s["T"] / 1000.))
            with rec.Listen() as ear:
                res, r["err"], _ = rec.guarded(fn)
            r["told"] = ear.numbers()
            r["parts"] = 0
            r["out"] = {"x": [], "y": [], "t": [], "vars": {}}
            if not r["err"]:
                r["parts"] = len(res)
                r["out"] = {"x": [rec.idx(v) for v in res[0]], "y": [rec.idx(v) for v in res[1]],
                            "t": [rec.num(v, 1000) for v in res[2]],
                            "vars": {k: [rec.i_val(a, 8) for a in v]
                                     for k, v in (res[3] if len(res) > 3 else {}).items()}}
                r["same"] = rec.same(keep[0], w)
        elif kind in ("area", "ntime"):
            fn = pt.nourishment_area if kind == "area" else pt.nourishment_time
            kw = {} if s.get("default") else {"sigma": s["s10"] / 10., "clip": s["pc"] / 10.}
            res, r["err"], _ = rec.guarded(lambda: fn(w, (s["L"], s["W"]), **kw))
            if not r["err"]:
                r["out"] = rec.grid(res, 1e6 if kind == "area" else 1e3)
                r["same"] = rec.same(keep[0], w)
        else:
            elev = np.random.RandomState(s["seed"]).rand(s["L"], s["W"])
            ct = np.array(s["roi"], dtype=int)
            k2 = rec.snapshot(ct, elev)
            fn = sp.systemwide if kind == "systemwide" else sp.localized
            res, r["err"], _ = rec.guarded(lambda: fn(w, elev, ct, s["f"]))
            if not r["err"]:
                r["out"] = [{"nan": False, "v": [rec.num(v, 2000) for v in o]}
                            if isinstance(o, (list, np.ndarray)) else
                            {"nan": bool(o != o), "v": []} for o in res]
                r["same"] = rec.same(keep[0], w) and rec.same(k2[0], ct)
        return r
    return rec.run_all(sc, one)
