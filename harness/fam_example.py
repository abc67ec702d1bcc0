"""C28: the shipped example domains (spec/Examples, ExampleTrace)."""
NAME, MODULE, SHARDS, DRIVERS = "example", "ExampleTrace", 4, 4
CLAUSES = {"C28": ("example.",)}


def models(ck, prop):
    ck.model("MCExamples", level=0 if ck.quick else 1, workers=3)


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 12
    out = []
    for i in range(2 * k):
        out.append({"kind": "rcm", "mode": "iterations", "goal": rng.choice([20, 50, 80]), "runs": 2,
                    "seed": rng.randrange(2**31)})
    for i in range(2 * k):
        out.append({"kind": "anuga", "mode": ["target", "iterations"][i % 2],
                    "goal": [rng.choice([300000, 1000000, 2100000]), rng.choice([10, 30, 50])][i % 2],
                    "runs": 2, "seed": rng.randrange(2**31)})
    return out


def corrupt(prop, recs, rng):
    out = []
    for i, r in enumerate(r for r in recs if not r["err"]):
        e = r["e"]
        if i % 4 == 0:
            r["runs"][0]["y"][0][0] = 3
        elif i % 4 == 1:
            # leave the channel sideways
            x, y = r["runs"][-1]["x"][1], r["runs"][-1]["y"][1]
            y[-1] += 3
        elif i % 4 == 2:
            r["dom"]["depth"][e["L"] // 2][e["W"] // 2] += 40000
        else:
            r["runs"][0]["x"].pop()
        out.append(r)
        if len(out) == 4:
            break
    return out


def run(sc):
    import os
    import numpy as np
    import dorado
    import dorado.particle_track as pt
    import drive
    import rec
    from dorado.example_data import define_params as dp

    def enc(a, L, W):
        if a is None:
            return [[0] * W for _ in range(L)]
        g = rec.grid(a, 1e6)
        # what is positive must not vanish by rounding
        return [[(1 if x > 0 else -1) if v == 0 and x == x and x != 0 else v
                 for v, x in zip(ra, rb)] for ra, rb in zip(g, a)]

    def walk(w):
        return {"x": [[drive.i_ind(v) for v in p] for p in w["xinds"]],
                "y": [[drive.i_ind(v) for v in p] for p in w["yinds"]],
                "t": [[drive.i_time(v) for v in p] for p in w["travel_times"]]}

    def one(s):
        kind = s["kind"]
        r = {"kind": kind, "mode": s["mode"], "goal": s["goal"], "err": "", "runs": []}
        f = os.path.join(os.path.dirname(dorado.__file__), "example_data",
                         "ex_deltarcm_data.npz" if kind == "rcm" else "ex_anuga_data.npz")
        with np.load(f) as d:
            raw = {k: np.array(d[k], dtype=float) for k in d.files}
        L, W = raw["depth"].shape
        e = {"L": L, "W": W, "topo": [], "flow": "q", "theta2": 2, "gamma": 5, "dry": 100000,
             "dc": 20, "sd": False, "ctype": [], "roi": [], "vars": [],
             "depth": enc(raw["depth"], L, W), "fx": enc(raw.get("qx"), L, W),
             "fy": enc(raw.get("qy"), L, W)}
        e["stage"] = enc(raw["stage"], L, W) if kind == "rcm" else e["depth"]
        e.update({"rcm": {"dx": 500, "model": "DeltaRCM"}, "anuga": {"dx": 100, "model": ""}}[kind])
        r["e"] = e
        r["tol"] = [2, 0 if kind == "rcm" else 4]
        r.update({"rcm": {"rows": [15, 16], "cols": [137, 138, 139]},
                  "anuga": {"rows": list(range(20, 30)), "cols": list(range(48, 53))}}[kind], n=50)

        def fresh():
            if kind == "rcm":
                return dp.make_rcm_particles()
            P = pt.Particles(dp.make_anuga_params())
            P.generate_particles(50, r["rows"], r["cols"])
            return P

        def spoil():
            o = dp.make_rcm_particles() if kind == "rcm" else dp.make_anuga_params()
            for a in (o.depth, o.stage, o.qx, o.qy):
                a[...] = 7
            o.dx, o.theta = 3., 0.

        def go():
            np.random.seed(s["seed"])
            spoil()
            P = fresh()
            spoil()
            r["got"] = [rec.num(P.dx, 10), rec.num(P.theta, 2), rec.num(P.gamma, 100),
                        rec.num(P.dry_depth, 1e6), rec.num(P.diff_coeff, 100), int(bool(P.steepest_descent))]
            r["want"] = [e["dx"], 2, 5, 100000, 20, 0]
            r["dom"] = {"depth": rec.grid(P.depth, 1e6), "stage": rec.grid(P.stage, 1e6),
                        "qx": rec.grid(P.qx, 1e6), "qy": rec.grid(P.qy, 1e6)}
            for _ in range(s["runs"]):
                P = fresh()
                if s["mode"] == "target":
                    P.run_iteration(target_time=s["goal"] / 1000.)
                else:
                    for _ in range(s["goal"]):
                        P.run_iteration()
                r["runs"].append(walk(P.walk_data))
        _, r["err"], _ = rec.guarded(go, 300)
        return r
    return rec.run_all(sc, one)
