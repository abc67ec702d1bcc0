"""C23: steady_plots, time_plots, unsteady_plots (spec/Unsteady, RoutineTrace)."""
import copy

import envgen

NAME, MODULE, SHARDS, DRIVERS = "routine", "RoutineTrace", 6, 4
CLAUSES = {"C23": ("routine.", "resume.", "unsteady.", "iters.", "contain.", "absorb.",
                   "route.", "steep.", "time.", "vars.")}


def models(ck, prop):
    ck.model("MCUnsteady", level=0 if ck.quick else 1, workers=2)


def unsteady_env(rng, L, W, dx):
    kind = rng.choice(["basin", "basin", "patchy", "random", "channel"])
    for _ in range(50):
        e = envgen.make_env(rng, kind, mode="ds", flow="q", model="", theta2=2, gamma=5, dry=10,
                            dc=20, sd=False, vars=[], roi=[], omit=["theta2", "gamma", "dry", "dc"],
                            dx=dx)
        if e["L"] >= L and e["W"] >= W:
            import walkfam
            return walkfam.crop(e, L, W)
        kind = "basin"
    raise RuntimeError("no domain")


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 8
    out = []
    for i in range(36 * k):
        e = envgen.make_env(rng, rng.choice(["basin", "basin", "channel", "random", "custom", "patchy"]))
        xs, ys = envgen.rand_seeds(rng, e, rng.randint(1, 4))
        out.append({"kind": "time" if i % 3 == 0 else "steady", "e": e, "xs": xs, "ys": ys,
                    "np": rng.randint(1, 6), "n": rng.choice([1, 2, 3, 5]),
                    "pre": rng.choice([0, 0, 0, 2]),
                    "more": rng.choice([0, 1, 3]), "save": i % 3 == 0 or rng.random() < .75,
                    "folder": rng.choice(["new", "nested", "existing", "cwd", "again"]),
                    "real": i < 2, "seed": rng.randrange(2**31)})
    for i in range(2 * k):           # more figures than anyone looks at
        e = envgen.make_env(rng, "basin", dc=20, omit=[])
        xs, ys = envgen.rand_seeds(rng, e, 3)
        out.append({"kind": ["steady", "time"][i % 2], "e": e, "xs": xs, "ys": ys, "np": rng.choice([3, 14]),
                    "n": rng.randint(22, 34), "pre": 0, "more": 1, "save": True, "folder": "new",
                    "real": False, "seed": rng.randrange(2**31)})
    for i in range(k):               # ... or can count on their fingers
        e = envgen.make_env(rng, "basin", dc=20, omit=[])
        xs, ys = envgen.rand_seeds(rng, e, 1)
        out.append({"kind": ["steady", "time"][rng.randrange(2)], "e": e, "xs": xs, "ys": ys, "np": 1,
                    "n": rng.randint(102, 106), "pre": 0, "more": 0, "save": True, "folder": "new",
                    "real": False, "seed": rng.randrange(2**31)})
    for i in range(24 * k):
        L, W, dx = rng.randint(7, 9), rng.randint(7, 9), rng.choice([50, 100, 500, 77])
        m = rng.choice([11, 12, 13] if i % 8 == 0 else [1, 2, 3, 4])
        es = [unsteady_env(rng, L, W, dx)]
        for _ in range(m - 1):
            es.append(unsteady_env(rng, L, W, dx) if rng.random() < .8 else copy.deepcopy(es[-1]))
        dt = max(1, envgen.typical_dt(es[0]) // 1000)
        if i % 8 == 1:       # many short intervals in fast flow, on a fine grid
            m = rng.choice([11, 12, 13] if i != 17 else [101, 104])
            es = []
            L, W, dx = 15, 15, 1
            u = rng.choice([(3, 4), (5, 0), (0, 5), (-4, 3)])
            q = rng.choice([60, 80, 100])
            for _ in range(m):
                e = unsteady_env(rng, 7, 7, dx)
                e.update(kind="basin", L=L, W=W, dx=dx)
                e["depth"] = [[rng.choice([100, 150]) for _ in range(W)] for _ in range(L)]
                e["stage"] = [[0] * W for _ in range(L)]
                e["fx"] = [[u[0] * q * d for d in row] for row in e["depth"]]
                e["fy"] = [[u[1] * q * d for d in row] for row in e["depth"]]
                es.append(e)
                u = (-u[0], -u[1]) if rng.random() < .6 else u
            dt = .03
        xs, ys = envgen.rand_seeds(rng, es[0], rng.randint(1, 4))
        if dt < 1:
            xs, ys = [7, 8, 6], [7, 6, 8]
        out.append({"kind": "unsteady", "es": es, "xs": xs, "ys": ys, "np": rng.randint(1, 5),
                    "asked": m if dt < 1 else rng.choice([m, m, m + 2, max(1, m - 1)]),
                    "step": int(rng.choice([1000 * dt, 2000 * dt, 3000 * dt + (1000 if dt >= 1 else 7), 1500 * dt])),
                    "type": rng.choice(["csv", "npy", "npz"]),
                    "folder": rng.choice(["new", "nested", "existing", "cwd", "again"]),
                    "real": i == 0, "seed": rng.randrange(2**31)})
    # flow and surface turn round from interval to interval, so that a field
    # that was not renewed leads particles where they cannot go
    for i in range(9 * k):
        L, W, dx = 13, 13, 50
        u = rng.choice([(20, 0), (-20, 0), (0, 20), (0, -20)])
        es = []
        for m in range(2 + i % 2):
            e = unsteady_env(rng, 7, 7, dx)
            sl = rng.choice([2, 4]) if rng.random() < .8 else -3
            e.update(kind="basin", L=L, W=W)
            e["depth"] = [[rng.choice([150, 200, 300]) for _ in range(W)] for _ in range(L)]
            # x is east, y is north: columns grow eastwards, rows southwards
            e["stage"] = [[400 + sl * ((-u[0]) * c + u[1] * a) // 20 for c in range(W)]
                          for a in range(L)]
            e["fx"] = [[u[0] * d for d in row] for row in e["depth"]]
            e["fy"] = [[u[1] * d for d in row] for row in e["depth"]]
            es.append(e)
            u = (-u[0], -u[1]) if i % 3 else (u[1], u[0])
        out.append({"kind": "unsteady", "es": es, "xs": [5, 6, 7], "ys": [5, 6, 7], "np": 20,
                    "asked": len(es), "step": 100000,
                    "type": ["npy", "csv", "npz"][(i // 3) % 3], "folder": "new", "real": False,
                    "seed": rng.randrange(2**31)})
    return out


def corrupt(prop, recs, rng):
    out = []
    for r in recs:
        if len(out) >= 5:
            break
        if r["err"]:
            continue
        if r["kind"] == "unsteady":
            if len(r["es"]) < 2 or not any(len(p) > 2 for p in r["w"]["x"]):
                continue
            r["ts"] = [t + 10**8 for t in r["ts"]]
            # every particle could be stuck: take one that moves at last
            e = r["es"][-1]
            last = [(r["w"]["x"][p][-1], r["w"]["y"][p][-1]) for p in range(len(r["w"]["x"]))]
            ok = [c for c in last if 2 <= c[0] < e["L"] - 2 and 2 <= c[1] < e["W"] - 2
                  and e["kind"] == "basin"]
            if not ok:
                continue
        elif len(out) % 3 == 0 and r["save"]:
            r["figs"] = r["figs"][:-1]
        elif len(out) % 3 == 1 and r["save"]:
            r["data"]["t"][0][-1] += 1
        elif len(out) % 3 == 2:
            r["w"]["y"][0][0] += 1
        else:
            continue
        out.append(r)
    return out


def run(sc):
    import json
    import os
    import shutil
    import tempfile
    import numpy as np
    import dorado.particle_track as pt
    import dorado.routines as ro
    import drive
    import figs
    import rec
    import walkfam
    none = {"none": True}

    def more(f):
        return {"pics": figs.images(f, 100.), "vals": [m["vals"] for m in figs.marks(f)]}

    def exact(a, b):
        def eq(u, v):
            if isinstance(u, (list, tuple, np.ndarray)):
                return len(u) == len(v) and all(eq(p, q) for p, q in zip(u, v))
            if u is None or v is None:
                return u is None and v is None
            return float(u) == float(v) or (u != u and v != v)
        return sorted(a) == sorted(b) and all(eq(a[k], b[k]) for k in a)

    def place(s, base):
        d = {"new": base + "/out", "nested": base + "/a/b/out", "existing": base + "/old",
             "cwd": None, "again": base + "/again"}[s["folder"]]
        if s["folder"] == "existing":
            os.makedirs(d)
        if s["folder"] == "again":
            os.makedirs(d + "/figs")
            os.makedirs(d + "/data")
            if s.get("save", True):
                with open(d + "/data/data.txt", "w") as f:     # of an earlier, longer run
                    json.dump({"xinds": [[1] * 3000] * 9}, f)
        return d

    def written(d, base):
        d = d or base
        fs = sorted(os.listdir(d + "/figs")) if os.path.isdir(d + "/figs") else []
        return fs, os.path.join(d, "data", "data.txt")

    def steady(s):
        r = {k: s[k] for k in ("kind", "n", "more", "save")}
        r.update(e=walkfam.strip(s["e"]), err="", start=none, w=none, plain=[], figs=[], files=[],
                 data=none, exact=False, datafile=False, resumed=none, rerr="", stored=True)
        base = tempfile.mkdtemp(dir=os.getcwd())
        here = os.getcwd()

        def begin():
            np.random.seed(s["seed"])
            P = pt.Particles(drive.make_params(s["e"]))
            P.generate_particles(s["np"], s["xs"], s["ys"])
            for _ in range(s["pre"]):
                P.run_iteration()
            return P

        def go():
            P = begin()
            for _ in range(s["n"]):
                P.run_iteration()
                r["plain"].append(drive.enc_walk(P.walk_data))
            P = begin()
            r["start"] = drive.enc_walk(P.walk_data)
            d = place(s, base)
            os.chdir(base)
            with figs.Watch(s["real"], more) as w:
                if s["kind"] == "time":
                    res = ro.time_plots(P, s["n"], **({} if d is None else {"folder_name": d}))
                elif s["save"]:
                    res = ro.steady_plots(P, s["n"], **({} if d is None else {"folder_name": d}))
                else:
                    res = ro.steady_plots(P, s["n"], folder_name=d, save_output=False)
            figs.plt.close("all")
            r["figs"] = [{"name": f["name"], "sets": f["sets"], "pics": f["pics"], "vals": f["vals"]}
                         for f in w.seen]
            r["w"] = drive.enc_walk(res)
            r["stored"] = drive.enc_walk(P.walk_data) == r["w"]
            r["files"], f = written(d, base)
            r["datafile"] = os.path.exists(f)
            loaded = None
            if s["save"]:
                with open(f) as fh:
                    loaded = json.load(fh)
                r["data"] = drive.enc_walk(loaded)
                r["exact"] = bool(exact(loaded, res))
            return loaded

        def again(loaded):
            P = pt.Particles(drive.make_params(s["e"]))
            P.generate_particles(0, [], [], method="random", previous_walk_data=loaded)
            with figs.Watch():
                res = ro.steady_plots(P, s["more"], folder_name=base + "/more",
                                      save_output=s["seed"] % 2 == 0)
            figs.plt.close("all")
            r["resumed"] = drive.enc_walk(res)
        try:
            loaded, r["err"], _ = rec.guarded(go, 120)
            if not r["err"] and loaded is None:
                r["more"] = 0
            if not r["err"] and r["more"]:
                _, r["rerr"], _ = rec.guarded(lambda: again(loaded), 120)
        finally:
            os.chdir(here)
            shutil.rmtree(base, ignore_errors=True)
        return r

    def unsteady(s):
        base = tempfile.mkdtemp(dir=os.getcwd())
        here = os.getcwd()
        m = len(s["es"])
        n = min(s["asked"], m)
        es = [walkfam.strip(e) for e in s["es"][:n]]
        for a, b in zip(es, s["es"]):
            a["kind"] = b["kind"]
        r = {"kind": "unsteady", "es": es, "ts": [s["step"] * (i + 1) for i in range(n)],
             "xs": s["xs"], "ys": s["ys"], "np": s["np"], "n": n, "err": "", "w": none,
             "figs": [], "files": [], "data": none, "exact": False, "asked": s["asked"],
             "warned": False}
        src = base + "/model"
        os.makedirs(src)
        for i, e in enumerate(s["es"]):
            p = drive.make_params(e)
            f = {"depth": p.depth, "stage": p.stage, "qx": p.qx, "qy": p.qy}
            tag = "%03d" % (i * 7)
            if s["type"] == "npz":
                np.savez(src + "/data%s.npz" % tag, **f)
            for k, v in f.items():
                if s["type"] == "csv":
                    np.savetxt(src + "/%s_%s.csv" % (k, tag), v, delimiter=",")
                elif s["type"] == "npy":
                    np.save(src + "/%s%s.npy" % (k, tag), v)

        def go():
            np.random.seed(s["seed"])
            d = place(s, base)
            os.chdir(base)
            with figs.Watch(s["real"], more) as w:
                kw = {} if d is None else {"folder_name": d}
                with rec.Listen() as ear:
                    res = ro.unsteady_plots(s["es"][0]["dx"] / 10., s["np"], s["xs"], s["ys"],
                                            s["asked"], s["step"] / 1000., src, s["type"], **kw)
                r["warned"] = ear.loud > 0
            figs.plt.close("all")
            r["figs"] = [{"name": f["name"], "sets": f["sets"], "pics": f["pics"], "vals": f["vals"]}
                         for f in w.seen]
            r["w"] = drive.enc_walk(res)
            r["files"], f = written(d, base)
            with open(f) as fh:
                loaded = json.load(fh)
            r["data"] = drive.enc_walk(loaded)
            r["exact"] = bool(exact(loaded, res))
        try:
            _, r["err"], _ = rec.guarded(go, 120)
        finally:
            os.chdir(here)
            shutil.rmtree(base, ignore_errors=True)
        return r

    def one(s):
        return unsteady(s) if s["kind"] == "unsteady" else steady(s)
    return rec.run_all(sc, one)
