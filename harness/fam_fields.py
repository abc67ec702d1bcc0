"""C13 domain fields (spec/Fields)."""
import copy

NAME, MODULE, SHARDS, DRIVERS = "fields", "FieldsTrace", 6, 3
CLAUSES = {"C13": ("field.",)}
NAN, NONE = -99999, -77777


def models(ck, prop):
    ck.model("MCFields", env={"OUT": ck.dir + "/mcf.json"}, workers=2)


def truth(rng):
    L, W = rng.randint(3, 7), rng.randint(3, 7)
    def g(f):
        return [[f(i, j) for j in range(W)] for i in range(L)]
    # multiples of 25 cm add up exactly in floating point
    depth = g(lambda i, j: rng.choice([0, 0, 25, 50, 100, 175, 300]))
    base = rng.choice([0, 0, 0, 250000, -500000, 80000])      # above the sea
    stage = g(lambda i, j: base + rng.choice([-50, 0, 25, 100, 150]))
    topo = g(lambda i, j: stage[i][j] - depth[i][j] + (0 if depth[i][j] else 25 * rng.randint(0, 3)))
    u = g(lambda i, j: rng.choice([0, rng.randint(-300, 300), rng.randint(-30, 30)]))
    v = g(lambda i, j: rng.choice([0, rng.randint(-300, 300), rng.randint(-30, 30)]))
    t = {"depth": depth, "stage": stage, "topo": topo, "u": u, "v": v,
         "qx": g(lambda i, j: u[i][j] * depth[i][j]), "qy": g(lambda i, j: v[i][j] * depth[i][j])}
    return L, W, t


def scenarios(ck, prop, rng):
    out = []
    pool = ck.generate("MCFields")        # every subset of inputs, both orientations
    for _ in range(2 if ck.quick else 20):
        for p in pool:
            L, W, t = truth(rng)
            nan = rng.random() < .4
            e = {"L": L, "W": W, "dx": rng.choice([1, 5, 50]), "model": p["model"], "ctype": []}
            for n in t:
                e[n] = copy.deepcopy(t[n]) if n in p["given"] else []
            if nan:
                for n in p["given"]:
                    for _ in range(rng.randint(0, 3)):
                        i, j = rng.randrange(L), rng.randrange(W)
                        e[n][i][j] = NAN
                        if n in ("depth", "stage", "topo"):
                            # nothing flows where the water depth is unknown
                            for q in ("qx", "qy"):
                                if e[q]:
                                    e[q][i][j] = 0
                            if "depth" in p["given"] and n != "depth" and rng.random() < .5:
                                e[n][i][j] = t[n][i][j]
            if rng.random() < .2:
                e["ctype"] = [[rng.choice([-1, 0, 1, 2]) for _ in range(W)] for _ in range(L)]
            if rng.random() < .04:
                e["dx"] = 0
            out.append({"e": e, "badroi": rng.random() < .05,
                        "roi": rng.random() < .3,
                        "opt": {"theta2": rng.choice([NONE, NONE, 0, 1, 2, 3, 4, 7, 16]),
                                "gamma": rng.choice([NONE, NONE, 0, 5, 50, 100]),
                                "dry": rng.choice([NONE, NONE, 0, 10, 30, 60, 100]),
                                "dc": rng.choice([NONE, NONE, 0, 20, 100, -10, -50, 150, 199, 200, 300]),
                                "verbose": rng.choice([NONE, NONE, 0, 1, 1]),
                                "sd": rng.choice([NONE, 0, 1, 1])}})
            # other magnitudes: powers of two keep sums exact
            o = out[-1]
            o["vf"] = rng.choice([1, 1, 1, 2.**-9, 16.])
            o["df"] = rng.choice([1, 1, 2.**-5, 2.**-3, 64.]) if o["opt"]["dry"] != NONE else 1
            if e["u"] and e["v"] and not (e["qx"] and e["qy"]) and o["df"] < 1 and rng.random() < .5:
                o["df"] = 2.**-rng.choice([8, 10, 12])     # a film of water
    return out


def corrupt(prop, recs, rng):
    out = []
    rng.shuffle(recs)
    for r in recs:
        if len(out) >= 4:
            break
        if r["err"]:
            continue
        c = copy.deepcopy(r)
        n = rng.choice(["depth", "qx", "qy", "u", "v", "cell_type"])
        c["out"][n][1][1] = c["out"][n][1][1] + 20 + abs(c["out"][n][1][1]) // 100
        out.append(c)
    return out


def run(sc):
    import numpy as np
    import dorado.particle_track as pt
    import drive
    import rec

    def one(s):
        e, o = s["e"], s["opt"]
        df, vf = s["df"], s["vf"]
        f = {"depth": df, "stage": df, "topo": df, "qx": df * vf, "qy": df * vf, "u": vf, "v": vf}
        r = {"e": e, "opt": o, "badroi": s["badroi"], "out": {}, "attr": {}}

        def go():
            p = pt.modelParams()
            if e["dx"]:
                p.dx = float(e["dx"])
            for n, a, sc_ in (("depth", "depth", 100.), ("stage", "stage", 100.),
                              ("topo", "topography", 100.), ("qx", "qx", 1e4), ("qy", "qy", 1e4),
                              ("u", "u", 100.), ("v", "v", 100.)):
                if e[n]:
                    setattr(p, a, drive.farr(e[n], sc_) * f[n])
            if e["model"]:
                p.model = e["model"]
            if e["ctype"]:
                p.cell_type = np.array(e["ctype"])
            for n, a, sc_ in (("theta2", "theta", 2.), ("gamma", "gamma", 100.),
                              ("dry", "dry_depth", 100. / df), ("dc", "diff_coeff", 100.)):
                if o[n] != NONE:
                    setattr(p, a, o[n] / sc_)
            if o["sd"] != NONE:
                p.steepest_descent = bool(o["sd"])
            if o["verbose"] != NONE:
                p.verbose = bool(o["verbose"])
            if s["badroi"]:
                p.roi_grid = np.zeros((e["L"] + 1, e["W"]), dtype=int)
            elif s["roi"]:
                p.roi_grid = np.zeros((e["L"], e["W"]), dtype=int)
            return pt.Particles(p)
        P, r["err"], ws = rec.guarded(go)
        r["warned"] = any(w.category is UserWarning for w in ws)
        if not r["err"]:
            for n, sc_ in (("depth", 100.), ("stage", 100.), ("qx", 1e4), ("qy", 1e4),
                           ("u", 1e4), ("v", 1e4), ("cell_type", 1.)):
                r["out"][n] = rec.grid(getattr(P, n), sc_ / f.get(n, 1))
            r["attr"] = {"theta2": rec.num(P.theta, 2), "gamma": rec.num(P.gamma, 100),
                         "dry": rec.num(P.dry_depth, 100 / df), "dc": rec.num(P.diff_coeff, 100),
                         "sd": rec.num(P.steepest_descent)}
        return r
    return rec.run_all(sc, one)
