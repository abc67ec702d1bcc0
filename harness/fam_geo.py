"""C18 coordinates, C20 thresholds, C21 flux seeding, C22 gridding (spec/Geo)."""
import copy

from fam_hist import rand_walk

NAME, MODULE, SHARDS, DRIVERS = "geo", "GeoTrace", 6, 3
CLAUSES = {"C18": ("coord.",), "C20": ("threshold.", "filter."), "C21": ("flux.",),
           "C22": ("grid.",)}
NAN = -99999


def models(ck, prop):
    ck.model("MCGeo", level=0 if ck.quick else 1, env={"OUT": ck.dir + "/mcgeo.json"}, workers=2)


def rand_raster(rng):
    sc = rng.choice([1, 1, 2, 100, 100, 10000000])
    if sc == 10000000:            # decimal degrees
        d = {"xo": rng.choice([-914321765, 0, 123456789, 300000000]),
             "yo": rng.choice([293345678, -100000000, 0]), "cs": rng.choice([500, 1000, 2500])}
    elif sc == 100:
        d = {"xo": rng.choice([65432100, 0, -1250, 27512345]),
             "yo": rng.choice([327000000, 0, -990, 1111111]),
             "cs": rng.choice([100, 250, 1000, 3333, 5000])}
    else:
        d = {"xo": rng.randint(-50, 5000), "yo": rng.randint(-50, 5000),
             "cs": rng.choice([1, 3, 10, 50]) * (2 if sc == 2 else 1)}
    d["sc"] = sc
    d["L"], d["W"] = rng.randint(1, 60), rng.randint(1, 60)
    if rng.random() < .15 and d["cs"] <= 1000:
        m = rng.choice([2000, 2000, 40000, 90000])
        d["L"], d["W"] = rng.randint(1, m), rng.randint(1, m)
    return d


def crosses_vertex(poly, pts2):
    """some grid point lies on an edge (then inside is a matter of taste)"""
    n = len(poly)
    for x, y in pts2:
        for i in range(n):
            (ax, ay), (bx, by) = poly[i], poly[(i + 1) % n]
            if (x - ax) * (by - ay) == (bx - ax) * (y - ay) and \
                    min(ax, bx) <= x <= max(ax, bx) and min(ay, by) <= y <= max(ay, by):
                return True
    return False


def rand_poly(rng, pts, cs):
    x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
    y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
    gp = [(2 * x, 2 * y) for x in range(x0, x1 + 2 * cs, cs) for y in range(y0, y1 + 2 * cs, cs)]

    def odd(a, b):
        return 2 * rng.randint(a - 1, b) + 1
    for _ in range(50):
        kind = rng.choice(["rect", "ell", "tri", "whole"])
        if kind == "whole":
            poly = [(2 * x0 - 3, 2 * y0 - 3), (2 * x1 + 4 * cs + 1, 2 * y0 - 3),
                    (2 * x1 + 4 * cs + 1, 2 * y1 + 4 * cs + 1), (2 * x0 - 3, 2 * y1 + 4 * cs + 1)]
        elif kind == "rect":
            a, b = sorted([odd(x0, x1), odd(x0, x1)])
            c, d = sorted([odd(y0, y1), odd(y0, y1)])
            poly = [(a, c), (b, c), (b, d), (a, d)]
        elif kind == "ell":
            xs = sorted(odd(x0, x1) for _ in range(3))
            ys = sorted(odd(y0, y1) for _ in range(3))
            poly = [(xs[0], ys[0]), (xs[2], ys[0]), (xs[2], ys[1]), (xs[1], ys[1]),
                    (xs[1], ys[2]), (xs[0], ys[2])]
        else:
            poly = [(odd(x0, x1), odd(y0, y1)) for _ in range(3)]
        if len(set(poly)) == len(poly) and not crosses_vertex(poly, gp):
            return [list(p) for p in poly]
    return []


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 12
    out = []
    if prop == "C18":
        for _ in range(150 * k):
            d = rand_raster(rng)
            pts = []
            for _ in range(rng.randint(0, 12) if rng.random() < .96 else rng.randint(130, 700)):
                r, c = rng.randrange(d["L"]), rng.randrange(d["W"])
                m = (d["cs"] - 1) // 2 if d["cs"] < 20 else int(.49 * d["cs"])
                pts.append([d["xo"] + c * d["cs"] + rng.choice([0, m, -m, rng.randint(-m, m)]),
                            d["yo"] + (d["L"] - r) * d["cs"] + rng.choice([0, m, -m, rng.randint(-m, m)])])
            out.append(dict(d, kind="c2i", pts=pts, tup=rng.random() < .5))
            d = rand_raster(rng)
            out.append(dict(d, kind="i2c", w=rand_walk(rng, d["L"], d["W"], rng.randint(0, 5),
                                                       6 if rng.random() < .96 else 400,
                                                       rng.sample(["depth", "u"], rng.randint(0, 2)))))
    elif prop == "C21":
        pool = ck.generate("MCGeo")
        rng.shuffle(pool)
        for p in pool[:400 if ck.quick else None]:
            out.append({"kind": "flux", "q": p["q"], "n": p["n"], "steps": len(p["q"]),
                        "how": rng.choice(["flat", "flat", "column"]), "refuse": False})
        for _ in range(200 * k):
            m = rng.randint(1, 12)
            kind = rng.choice(["any", "ties", "zeros", "whole"])
            n = rng.choice([0, 1, rng.randint(1, 60), rng.randint(100, 5000)])
            if kind == "ties":
                q = [rng.choice([1, 1, 1, -1, 2]) for _ in range(m)]
            elif kind == "whole":
                q = [rng.randint(0, 9) for _ in range(m)]
                n = sum(q) * rng.randint(1, 7)
            else:
                q = [rng.choice([0, rng.randint(-3000, 3000)]) if kind == "zeros"
                     else rng.randint(-3000, 30000) for _ in range(m)]
            if not any(q):
                q[0] = 1
            out.append({"kind": "flux", "q": q, "n": n, "steps": rng.randint(1, m),
                        "how": rng.choice(["flat", "column", "int"]), "refuse": False})
        for _ in range(10 * k):     # long series, many particles
            m = rng.choice([150, 300, 40])
            q = [rng.choice([0, rng.randint(-9, 20)]) for _ in range(m)]
            q[0] = 3
            out.append({"kind": "flux", "q": q, "n": rng.choice([10**6, 40000, 70000, 7]),
                        "steps": rng.randint(1, m), "how": rng.choice(["flat", "column", "int"]),
                        "refuse": False})
        for _ in range(15 * k):     # more particles than anyone has routed
            m = rng.randint(2, 12)
            q = [rng.choice([0, 7, rng.randint(-900, 900)]) for _ in range(m)]
            q[0] = rng.randint(1, 900)
            t = sum(map(abs, q))
            n = rng.choice([10 ** 9 // t * t, rng.randint(10 ** 7, 10 ** 9)])
            out.append({"kind": "flux", "q": q, "n": n, "steps": rng.randint(1, m),
                        "how": rng.choice(["flat", "column", "int"]), "refuse": False})
        for _ in range(12 * k):     # shares just below or above whole numbers
            m = rng.choice([50, 400, 900])
            a = rng.choice([330, 500, 250, 999])
            q = [a - rng.choice([0, 1, 1, 2]) if rng.random() < .9 else a + 1 for _ in range(m)]
            n = max(1, (sum(q) + rng.randint(-2, 2)) // a) * rng.choice([1, 1, 2])
            out.append({"kind": "flux", "q": q, "n": n, "steps": rng.randint(1, m),
                        "how": rng.choice(["flat", "column"]), "refuse": False})
        for _ in range(20 * k):
            m = rng.randint(1, 6)
            zero = rng.random() < .5
            out.append({"kind": "flux", "q": [0] * m if zero else [rng.randint(1, 9)] * m,
                        "n": rng.randint(0, 9), "steps": m if zero else m + rng.randint(1, 3),
                        "how": rng.choice(["flat", "column"]), "refuse": True})
        for s in out:               # trickles and torrents
            s["unit"] = rng.choice([1, 1, 2.**-30, 2.**20]) if s["how"] != "int" else 1
    elif prop == "C22":
        for _ in range(140 * k):
            cs = rng.choice([1, 1, 2, 3, 5])
            n = rng.randint(1, 14)
            off = rng.choice([0, 0, 100, -40])
            ext = min(18, rng.randint(1, 8) * cs)
            ey = min(18, rng.randint(1, 8) * cs)
            if _ % 70 == 30:            # a large cloud
                n, ext, ey = rng.randint(520, 800), 40, 40
                cs = rng.choice([3, 5])
            pts = list({(off + rng.randint(0, ext), off + 7 + rng.randint(0, ey)) for _ in range(n)})
            rng.shuffle(pts)
            kk = rng.choice([1, 1, 2, 3, 4, 6, 9, len(pts)] if n < 99 else [2, 3, 4, 12, 17])
            if kk > len(pts):
                kk = 1
            qs = [[rng.randint(0, 300) for _ in pts] for _ in range(3)]
            if rng.random() < .1:
                qs[0] = [7] * len(pts)
            s = {"kind": "grid", "pts": [list(p) for p in pts], "cs": cs, "k": kk, "qs": qs,
                 "poly": rand_poly(rng, pts, cs) if rng.random() < .55 and n < 99 else [],
                 "crop": rng.random() < .6, "refuse": False, "default": False}
            if rng.random() < .15 and len(pts) >= 3:
                s.update(default=True, k=3, crop=True, poly=[])
            s["form"] = rng.choice(["list", "ints", "array", "intarray", "tuples", "short"])
            s["div"] = rng.choice([1, 1, 2, 8, 2.**20, 2.**-7])     # size of the units
            s["east"], s["north"] = rng.choice([(0, 0), (0, 0), (682300.1328125, 3259800.6328125),
                                                (-500000.0546875, -4.)])
            if rng.random() < .06:
                s.update(refuse=True)
                s["qs"][0] = s["qs"][0][:-1] if rng.random() < .5 else s["qs"][0] + [1]
            out.append(s)
    elif prop == "C20":
        for _ in range(45 * k):
            L, W, f = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
            data = []
            for _ in range(L * W):
                kind = rng.choice(["data", "data", "data", "few", "nan", "empty", "dup", "zeros"])
                if kind == "nan":
                    data.append([NAN])
                elif kind == "empty":
                    data.append([])
                elif kind == "few":
                    data.append([rng.choice([0, 3, 9, 27, 80]) for _ in range(rng.randint(1, 8))])
                else:
                    s = [rng.randint(1, rng.choice([30, 200])) for _ in range(rng.randint(5, 14))]
                    if kind == "dup":
                        s += [s[0]] * rng.randint(1, 4)
                    if kind == "zeros":
                        s += [0] * rng.randint(1, 5)
                    rng.shuffle(s)
                    data.append(s)
            out.append({"kind": "threshold", "L": L, "W": W, "f": f, "data": data,
                        "rows": L * f + rng.randint(0, f - 1), "cols": W * f + rng.randint(0, f - 1),
                        "unit": rng.choice([1, 60, 3600, 86400]),
                        "scale": rng.choice([90., 90., 90., 2.**-7, 2.**24, 2.**-40]),
                        "size": rng.choice([3, 5, 5, 2, 7]), "thr": rng.choice([30, 30, 20, 10]),
                        "default": rng.random() < .3})
        for _ in range(3 * k):           # many values, two populations
            a, c = rng.randint(20, 60), rng.randint(90, 200)
            data = [[rng.randint(1, a) if rng.random() < .6 else rng.randint(a, c)
                     for _ in range(rng.choice([150, 230, 380]))] for _ in range(2)]
            out.append({"kind": "threshold", "L": 1, "W": 2, "f": 1, "data": data, "rows": 1, "cols": 2,
                        "unit": rng.choice([1, 3600]), "scale": rng.choice([90., 2.**-7]),
                        "size": 5, "thr": 30, "default": False})
        for _ in range(76 * k):
            L, W = rng.randint(1, 6), rng.randint(1, 6)
            sizes = [1, 2, 3, 4, 5, 7]
            if _ % 76 >= 70:        # wide windows
                L, W = rng.randint(8, 16), rng.randint(8, 16)
                sizes = [8, 9, 11, 13, 15, 16]
            hi = rng.choice([2, 6, 40])
            g = [[NAN if rng.random() < .15 else
                  (rng.randint(0, 400) if rng.random() < .15 else rng.randint(-1, hi)) for _ in range(W)]
                 for _ in range(L)]
            out.append({"kind": "mad", "g": g, "size": rng.choice(sizes),
                        "thr": rng.choice([30, 20, 10, 15, 5, 0]),
                        "scale": rng.choice([1., 1., 1., 2.**-40, 2.**30])})
    return out


def corrupt(prop, recs, rng):
    out = []
    rng.shuffle(recs)
    for r in recs:
        if len(out) >= 4:
            break
        if r["err"]:
            continue
        c = copy.deepcopy(r)
        if prop == "C18" and r["kind"] == "c2i" and r["out"]:
            c["out"][0][rng.randint(0, 1)] += 3
        elif prop == "C18" and r["kind"] == "i2c" and r["cx"]:
            c["cx"][0][0] += 3 * r["cs"]
        elif prop == "C21" and len(r["out"]) > 1 and r["out"][0] > 0:
            c["out"][0] -= 1
        elif prop == "C22" and r["outs"] and r["outs"][0] and r["outs"][0][0]:
            v = c["outs"][0][0][0]
            c["outs"][0][0][0] = 5 if v == NAN else 400000 + v
        elif prop == "C20" and r["kind"] == "mad":
            v = c["out"][0][0]
            c["out"][0][0] = 5 if v == NAN else v + 500
        elif prop == "C20" and r["kind"] == "threshold" and \
                any(v != NAN for row in r["raw"][0] for v in row):
            for row in c["raw"][0]:
                for j, v in enumerate(row):
                    if v != NAN:
                        row[j] = v + 40000
        else:
            continue
        out.append(c)
    return out


# ------------------------------------------------------------ on the real code
def run(sc):
    import numpy as np
    import dorado.particle_track as pt
    import dorado.spatial as sp
    import rec

    def one(s):
        r = {k: v for k, v in s.items() if k not in ("default", "how", "tup", "unit", "form", "div", "scale", "east", "north")}
        kind = s["kind"]
        if kind in ("c2i", "i2c"):
            f = float(s["sc"])
            org, cs, size = (s["xo"] / f, s["yo"] / f), s["cs"] / f, (s["L"], s["W"])
        if kind == "c2i":
            pts = [(p[0] / f, p[1] / f) for p in s["pts"]]
            if not s["tup"]:
                pts = [list(p) for p in pts]
            res, r["err"], _ = rec.guarded(lambda: pt.coord2ind(pts, org, size, cs))
            r["out"] = [[rec.idx(a) for a in p] for p in res] if not r["err"] else []
        elif kind == "i2c":
            w = rec.walk(s["w"])
            keep = rec.snapshot(w)[0]
            def go():
                a = pt.ind2coord(w, org, size, cs)
                flat = [(x, y) for px, py in zip(a["xcoord"], a["ycoord"]) for x, y in zip(px, py)]
                return a, pt.coord2ind(flat, org, size, cs)
            res, r["err"], _ = rec.guarded(go)
            r.update(cx=[], cy=[], back=[], kept=True)
            if not r["err"]:
                a, back = res
                r["cx"] = [[rec.num(v, f) for v in p] for p in a["xcoord"]]
                r["cy"] = [[rec.num(v, f) for v in p] for p in a["ycoord"]]
                r["kept"] = all(rec.same(keep[q], a[q]) for q in keep) and \
                    set(a) == set(keep) | {"xcoord", "ycoord"}
                n = 0
                for p in r["cx"]:
                    r["back"].append([[rec.idx(v) for v in b] for b in back[n:n + len(p)]])
                    n += len(p)
        elif kind == "flux":
            q = np.array(s["q"], dtype=int if s["how"] == "int" else float)
            if s["unit"] != 1:
                q = q * s["unit"]
            if s["how"] == "column":
                q = q.reshape(-1, 1)
            keep = q.copy()
            res, r["err"], _ = rec.guarded(
                lambda: pt.flux_proportional_seeding(q, s["n"], s["steps"]))
            r.update(out=[], whole=True, same=True)
            if not r["err"]:
                res = np.asarray(res)
                r["whole"] = bool(np.all(res == np.floor(res))) and res.dtype.kind in "iu"
                r["out"] = [rec.num(v) for v in res.ravel()]
                r["same"] = rec.same(keep, q)
        elif kind == "grid":
            dv = float(s["div"])
            o = (s["east"], s["north"])
            pts = [(p[0] / dv + o[0], p[1] / dv + o[1]) for p in s["pts"]]
            if s["form"] == "tuples":
                pts = tuple(pts)
            elif s["form"] in ("array", "short"):
                pts = [list(p) for p in pts]
            vals = {"list": lambda q: [float(v) for v in q], "ints": list,
                    "array": lambda q: np.array(q, dtype=float),
                    "intarray": lambda q: np.array(q, dtype=int), "tuples": lambda q: tuple(map(float, q)),
                    "short": lambda q: np.array(q, dtype="int16")}[s["form"]]
            kw = {}
            if not s["default"]:
                kw = {"k_nearest_neighbors": s["k"], "crop": s["crop"]}
                if s["poly"]:
                    kw["boundary"] = [(a / 2. / dv + o[0], b / 2. / dv + o[1])
                                      for a, b in s["poly"]]
            def go():
                fn, g = pt.unstruct2grid(pts, vals(s["qs"][0]), s["cs"] / dv if dv != 1 else s["cs"], **kw)
                return [g, fn(list(vals(s["qs"][1])) if s["form"] == "tuples" else
                              vals(s["qs"][1])), fn(np.array(s["qs"][2], dtype=float))]
            res, r["err"], _ = rec.guarded(go)
            r["outs"] = [] if r["err"] else [rec.grid(g, 1000) for g in res]
        elif kind == "threshold":
            c = s["scale"]
            data = [float("nan") if d == [NAN] else [v * c for v in d] for d in s["data"]]
            elev = np.zeros((s["rows"], s["cols"]))
            keep = rec.snapshot(data)[0]
            kw = {} if s["default"] else {"window_size": s["size"], "threshold": s["thr"] / 10.}
            if s["default"]:
                r["size"], r["thr"] = 5, 30
            u = s["unit"]
            res, r["err"], _ = rec.guarded(lambda: (
                sp.compute_thresholds(data, elev, u, s["f"], window_size=1),
                sp.compute_thresholds(data, elev, u, s["f"], **kw)))
            r.update(raw=[], smooth=[], same=True)
            if not r["err"]:
                r["raw"] = [rec.grid(g, 1000. * u / c) for g in res[0]]
                r["smooth"] = [rec.grid(g, 1000. * u / c) for g in res[1]]
                r["same"] = rec.same(keep, data)
        elif kind == "mad":
            g = np.array(s["g"], dtype=float)
            g[g == NAN] = np.nan
            g *= s["scale"]
            keep = g.copy()
            res, r["err"], _ = rec.guarded(
                lambda: sp.median_absolute_deviation_filter(g, s["size"], s["thr"] / 10.))
            r.update(out=[], same=True)
            if not r["err"]:
                r["out"] = rec.grid(res, 1000 / s["scale"])
                r["same"] = rec.same(keep, g)
        return r
    return rec.run_all(sc, one)
