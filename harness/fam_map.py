"""C27 heat maps, spatial maps and animations (spec/Maps)."""
NAME, MODULE, SHARDS, DRIVERS = "map", "MapTrace", 4, 4
CLAUSES = {"C27": ("map.",)}
NOVAL = -99999


def models(ck, prop):
    ck.model("MCMaps", level=0 if ck.quick else 1, workers=2)


def _map(rng, L, W, top, hole=.2):
    style = rng.choice(["any", "few", "same", "wide"])
    pick = {"any": lambda: rng.randint(1, top), "few": lambda: rng.choice([1, top // 2, top]),
            "same": lambda: top // 3, "wide": lambda: rng.choice([1, 2, 3, top, rng.randint(1, top)])}[style]
    m = [[NOVAL if rng.random() < hole else pick() for _ in range(W)] for _ in range(L)]
    m[rng.randrange(L)][rng.randrange(W)] = top
    return m


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 8
    out = []
    for i in range(50 * k):
        L, W = rng.randint(1, 7), rng.randint(1, 7)
        fn = rng.choice(["area", "time"])
        cm = rng.choice(["default", "default", "gray", "viridis", "object"])
        # usually the greatest value of an area map is 1
        top = 1000 if rng.random() < .7 else rng.randint(3, 990)
        out.append({"kind": "heat", "fn": fn, "m": _map(rng, L, W, top, rng.choice([0, .2, .6])),
                    "grid": [[rng.randint(1, 50) for _ in range(W)] for _ in range(L)]
                    if rng.random() < .5 else [],
                    "cmap": cm, "alpha": rng.choice([None, 0, .2, .5, 1]),
                    "sigma": rng.choice([None, .1, .125, .7, 2]),
                    "askbar": fn == "time" and rng.random() < .7,
                    "open": rng.choice([0, 0, 0, 1, 2]),
                    "walk": rng.choice(["none", "none", "seed", "default", "hide"]),
                    "seed": [[rng.randrange(L), rng.randrange(W)] for _ in range(rng.randint(1, 3))]})
    for i in range(2 * k):           # as large as models are
        L, W = rng.choice([(120, 130), (210, 101), (104, 150)])
        top = rng.choice([1000, 840])
        out.append(dict(out[i], m=[[rng.choice([NOVAL, 1, 2, 3, top // 2, top - 1]) for _ in range(W)]
                                   for _ in range(L)], grid=[], walk="none", seed=[[1, 1]],
                        fn=["area", "time"][i % 2], askbar=False))
        out[-1]["m"][5][W // 2] = top
    for i in range(12 * k):
        L, W = rng.randint(2, 5), rng.randint(2, 5)
        f = rng.randint(1, 3)
        out.append({"kind": "spatial", "maps": [_map(rng, L, W, 900) for _ in range(3)],
                    "elev": [[rng.randint(-40, 50) for _ in range(W * f)] for _ in range(L * f)],
                    "top": rng.choice([1000, 7000, 15000, 500]), "nlev": rng.choice([2, 4, 7, 16])})
    for i in range(5 * k):
        a = rng.choice([rng.randint(0, 3), rng.randint(7, 9), 98])
        out.append({"kind": "anim", "from": a, "upto": a + rng.randint(1, 4) + (a > 3),
                    "h": rng.randint(2, 6), "w": rng.randint(2, 6)})
    return out


def corrupt(prop, recs, rng):
    out, seen = [], {}
    for r in recs:
        n = seen.get(r["kind"], 0)
        if n >= 2 or r["err"]:
            continue
        if r["kind"] == "heat":
            c = [(i, j) for i, row in enumerate(r["m"]) for j, v in enumerate(row) if v == max(a for row in r["m"] for a in row)]
            i, j = c[0]
            if n:
                r["drawn"][i][j][1] = 100
            elif len({v for row in r["m"] for v in row if v > 0}) > 1:
                r["drawn"][i][j][0] = 40
            else:
                continue
        elif r["kind"] == "spatial":
            if n:
                r["panels"][1], r["panels"][2] = r["panels"][2], r["panels"][1]
                if r["panels"][1] == r["panels"][2]:
                    continue
            else:
                r["barlevels"][-1] += 100
        else:
            r["shown"] = r["shown"][:-1]
        seen[r["kind"]] = n + 1
        out.append(r)
    return out


def run(sc):
    import os
    import shutil
    import tempfile
    import numpy as np
    import dorado.routines as ro
    import dorado.spatial as sp
    import figs
    import rec
    import matplotlib
    from matplotlib import animation
    import matplotlib.image as mgimg
    plt, corner = figs.plt, figs.corner

    def arr(m, scale):
        return np.array([[np.nan if v == NOVAL else v / scale for v in row] for row in m])

    def rgba(im):
        """colours of an image's cells, opacity 0 where masked or undefined"""
        a = im.get_array()
        if np.ndim(a) == 3:
            d = np.array(np.ma.getdata(a), dtype=float)
            if np.ma.getdata(a).dtype.kind in "iu":
                d /= 255.
            hide = np.ma.getmaskarray(a).any(axis=-1) | np.isnan(d).any(axis=-1)
            if d.shape[-1] == 3:
                d = np.dstack([d, np.ones(d.shape[:2])])
        else:
            d = np.array(im.to_rgba(a), dtype=float)
            hide = np.ma.getmaskarray(np.ma.masked_invalid(a))
        if im.get_alpha() is not None:
            d[..., 3] = d[..., 3] * im.get_alpha()
        d[hide] = 0
        return d

    def heat(s, r, base):
        scale = 1000. if s["fn"] == "area" else 8.
        m = arr(s["m"], scale)
        keep = rec.snapshot(m)
        kw = {}
        if s["cmap"] != "default":
            kw["cmap"] = matplotlib.colormaps["plasma"] if s["cmap"] == "object" else s["cmap"]
        name = {"default": "Reds" if s["fn"] == "area" else "magma", "object": "plasma"}.get(s["cmap"], s["cmap"])
        lut = matplotlib.colormaps[name](np.arange(256))[:, :3]
        if s["alpha"] is not None:
            kw["min_alpha"] = s["alpha"]
        if s["fn"] == "area" and s["sigma"] is not None:
            kw["sigma"] = s["sigma"]
        if s["fn"] == "time":
            kw["show_colorbar"] = s["askbar"]
        if s["grid"]:
            kw["grid"] = np.array(s["grid"], dtype=float)
        if s["walk"] != "none":
            kw["walk_data"] = {"xinds": [[c[0], c[0] // 2, 0] for c in s["seed"]],
                               "yinds": [[c[1], 0, c[1] // 2] for c in s["seed"]],
                               "travel_times": [[0., 2., 9.] for c in s["seed"]]}
            if s["walk"] != "default":
                kw["show_seed"] = s["walk"] == "seed"
        keepw = rec.snapshot(kw.get("walk_data"))
        want = None
        if s["open"]:               # drawn in the axes in use, as other plots are
            fig, axs = plt.subplots(1, 2)
            want = axs[s["open"] - 1]
            plt.sca(want)
        ax = (ro.show_nourishment_area if s["fn"] == "area" else ro.show_nourishment_time)(m, **kw)
        r["onto"] = want is None or (ax is want and len(plt.get_fignums()) == 1)
        ims = ax.images
        d = rgba(ims[-1])
        r["drawn"] = [[[int(np.argmin(np.abs(lut - px[:3]).sum(axis=1))), rec.num(px[3], 255)]
                       for px in row] for row in d]
        up, ext = corner(ims[-1], ax)
        L, W = m.shape
        r["upright"] = up and bool(np.allclose(ext, (-.5, W - .5, -.5, L - .5)))
        if s["grid"]:
            r["under"] = rec.grid(ims[0].get_array()) if len(ims) > 1 else []
            if len(ims) > 1:
                u, e = corner(ims[0], ax)
                r["upright"] = r["upright"] and u and bool(np.allclose(e, ext))
        elif len(ims) > 1:
            r["under"] = [[0]]
        bars = [a for a in ax.figure.axes if a is not ax and (want is None or a not in axs)]
        if bars:
            lo, hi = bars[0].get_ylim()
            r["bar"] = [rec.num(lo, 8), rec.num(hi, 8)]
        if s["askbar"] != bool(bars):
            r["bar"] = [-1, -1]
        if len({v for row in s["m"] for v in row if v != NOVAL}) == 1 and s["askbar"] and bars:
            r["bar"] = []         # a scale without extent is widened
        r["same"] = bool(rec.same(keep, rec.snapshot(m))) and \
            bool(rec.same(keepw, rec.snapshot(kw.get("walk_data"))))
        r["marked"] = [c for st in figs.look(ax.figure)["sets"] for c in st]

    def spatial(s, r, base):
        maps = [arr(m, 100.) for m in s["maps"]]
        elev = np.array(s["elev"], dtype=float)
        keep = rec.snapshot(maps, elev)
        fig, axes, cax, cbar = sp.plot_spatial(maps, elev, s["top"] / 1000., s["nlev"],
                                               matplotlib.colormaps["viridis"], "days")
        r["naxes"] = len(axes)
        for ax in fig.axes:
            if not ax.images:
                continue
            ims = ax.images
            top, (e1, u1) = ims[-1], (corner(ims[-1], ax)[1], corner(ims[-1], ax)[0])
            u0, e0 = corner(ims[0], ax)
            bounds = getattr(top.norm, "boundaries", [])
            r["panels"].append({"data": rec.grid(np.ma.filled(np.ma.masked_invalid(top.get_array()), np.nan), 100.),
                                "under": rec.grid(ims[0].get_array()) if len(ims) > 1 else [],
                                "fits": bool(u0 and u1 and np.allclose(e0, e1)),
                                "levels": [rec.num(v, 1000) for v in bounds],
                                "pos": float(ax.get_position().x0)})
        r["panels"].sort(key=lambda p: p.pop("pos"))
        r["barlevels"] = [rec.num(v, 1000) for v in cbar.get_ticks()]
        r["same"] = bool(rec.same(keep, rec.snapshot(maps, elev)))

    class Film(animation.AbstractMovieWriter):
        """records frames instead of encoding them"""
        seen, files = [], []

        @classmethod
        def isAvailable(cls):
            return True

        def __init__(self, *a, **k):
            super().__init__(fps=k.get("fps", 5))

        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, dpi)
            Film.files.append(str(outfile))
            Film.seen.clear()

        def grab_frame(self, **k):
            ax = [a for a in self.fig.axes if a.images][0]
            im = ax.images[-1]
            a = np.array(im.get_array(), dtype=float)
            Film.seen.append(a if corner(im, ax)[0] else a[::-1])

        def finish(self):
            pass

    def anim(s, r, base):
        os.makedirs(base + "/o/figs")
        for n in range(s["from"] - 2, s["upto"] + 2):
            if n < 0:
                continue
            px = np.zeros((s["h"], s["w"], 4))
            px[..., 3] = 1
            px[0, :, 0] = (n + 1) / 255.
            px[-1, :, 1] = 1
            mgimg.imsave(base + "/o/figs/output%d.png" % n, px)
        animation.writers.register("ffmpeg")(Film)
        Film.files.clear()
        ro.animate_plots(s["from"], s["upto"], base + "/o")
        r["upright"] = True
        for a in Film.seen:
            r["shown"].append(int(round(a[0, 0, 0] * 255)) - 1 if a.ndim == 3 else -1)
            if a.ndim != 3 or a[-1, 0, 1] != 1:
                r["upright"] = False
        r["file"] = os.path.relpath(Film.files[-1], base + "/o") if Film.files else ""

    def one(s):
        r = dict(s, err="", same=True)
        for k in ("alpha", "sigma", "cmap"):
            r.pop(k, None)
        r.update({"heat": {"drawn": [], "marked": [], "under": [], "bar": [], "upright": False, "onto": False, "one": 1000, "slack": 1,
                           "minalpha": int(255 * (s.get("alpha") if s.get("alpha") is not None
                                                  else 0 if s.get("fn") == "area" else .3))},
                  "spatial": {"panels": [], "barlevels": [], "naxes": 0},
                  "anim": {"shown": [], "upright": False, "file": ""}}[s["kind"]])
        base = tempfile.mkdtemp(dir=os.getcwd())
        plt.close("all")
        try:
            fn = {"heat": heat, "spatial": spatial, "anim": anim}[s["kind"]]
            _, r["err"], _ = rec.guarded(lambda: fn(s, r, base), 120)
        finally:
            plt.close("all")
            shutil.rmtree(base, ignore_errors=True)
        return r
    return rec.run_all(sc, one)
