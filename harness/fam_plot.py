"""C25 exposure curves, C26 positions, paths and tails (spec/Plots)."""
import copy

from fam_hist import rand_walk

NAME, MODULE, SHARDS, DRIVERS = "plot", "PlotTrace", 6, 4
CLAUSES = {"C25": ("etd.",), "C26": ("plot.", "path.", "snake.", "mark.")}


def models(ck, prop):
    ck.model("MCPlots", level=0 if ck.quick else 1, workers=2)


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 10
    out = []
    if prop == "C25":
        for i in range(70 * k):
            n = rng.choice([1, 2, 3, 5, 8, 20]) if i % 35 != 20 else rng.choice([450, 700])
            w = rand_walk(rng, 6, 6, n, 6, maxdt=60)
            for t in w["t"]:
                if t[-1] < 2000:
                    t[-1] = 2000 + 125 * rng.randint(0, 300)
            if i % 8 == 5:              # a record of half an hour
                for t in w["t"]:
                    t[-1] = 125 * rng.randint(13000, 15000)
            uniform = rng.random() < .4
            end = (max if uniform else min)(t[-1] for t in w["t"])
            pool = [0, 0, 1, end // 2, end // 3, 99 * end // 100, 99 * end // 100 + 1,
                    99 * end // 100 - 1, end, end + 500, 2 * end]
            ex = [rng.choice(pool) if rng.random() < .4 else rng.randint(0, end) for _ in range(n)]
            if i % 8 == 5:
                ex[0] = 1
            ex = [e + 1 if 100 * e == 99 * end else e for e in ex]
            out.append({"kind": "etd", "w": w, "ex": ex, "uniform": uniform,
                        "fn": "thresholds" if i % 3 == 0 else "plain",
                        "delta": rng.choice([1, 60, 3600, 86400, 7, 2.5, rng.choice([30, 61, 120, 7200, 86401, 172800, 604800])]),
                        "nbins": rng.choice([100, 100, 10, 3, 57, 300, 1000]),
                        "save": rng.random() < .6, "show": rng.random() < .3,
                        "folder": rng.choice(["new", "existing", "cwd", "nested"])})
        return out
    for i in range(40 * k):
        L, W = rng.randint(2, 9), rng.randint(2, 9)
        w = rand_walk(rng, L, W, rng.randint(1, 6), rng.choice([1, 3, 8]),
                      rng.sample(["depth", "qx"], rng.randint(0, 1)), maxdt=8)
        out.append({"kind": "state", "w": w, "L": L, "W": W, "bytime": rng.random() < .5,
                    "T": rng.choice([0, 0, 125 * rng.randint(0, 40), 10**6]),
                    "it": rng.choice([-1, 0, 1, 2, 7, 50, -2]), "c": rng.choice(["", "r", "g", "k"]),
                    "open": rng.choice([0, 0, 1, 2])})
    for i in range(2 * k):          # far columns, long walks, many particles
        L, W = rng.choice([(3, 300), (300, 3), (140, 140)])
        w = rand_walk(rng, L, W, rng.choice([3, 270]), 5)
        out.append({"kind": "state", "w": w, "L": L, "W": W, "bytime": i % 2 == 0, "T": 250, "it": 1,
                    "c": "", "open": 0})
        w = rand_walk(rng, L, W, 2, 400)
        out.append({"kind": "path", "w": w, "L": L, "W": W, "follow": "all",
                    "every": rng.choice([1, 7, 130]), "legend": False, "real": False})
        out.append({"kind": "path", "w": rand_walk(rng, L, W, 150, 4), "L": L, "W": W, "follow": "all",
                    "every": rng.choice([1, 2]), "legend": False, "real": False})
    for i in range(40 * k):
        L, W = rng.randint(2, 12), rng.randint(2, 12)
        n = rng.randint(1, 6)
        w = rand_walk(rng, L, W, n, rng.choice([1, 3, 8, 20]))
        ids = "all" if rng.random() < .4 else [rng.randrange(n) for _ in range(rng.randint(1, 4))]
        out.append({"kind": "path", "w": w, "L": L, "W": W, "follow": ids,
                    "every": rng.choice([1, 1, 2, 3, 7]), "legend": rng.random() < .2,
                    "real": i == 0})
    for i in range(40 * k):
        L, W = rng.randint(2, 12), rng.randint(2, 12)
        w = rand_walk(rng, L, W, rng.randint(1, 5) if i % 10 != 3 else rng.randint(12, 40),
                      rng.choice([2, 6, 12, 25]))
        out.append({"kind": "snake", "w": w, "L": L, "W": W, "steps": rng.randint(1, 7),
                    "every": rng.choice([1, 2, 3, 4, 4]), "tail": rng.choice([1, 2, 5, 12]),
                    "default": rng.random() < .3, "real": i == 0,
                    "folder": rng.choice(["new", "existing", "used", "cwd", "nested"]),
                    "from": [], "to": []})
        if rng.random() < .5:
            out[-1].update({"from": [rng.randint(0, 10) * 100 for _ in range(4)],
                            "to": [rng.randint(0, 10) * 100 for _ in range(4)]})
    for i in range(4 * k):           # tails longer than anyone needs
        w = rand_walk(rng, 9, 9, rng.randint(1, 3), 60, maxdt=4)
        for q in ("x", "y", "t"):
            w[q][0] = (w[q][0] * 60)[:60] if q != "t" else [125 * 3 * a for a in range(60)]
        out.append({"kind": "snake", "w": w, "L": 9, "W": 9, "steps": rng.randint(24, 34),
                    "every": rng.choice([1, 2]), "tail": rng.choice([18, 25, 30]), "default": False,
                    "real": False, "folder": "new", "from": [], "to": []})
    for i in range(16 * k):
        L, W = rng.randint(4, 9), rng.randint(4, 9)
        w = rand_walk(rng, L, W, rng.randint(1, 4), 8)
        out.append({"kind": "mark", "w": w, "L": L, "W": W, "fn": rng.choice(["area", "time"]),
                    "show": rng.random() < .8, "under": rng.random() < .5})
    for s in out:
        s["grid"] = [[rng.randint(0, 50) for _ in range(s["W"])] for _ in range(s["L"])]
    return out


def corrupt(prop, recs, rng):
    out = []
    for r in recs:
        if len(out) >= 6:
            break
        if r["err"]:
            continue
        if r["kind"] == "etd":
            if len(out) % 3 == 2:
                if not r["told"] and not r["slopes"]:
                    continue
                if r["slopes"]:
                    r["slopes"][0]["y"][-2] += 60 * (1 + len(r["ex"]))
                else:
                    r["told"][1][1] = 10 ** 9
            elif len(out) % 3:
                if not r["saved"]:
                    continue
                r["saved"][0] += 1
            else:
                c = r["curves"][0]
                c["y"] = [v + 1000 for v in c["y"]]
        elif r["kind"] == "state":
            if len(out) > 1 or not r["sets"]:
                continue
            r["sets"][-1][0][0] += 1
        elif r["kind"] == "path":
            if len(out) > 3 or not r["paths"]:
                continue
            r["paths"][-1][0][0][1] += 1
        elif r["kind"] == "snake":
            if not r["figs"]:
                continue
            r["figs"] = r["figs"][1:]
        else:
            continue
        out.append(r)
    return out


def run(sc):
    import json
    import logging
    import os
    import re
    import shutil
    import tempfile
    import numpy as np
    import dorado.particle_track as pt
    import dorado.routines as ro
    import figs
    import rec

    UNITS = ["s", "m", "hr", "day"]

    def enc(w):
        return {k: w[k] for k in ("x", "y", "t", "vars")}

    def etd(s, r, base):
        w = rec.walk(s["w"])
        ex = [e / 1000. for e in s["ex"]]
        keep = rec.snapshot(w, ex)
        d = {"new": base + "/out", "existing": base + "/old", "cwd": None,
             "nested": base + "/a/b"}[s["folder"]]
        if s["folder"] == "existing":
            os.makedirs(base + "/old/figs")
            os.makedirs(base + "/old/data")
            with open(base + "/old/data/exposure_times.txt", "w") as f:
                json.dump([1] * 999, f)
        fn = ro.plot_exposure_time if s["fn"] == "plain" else ro.plot_exposure_time_thresholds
        kw = {"timedelta": s["delta"], "nbins": s["nbins"], "save_output": s["save"],
              "uniform_timesteps": s["uniform"]}
        if s["fn"] == "plain" and s["show"]:
            kw["show_thresholds"] = True
        if d:
            kw["folder_name"] = d
        said = []
        logger, level = logging.getLogger("dorado"), logging.getLogger("dorado").level
        ear = logging.Handler(logging.INFO)
        ear.emit = lambda m: said.append(m.getMessage())
        logger.addHandler(ear)
        logger.setLevel(logging.INFO)
        try:
            with figs.Watch(also=lambda f: {"frame": figs.frames(f)}) as watch:
                fn(w, ex, **kw)
                seen = watch.open_figs()
        finally:
            logger.removeHandler(ear)
            logger.setLevel(level)
        if True:
            shown = watch.seen if s["save"] else seen
        r["same"] = bool(rec.same(keep, rec.snapshot(w, ex)))
        n = len(ex)
        lines, hl, slopes = [], [], []
        for m in said:
            g = re.match(r"E(50|75|90): *(not|[-+.\de]+)", m)
            if g:
                r["told"].append([int(g[1]), -1 if g[2] == "not" else rec.num(g[2], s["delta"] * 1000.)])
        for k, f in enumerate(shown):
            name = f.get("name") or (["Exact_CETD.png", "Smooth_CETD.png", "ETD.png"][k]
                                     if s["fn"] == "plain" and k < 3 else "Smooth")
            q = f["frame"]
            r["frames"].append({"x": [rec.num(v, s["delta"] * 1000.) for v in q["x"]],
                                "y": [rec.num(v, 1000) for v in q["y"]],
                                "cumulative": name != "ETD.png",
                                "unit": [u for u in UNITS if "[%s]" % u in q["xlabel"]]})
            if name == "ETD.png":
                for ln in f["lines"]:
                    h = ln["x"][1] - ln["x"][0]
                    slopes.append({"x": [rec.num(v, s["delta"] * 1000.) for v in ln["x"]],
                                   "y": [rec.num(v * h, n * 1000.) for v in ln["y"]]})
            if not (name.startswith("Exact") or name.startswith("Smooth")):
                continue
            for ln in f["lines"]:
                if ln["x"] == [0, 1] and len(ln["y"]) == 2 and ln["y"][0] == ln["y"][1] \
                        and ln["y"][0] in (.5, .75, .9):
                    hl.append(rec.num(ln["y"][0], 1000))
                    continue
                lines.append({"exact": name.startswith("Exact"),
                              "x": [rec.num(v, s["delta"] * 1000.) for v in ln["x"]],
                              "y": [rec.num(v, n * 1000.) for v in ln["y"]],
                              "style": ln["style"]})
        # a step line that is not drawn "post" means something else
        for ln in lines:
            if ln["exact"] and ln["style"] != "steps-post":
                ln["y"] = []
        if not any(ln["exact"] for ln in lines) and s["fn"] == "plain" or \
                all(ln["exact"] for ln in lines):
            lines.append({"exact": False, "x": [], "y": []})
        r.update(curves=lines, hlines=hl, saved=[], wantsaved=[], slopes=slopes)
        if s["save"] and s["fn"] == "plain":
            r["wantsaved"] = s["ex"]
            with open((d or base) + "/data/exposure_times.txt") as f:
                r["saved"] = [rec.num(v, 1000) for v in json.load(f)]
            if not os.path.exists((d or base) + "/figs/Exact_CETD.png"):
                r["saved"] = []

    def state(s, r, base):
        w = rec.walk(s["w"])
        keep = rec.snapshot(w)
        figs.plt.close("all")
        kw = {"target_time": s["T"] / 1000.} if s["bytime"] else {"iteration": s["it"]}
        if s["bytime"] and s["T"] == 0:
            kw["target_time"] = 0
        if s["c"]:
            kw["c"] = s["c"]
        want = None
        if s["open"]:               # drawn in the axes in use, as other plots are
            fig, axs = figs.plt.subplots(1, 2)
            want = axs[s["open"] - 1]
            figs.plt.sca(want)
        ax = ro.plot_state(np.array(s["grid"], dtype=float), w, **kw)
        r["onto"] = want is None or (ax is want and len(figs.plt.get_fignums()) == 1)
        r["sets"] = figs.look(ax.figure)["sets"]
        r["pics"] = figs.images(ax.figure, 1.)
        r["rgb"] = [m["rgb"] for m in figs.marks(ax.figure)]
        r["same"] = bool(rec.same(keep, rec.snapshot(w)))

    def path(s, r, base):
        w = rec.walk(s["w"])
        keep = rec.snapshot(w)
        kw = {} if s["follow"] == "all" else {"particles_to_follow": list(s["follow"])}
        with figs.Watch(s["real"], lambda f: {"pics": figs.images(f, 1.), "legend": figs.legend(f),
                                              "colours": figs.colours(f)}) as watch:
            ro.draw_travel_path(np.array(s["grid"], dtype=float), w, output_file=base + "/p.png",
                                interval=s["every"], plot_legend=s["legend"], **kw)
        r["ids"] = list(range(len(s["w"]["x"]))) if s["follow"] == "all" else s["follow"]
        r["paths"] = watch.seen[-1]["paths"] if watch.seen else []
        for d in watch.seen[-1:]:
            r["pics"] = d["pics"]
            r["key"], r["colours"] = d["legend"], d["colours"]
        r["file"] = os.path.exists(base + "/p.png")
        r["same"] = bool(rec.same(keep, rec.snapshot(w)))

    def snake(s, r, base):
        w = rec.walk(s["w"])
        keep = rec.snapshot(w)
        kw = {} if s["default"] else {"interval": s["every"], "tail_length": s["tail"]}
        if s["default"]:
            r["every"], r["tail"] = 4, 12
        if s["from"]:
            kw.update(rgba_start=[v / 1000. for v in s["from"]], rgba_end=[v / 1000. for v in s["to"]])
        else:
            r["from"], r["to"] = [1000, 400, 200, 1000], [1000, 300, 100, 0]
        d = {"cwd": base, "nested": base + "/o/p"}.get(s["folder"], base + "/o")
        if s["folder"] == "existing":
            os.makedirs(d)
        if s["folder"] == "used":
            os.makedirs(d + "/figs")
            open(d + "/figs/notes", "w").close()
        if s["folder"] != "cwd":
            kw["folder_name"] = d
        with figs.Watch(s["real"], lambda f: {"pics": figs.images(f, 1.), "tails": figs.tails(f)}) as watch:
            ro.snake_plots(np.array(s["grid"], dtype=float), w, s["steps"], **kw)
        r["figs"] = [{"name": f["name"], "pics": f["pics"], "tails": f["tails"], "segs": [g for c in f["paths"] for g in c]}
                     for f in watch.seen]
        r["files"] = sorted(f for f in os.listdir(d + "/figs") if f != "notes")
        r["used"] = s["folder"] != "used" or os.path.exists(d + "/figs/notes")
        r["same"] = bool(rec.same(keep, rec.snapshot(w)))

    def mark(s, r, base):
        w = rec.walk(s["w"])
        g = np.ones((s["L"], s["W"]))
        if s["fn"] == "area":
            m = pt.nourishment_area(w, g.shape)
            fn = ro.show_nourishment_area
        else:
            m = pt.nourishment_time(w, g.shape)
            fn = ro.show_nourishment_time
        m = np.nan_to_num(m)
        keep = rec.snapshot(w, m)
        kw = {"show_seed": s["show"], "walk_data": w}
        if s["under"]:
            kw["grid"] = g
        figs.plt.close("all")
        ax = fn(m, **kw)
        r["sets"] = figs.look(ax.figure)["sets"]
        r["same"] = bool(rec.same(keep, rec.snapshot(w, m)))

    def one(s):
        r = {k: v for k, v in s.items() if k not in ("L", "W")}
        r.update(err="", same=True, w=enc(s["w"]))
        if s["kind"] == "etd":
            r.update(slopes=[], told=[], frames=[], named={1: "s", 60: "m", 3600: "hr",
                                                            86400: "day"}.get(s["delta"], ""), unit=int(1000 * s["delta"]),
                     show=s["fn"] == "plain" and s["show"])
        r.update({"etd": {"curves": [], "hlines": [], "saved": [], "wantsaved": [],
                          "thresholds": s.get("fn") == "thresholds"},
                  "state": {"sets": [], "pics": [], "rgb": [], "onto": False},
                  "path": {"paths": [], "ids": [], "file": False, "pics": [], "key": [], "colours": []},
                  "snake": {"figs": [], "files": [], "used": True}, "mark": {"sets": []}}[s["kind"]])
        base = tempfile.mkdtemp(dir=os.getcwd())
        here = os.getcwd()
        os.chdir(base)
        try:
            fn = {"etd": etd, "state": state, "path": path, "snake": snake, "mark": mark}[s["kind"]]
            _, r["err"], _ = rec.guarded(lambda: fn(s, r, base), 120)
        finally:
            figs.plt.close("all")
            os.chdir(here)
            shutil.rmtree(base, ignore_errors=True)
        return r
    return rec.run_all(sc, one)
