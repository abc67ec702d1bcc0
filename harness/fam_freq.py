"""C04 choice frequencies, C05 ties, C06 spread of durations (spec/Freq)."""
import copy

import envgen

NAME, MODULE, SHARDS, DRIVERS = "freq", "FreqTrace", 6, 6
CLAUSES = {"C04": ("freq.",), "C05": ("steep.", "freq.error"), "C06": ("time.", "freq.error")}


def models(ck, prop):
    if prop == "C04":
        ck.model("MCRouting", level=0 if ck.quick else 1, workers=3)


def symmetric(rng, kind):
    """domains in which several neighbours are exactly equally good"""
    e = envgen.make_env(rng, "basin", mode="ds", sd=True)
    L, W = e["L"], e["W"]
    d = rng.choice([100, 150])
    if kind == "patch":      # dead ends, several equally deep neighbours
        e["depth"] = envgen.grid(L, W, lambda i, j: rng.choice([100, 100, 100, 200, 200, 0]))
    else:
        e["depth"] = envgen.grid(L, W, lambda i, j: d)
    if kind == "pyramid":
        e["gamma"] = 100
        if "gamma" in e["omit"]:
            e["omit"].remove("gamma")
        e["stage"] = envgen.grid(L, W, lambda i, j: rng.choice([0, 0, -20, -20, -10]))
    else:
        e["stage"] = envgen.grid(L, W, lambda i, j: 50)
        e["fx"] = envgen.grid(L, W, lambda i, j: 0)
        e["fy"] = envgen.grid(L, W, lambda i, j: 0)
    return e


def mobile(e):
    return [(i, j) for i in range(1, e["L"] - 1) for j in range(1, e["W"] - 1)
            if not any(e["ctype"][i + a][j + b] == -1 if e["ctype"] else
                       (i + a in (0, e["L"] - 1) or j + b in (0, e["W"] - 1))
                       for a in (-1, 0, 1) for b in (-1, 0, 1))]


def scenarios(ck, prop, rng):
    k = 1 if ck.quick else 10
    out = []

    def add(kind, e, total, steps, most=40):
        if rng.random() < .5:
            envgen.rescale(rng, [e])
        cells = mobile(e)
        cells = rng.sample(cells, min(len(cells), most))
        if cells:
            out.append({"kind": kind, "e": e, "cells": cells, "n": total // len(cells),
                        "steps": steps, "seed": rng.randrange(2**31)})
    if prop == "C04":
        for kind in ["random", "basin", "patchy", "pits", "nan", "custom"] * (3 * k):
            e = envgen.make_env(rng, kind, sd=False, vars=[], roi=[])
            add("freq", e, 24000, rng.choice([1, 2]))
        for i in range(6 * k):          # few cells, many particles
            e = envgen.make_env(rng, rng.choice(["random", "basin", "patchy"]), sd=False,
                                vars=[], roi=[], gamma=rng.choice([0, 5, 30, 50, 70, 100]),
                                theta2=rng.choice([0, 1, 2, 3, 4, 6, 7, 10]), omit=[])
            add("freq", e, 40000, 1, 3)
        for i in range(10 * k):         # every magnitude of the surface's slopes
            e = envgen.make_env(rng, rng.choice(["random", "basin", "patchy"]), sd=False, vars=[],
                                roi=[], gamma=rng.choice([0, 30, 50, 70]), mode="ds",
                                theta2=rng.choice([0, 1, 2]), omit=[])
            add("freq", e, 24000, 1, 12)
            e["sf"] = [.0001, .01, 30, 1, 3000][i % 5]
    elif prop == "C05":
        for i in range(12 * k):
            add("ties", symmetric(rng, ["still", "pyramid", "patch"][i % 3]), 8000, 1, 20)
    elif prop == "C06":
        for dc in (20, 20, 100, 50, 10, 200):
            for i in range(2 * k):
                e = envgen.make_env(rng, rng.choice(["basin", "basin", "random"]), vars=[],
                                    roi=[], dc=dc, omit=[], dx=rng.choice([500, 1000]))
                add("spread", e, 9000, 1, rng.choice([3, 12]))
    return out


def corrupt(prop, recs, rng):
    out = []
    for r in recs:
        if len(out) >= 4:
            break
        if r["err"]:
            continue
        for x in r["cells"]:
            done = False
            if r["kind"] == "freq":
                best = max(range(9), key=lambda a: x["counts"][a])
                other = [a for a in range(9) if x["counts"][a] == 0]
                if best != 4 and other and x["counts"][best] > 500:
                    d = x["counts"][best] // 3
                    x["counts"][best] -= d
                    x["counts"][other[0]] += d
                    done = True
            elif r["kind"] == "ties":
                live = [a for a in range(9) if x["counts"][a] > 60]
                flat = all(v == 0 for a in ("fx", "fy") for row in r["e"][a] for v in row) and \
                    len({v for row in r["e"]["stage"] for v in row}) == 1
                if flat and len(live) >= 2:
                    x["counts"][live[0]] += x["counts"][live[1]]
                    x["counts"][live[1]] = 0
                    done = True
            elif len(x["ts"]) >= 100 and min(x["ts"]) >= 3000 and max(x["ts"]) < 10**8:
                m = sorted(x["ts"])[len(x["ts"]) // 2]
                x["ts"] = [min(t, m) for t in x["ts"]]
                done = True
            if done:
                out.append(r)
                break
    return out


def run(sc):
    import numpy as np
    import dorado.particle_track as pt
    import drive
    import rec
    import walkfam

    def one(s):
        e = s["e"]
        np.random.seed(s["seed"])
        r = {"kind": s["kind"], "err": "", "e": walkfam.strip(e), "cells": []}
        starts = [tuple(c) for c in s["cells"] for _ in range(s["n"])]
        P, r["err"], _ = rec.guarded(lambda: pt.Particles(drive.make_params(e)))
        if r["err"]:
            return r
        _, r["err"], _ = rec.guarded(lambda: P.generate_particles(
            len(starts), [c[0] for c in starts], [c[1] for c in starts], method="exact"))
        if r["err"]:
            return r
        counts, times, other = {}, {}, {}
        pos = starts
        for _ in range(s["steps"]):
            lens = [len(p) for p in P.walk_data["xinds"]]
            _, r["err"], _ = rec.guarded(lambda: P.run_iteration(), 300)
            if r["err"]:
                return r
            w = P.walk_data
            nxt = []
            for i, c in enumerate(pos):
                n = (drive.i_ind(w["xinds"][i][-1]), drive.i_ind(w["yinds"][i][-1]))
                a, b = n[0] - c[0], n[1] - c[1]
                cnt = counts.setdefault(c, [0] * 9)
                if abs(a) > 1 or abs(b) > 1:
                    other[c] = other.get(c, 0) + 1
                else:
                    cnt[3 * (a + 1) + b + 1] += 1
                if s["kind"] == "spread" and n != c and len(w["travel_times"][i]) > 1:
                    ts = times.setdefault((c, 3 * (a + 1) + b + 1), [])
                    if len(ts) < 600:
                        ts.append(drive.i_time(w["travel_times"][i][-1] -
                                               w["travel_times"][i][-2]))
                nxt.append(n)
            pos = nxt
        if s["kind"] == "spread":
            r["cells"] = [{"c": list(c), "k": k, "ts": ts} for (c, k), ts in sorted(times.items())
                          if len(ts) >= 100 and abs(k - 4) <= 4]
        else:
            r["cells"] = [{"c": list(c), "counts": counts[c], "other": other.get(c, 0)}
                          for c in sorted(counts)]
        return r
    return rec.run_all(sc, one)
