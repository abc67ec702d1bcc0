"""Runs call sequences on the real dorado and records them for TLC.

usage: drive.py <family> <scenarios.json> <records.json>
"""
import copy
import importlib
import json
import math
import os
import re
import signal
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

NAN, NONE = -99999, -77777
GRIDS = ("depth", "stage", "topo", "fx", "fy", "ctype", "roi")
BADT, HUGE = -1000000000, 1000000000
BADI = -55555
SCALE = {"depth": 100., "stage": 100., "qx": 1e4, "qy": 1e4, "u": 100., "v": 100.,
         "roi_flag": 1.}


class CallTimeout(Exception):
    pass


def _alarm(*_):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)


TIMEOUTS = [0]


def guarded(fn, seconds=60):
    """(value, error name, warnings)"""
    if TIMEOUTS[0] >= 2:      # code that hangs hangs again: do not wait as long
        seconds = 5 if TIMEOUTS[0] < 12 else 1
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        signal.alarm(seconds)
        try:
            return fn(), "", ws
        except CallTimeout:
            TIMEOUTS[0] += 1
            return None, "Timeout", ws
        except Exception as ex:      # noqa
            return None, type(ex).__name__, ws
        finally:
            signal.alarm(0)


def i_ind(v):
    try:
        f = float(v)
        if f != int(f):
            return BADI
        return int(f)
    except Exception:
        return BADI


def i_time(t):
    try:
        f = float(t) * 1000.
    except Exception:
        return BADT
    if math.isnan(f) or f < -5e8:
        return BADT
    if f >= HUGE:
        return HUGE
    return int(round(f))


def i_val(v, scale=1.):
    if v is None:
        return NONE
    try:
        f = float(v)
    except Exception:
        return BADI
    if math.isnan(f):
        return NAN
    f *= scale
    if abs(f) > 1e9:
        return 1000000000 if f > 0 else -1000000000
    return int(round(f))


def scale_of(e, k):
    d, v = e.get("df", 1), e.get("vf", 1)
    return SCALE.get(k, 1.) / {"depth": d, "stage": e.get("sf", 1), "qx": d * v, "qy": d * v,
                               "u": v, "v": v}.get(k, 1)


def enc_walk(w, e={}):
    if w is None:
        return {"none": True}
    vs = {}
    for k in w:
        if k not in ("xinds", "yinds", "travel_times", "xcoord", "ycoord"):
            vs[k] = [[i_val(a, scale_of(e, k)) for a in p] for p in w[k]]
    return {"x": [[i_ind(a) for a in p] for p in w["xinds"]],
            "y": [[i_ind(a) for a in p] for p in w["yinds"]],
            "t": [[i_time(a) for a in p] for p in w["travel_times"]],
            "vars": vs}


def farr(a, scale):
    import numpy as np
    out = np.array(a, dtype=float) / scale
    out[np.array(a) == NAN] = np.nan
    return out


def make_params(e):
    import numpy as np
    import dorado.particle_track as pt
    p = pt.modelParams()

    def tiles(a):
        L, W = e["L"], e["W"]
        if len(a) == L and len(a[0]) == W:
            return a
        return [[a[i % len(a)][j % len(a[0])] for j in range(W)] for i in range(L)]
    e = dict(e, **{n: tiles(e[n]) for n in GRIDS if e[n]})
    # other magnitudes of depth, stage and speed (envgen.rescale)
    df, sf, vf = (e.get(n, 1) for n in ("df", "sf", "vf"))
    p.dx = e["dx"] / 10. * vf
    if e["depth"]:
        p.depth = farr(e["depth"], 100.) * df
    if e["stage"]:
        p.stage = farr(e["stage"], 100.) * sf
    if e["topo"]:
        p.topography = farr(e["topo"], 100.)
    if e["flow"] == "q":
        p.qx = farr(e["fx"], 1e4)
        p.qy = farr(e["fy"], 1e4)
    else:
        p.u = farr(e["fx"], 100.) * vf
        p.v = farr(e["fy"], 100.) * vf
    if e["model"]:
        p.model = e["model"]
    om = e.get("omit", [])
    if "theta2" not in om:
        p.theta = e["theta2"] / 2.
    if "gamma" not in om:
        p.gamma = e["gamma"] / 100.
    if "dry" not in om:
        p.dry_depth = e["dry"] / 100. * df
    if "dc" not in om:
        p.diff_coeff = e["dc"] / 100.
    if e["sd"]:
        p.steepest_descent = True
    if e["ctype"]:
        p.cell_type = np.array(e["ctype"], dtype=int)
    if e["roi"]:
        p.roi_grid = np.array(e["roi"], dtype=int)
    if e.get("verbose", True) is False:
        p.verbose = False
    if e["vars"]:
        p.particle_variables = list(e["vars"])
    return p


def warned_ids(ws):
    """iteration limit warnings: (count, listed particle ids, was there a list)"""
    n, ids, parsed = 0, [], False
    for w in ws:
        if issubclass(w.category, DeprecationWarning):
            continue
        s = str(w.message)
        if "iteration" in s.lower() or "limit" in s.lower():
            n += 1
            a, b = s.rfind("["), s.rfind("]")
            if 0 <= a < b:
                try:
                    ids = [int(t) for t in re.findall(r"(?<![\w.])\d+(?![\w.])", s[a + 1:b])]
                    parsed = True
                except ValueError:
                    ids = []
    return n, ids, parsed


def container(v, how):
    import numpy as np
    if how == "array":
        return np.array(v, dtype=int)
    if how == "tuple":
        return tuple(v)
    if how == "array2":
        return np.array(v, dtype=int).reshape(-1, 1)
    if how == "row":
        return np.array(v, dtype=int).reshape(1, -1)
    if how in ("block", "blockF"):      # two dimensional, read row by row
        a = next((d for d in (2, 3) if len(v) % d == 0), 1)
        m = np.array(v, dtype=int).reshape(a, len(v) // a)
        return m if how == "block" else np.asfortranarray(m)
    if how == "strided":
        return np.array([[q, -1] for q in v], dtype=int).reshape(-1, 2)[:, 0]
    if how == "short":
        return np.array(v, dtype="int16")
    if how == "unsigned":
        return np.array(v, dtype="uint16")
    if how == "numpyints":
        return [np.int64(q) for q in v]
    return list(v)


def run_episode(sc, envs):
    import numpy as np
    import dorado.particle_track as pt
    np.random.seed(sc["seed"] % (2**32))
    objs, params, slots = [], [], {}
    events = []
    for call in sc["calls"]:
        op, o = call["op"], call["obj"]
        ev = {"op": op, "obj": o, "err": "", "retsame": True}
        P = objs[o - 1] if o <= len(objs) else None
        E = envs[call["env"] - 1] if op == "new" else envs[sc["_env"][o] - 1]
        if op == "new":
            e = envs[call["env"] - 1]
            ev["env"] = call["env"]

            def build():
                if call.get("share"):
                    p = params[call["share"] - 1]
                    for k, n, c, f in (("theta2", "theta", 2., 1), ("gamma", "gamma", 100., 1),
                                       ("dry", "dry_depth", 100., e.get("df", 1)),
                                       ("dc", "diff_coeff", 100., 1)):
                        if k not in e.get("omit", []):
                            setattr(p, n, e[k] / c * f)
                    if e["sd"] or hasattr(p, "steepest_descent"):
                        p.steepest_descent = e["sd"]
                else:
                    p = make_params(e)
                params.append(p)
                return pt.Particles(p)
            obj, ev["err"], _ = guarded(build)
            objs.append(obj)
            sc.setdefault("_env", {})[o] = call["env"]
            if obj is None:
                events.append(dict(ev, all=[]))
                break
        elif op == "gen":
            prev = None
            if call["prev"] != "none":
                kind, ref = call["prev"].split(":")
                if kind == "live":
                    prev = objs[int(ref) - 1].walk_data
                elif kind == "copy":
                    prev = copy.deepcopy(objs[int(ref) - 1].walk_data)
                elif kind == "json":
                    prev = json.loads(json.dumps(objs[int(ref) - 1].walk_data))
                elif kind == "bare":      # only the basic variables
                    w = objs[int(ref) - 1].walk_data
                    prev = None if w is None else copy.deepcopy(
                        {k: w[k] for k in ("xinds", "yinds", "travel_times")})
            before = copy.deepcopy(prev)
            ev.update(n=call["n"], xs=call["xs"], ys=call["ys"], t0=call["t0"],
                      method=call["method"], prev=enc_walk(before, E),
                      bad=call.get("bad", ""), spread=bool(call.get("spread")))
            t0 = call["t0"] / 1000.
            if call["t0"] == 0:
                t0 = 0
            kw = {"seed_time": t0, "method": call["method"]}
            args = [call["n"], container(call["xs"], call.get("cont")),
                    container(call["ys"], call.get("cont2", call.get("cont")))]
            for k, v in call.get("raw", {}).items():
                if k == "n":
                    args[0] = v
                elif k == "xs":
                    args[1] = v
                elif k == "ys":
                    args[2] = v
                else:
                    kw[k] = v
            if prev is not None:
                kw["previous_walk_data"] = prev
            _, ev["err"], ws = guarded(lambda: P.generate_particles(*args, **kw))
            ev["warned"] = any(w.category is UserWarning for w in ws)
            ev["verbose"] = bool(envs[sc["_env"][o] - 1].get("verbose", True))
            ev["prevsame"] = bool(prev is None or enc_walk(prev, E) == enc_walk(before, E))
            ev["np"] = int(P.Np_tracer)
        elif op == "step":
            ret, ev["err"], _ = guarded(lambda: P.run_iteration())
            if not ev["err"]:
                ev["retsame"] = enc_walk(ret, E) == enc_walk(P.walk_data, E)
        elif op == "target":
            ev.update(T=call["T"], maxit=call["maxit"],
                      verbose=bool(envs[sc["_env"][o] - 1].get("verbose", True)))
            ret, ev["err"], ws = guarded(
                lambda: P.run_iteration(target_time=call["T"] / 1000., **(
                    {} if call.get("default") else {"max_iter": call["maxit"]})))
            ev["warn"], ev["warnids"], ev["warnlist"] = warned_ids(ws)
            if not ev["err"]:
                ev["retsame"] = enc_walk(ret, E) == enc_walk(P.walk_data, E)
        elif op == "seed":
            np.random.seed(call["seed"])
            continue
        elif op == "clear":
            _, ev["err"], _ = guarded(lambda: P.clear_walk_data())
        elif op == "load":
            w = copy.deepcopy(objs[call["from"] - 1].walk_data)
            if w is not None and call.get("bare"):
                w = {k: w[k] for k in ("xinds", "yinds", "travel_times")}
            P.walk_data = w
        ev["env"] = sc["_env"][o]
        if op != "new":
            ev["all"] = [enc_walk(x.walk_data, E) if x is not None else {"none": True}
                         for x in objs]
        events.append(ev)
    return {"events": events, "twin": sc.get("twin", 0)}


def safely(fn, s, *a):
    """results that cannot even be recorded are reported, not fatal"""
    try:
        return fn(s, *a)
    except Exception as ex:      # noqa
        return {"crash": "%s: %s" % (type(ex).__name__, str(ex)[:200])}


def main_walk(sc):
    eps = []
    for s in sc["episodes"]:
        r = safely(run_episode, s, sc["envs"])
        if "crash" in r:
            r = {"events": [], "twin": 0, "crash": r["crash"]}
        eps.append(r)
    for r in eps:
        if r["twin"] and "crash" in eps[r["twin"] - 1]:
            r.update(events=[], twin=0)
    return {"episodes": eps}


def main():
    fam, src, dst = sys.argv[1:4]
    sc = json.load(open(src))
    if fam == "walk":
        rec = main_walk(sc)
    else:
        rec = importlib.import_module("fam_" + fam).run(sc)
    with open(dst, "w") as f:
        json.dump(rec, f)


if __name__ == "__main__":
    main()
