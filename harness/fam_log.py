"""C24 logging (spec/Logging)."""
import copy
import itertools

NAME, MODULE, SHARDS, DRIVERS = "log", "LogTrace", 6, 4
CLAUSES = {"C24": ("log.",)}


def models(ck, prop):
    ck.model("Logging", env={"CALLS": "2" if ck.quick else "3", "OUT": ck.dir + "/mclog.json"},
             workers=4)


def scenarios(ck, prop, rng):
    pool = ck.generate("Logging", {"CALLS": "2"})      # every pair of calls
    rng.shuffle(pool)
    out = [{"calls": p} for p in (pool[:1400] if ck.quick else pool)]
    for n in (5, 8):
        out += [{"calls": p} for p in ck.generate(
            "Logging", {"CALLS": str(n)},
            ["-simulate", "num=%d" % (150 if ck.quick else 3000), "-depth", str(n + 2),
             "-seed", str(7 + ck.seed), "-config", "LogGen.cfg"])]
    for s in out:               # the application logs elsewhere too
        s["root"] = rng.random() < .4
    return out


def corrupt(prop, recs, rng):
    out = []
    for r in rng.sample(recs, 4):
        c = copy.deepcopy(r)
        c["calls"][-1]["after"]["level"] = 15
        out.append(c)
    return out


def run(sc):
    import logging
    import numpy as np
    import dorado
    import dorado.particle_track as pt
    import dorado.routines as rt
    from dorado.logging_config import handle_verbose_deprecation
    import rec

    lg = logging.getLogger("dorado")

    class Store(logging.Handler):
        def __init__(self, name):
            logging.Handler.__init__(self)
            self.label, self.n = name, 0

        def emit(self, record):
            self.n += 1
    walk = {"xinds": [[1, 1]], "yinds": [[1, 2]], "travel_times": [[0, 5.]]}
    roi = np.ones((4, 4), dtype=int)

    def use(fn, v):
        kw = {} if v == "omitted" else {"verbose": {"True": True, "False": False, "None": None}[v]}
        if fn == "direct":
            return handle_verbose_deprecation(kw.get("verbose"))
        if fn == "params":
            p = pt.modelParams()
            p.dx = 1.
            p.depth = np.ones((4, 4))
            p.stage = np.ones((4, 4))
            p.u = np.ones((4, 4))
            p.v = np.ones((4, 4))
            if kw:
                p.verbose = kw["verbose"]
            return pt.Particles(p)
        if fn == "get_state":
            return rt.get_state(walk, 9, **kw)
        if fn == "get_time_state":
            return rt.get_time_state(walk, 99., **kw)
        return pt.exposure_time(walk, roi, **kw)

    def one(s):
        outer = Store("outer")
        if s["root"]:
            logging.getLogger().addHandler(outer)
        try:
            return sequence(s)
        finally:
            logging.getLogger().removeHandler(outer)

    def sequence(s):
        for h in list(lg.handlers):
            lg.removeHandler(h)
        lg.setLevel(logging.NOTSET)
        store = {"A": Store("A"), "B": Store("B")}
        calls = []
        for c in s["calls"]:
            x = dict(c)
            n0 = sum(h.n for h in store.values())
            if c["op"] == "setup":
                kw = {}
                if c["level"] != "<default>":
                    kw["level"] = c["level"]
                if c["handler"] != "none":
                    kw["handler"] = store[c["handler"]]
                _, x["err"], ws = rec.guarded(lambda: dorado.setup_logging(**kw))
            else:
                _, x["err"], ws = rec.guarded(lambda: use(c["fn"], c["v"]))
            x["deprecations"] = sum(issubclass(w.category, DeprecationWarning)
                                    and "verbose" in str(w.message) for w in ws)
            x["speaks"] = c["op"] == "switch" and c["fn"] != "direct"
            x["emitted"] = sum(h.n for h in store.values()) - n0
            x["after"] = {"level": int(lg.level), "handlers": [
                getattr(h, "label", "stream" if isinstance(h, logging.StreamHandler) else "?")
                for h in lg.handlers]}
            for h in lg.handlers:      # keep stderr quiet
                if type(h) is logging.StreamHandler:
                    h.stream = open("/dev/null", "w")
            calls.append(x)
        return {"calls": calls}
    return rec.run_all(sc, one)
