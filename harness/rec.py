"""Encoding of results shared by the record families (runs with dorado)."""
import copy
import math

import drive
from drive import NAN, guarded, i_val      # noqa

LIM = 1000000000


def num(v, scale=1.):
    """fixed point integer; NAN / BADI markers for what is not a number"""
    try:
        f = float(v)
    except Exception:
        return drive.BADI
    if math.isnan(f):
        return NAN
    f *= scale
    if abs(f) >= LIM:
        return LIM if f > 0 else -LIM
    return int(round(f))


def idx(v):
    i = drive.i_ind(v)
    return i if abs(i) < 10**8 else drive.BADI


def grid(a, scale=1.):
    import numpy as np
    a = np.asarray(a, dtype=float)
    if a.ndim != 2:
        a = a.reshape(1, -1) if a.ndim < 2 else a.reshape(a.shape[0], -1)
    return [[num(v, scale) for v in row] for row in a]


def walk(w, containers="list"):
    """dorado walk data from an encoded one (times in ms)"""
    d = {"xinds": [list(p) for p in w["x"]], "yinds": [list(p) for p in w["y"]],
         "travel_times": [[t / 1000. for t in p] for p in w["t"]]}
    for k, v in w["vars"].items():
        d[k] = [[None if a == drive.NONE else a / 8. for a in p] for p in v]
    return d


def run_all(sc, fn):
    out = []
    for s in sc["scen"]:
        out.append(drive.safely(fn, s))
    return {"recs": out}


def snapshot(*a):
    return copy.deepcopy(a)


def same(a, b):
    import numpy as np
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == np.shape(b) and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return type(a) is type(b) and (a == b or a != a)


class Listen:
    """what the package reports (INFO and above) while the block runs"""
    def __enter__(self):
        import logging
        self.said = []
        self.loud = 0          # how many were warnings or worse
        self.log = logging.getLogger("dorado")
        self.level = self.log.level
        self.ear = logging.Handler(logging.INFO)
        self.ear.emit = self.hear
        self.log.addHandler(self.ear)
        self.log.setLevel(logging.INFO)
        return self

    def hear(self, m):
        self.said.append(m.getMessage())
        self.loud += m.levelno >= 30

    def __exit__(self, *_):
        self.log.removeHandler(self.ear)
        self.log.setLevel(self.level)

    def lists(self):
        """numbers listed in brackets"""
        import re
        return [[int(v) for v in re.findall(r"-?\d+", g)]
                for m in self.said for g in re.findall(r"\[([-\d,\s]*)\]", m)]

    def numbers(self):
        """whole numbers in each message that has any"""
        import re
        return [n for n in ([int(v) for v in re.findall(r"-?\d+", m)] for m in self.said) if n]
