"""Looks at matplotlib figures instead of pixels (runs with dorado)."""
import os

import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt             # noqa
from matplotlib.collections import LineCollection, PathCollection      # noqa
from matplotlib.figure import Figure             # noqa

_real = Figure.savefig


def _num(v, scale=1.):
    v = float(v) * scale
    if v != v:
        return -99999
    return int(round(max(-1e9, min(1e9, v))))


def look(fig):
    """scatter sets, line collections and lines of a figure"""
    out = {"sets": [], "paths": [], "lines": []}
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                out["paths"].append([[[_num(a) for a in v] for v in np.asarray(s)]
                                     for s in c.get_segments()])
            elif isinstance(c, PathCollection):
                out["sets"].append([[_num(a) for a in v] for v in np.ma.getdata(c.get_offsets())])
        for ln in ax.lines:
            out["lines"].append({"x": [float(v) for v in np.asarray(ln.get_xdata(), dtype=float)],
                                 "y": [float(v) for v in np.asarray(ln.get_ydata(), dtype=float)],
                                 "style": str(ln.get_drawstyle())})
    return out


def corner(im, ax):
    """is row 0 on top, column 0 left, and what are the outer edges?"""
    l, r, b, t = im.get_extent()
    y0, y1 = (t, b) if im.origin == "upper" else (b, t)
    p = ax.transData.transform([(l, y0), (r, y1)])
    return bool(p[0][1] > p[1][1] and p[0][0] < p[1][0]), (l, r, y0, y1)


def images(fig, scale):
    """grids shown, and whether each cell is where its indices say, rows down"""
    out = []
    for ax in fig.axes:
        for im in ax.images:
            a = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
            if a.ndim == 2:
                up, ext = corner(im, ax)
                L, W = a.shape
                out.append({"data": [[_num(v, scale) for v in row] for row in a],
                            "up": up and bool(np.allclose(ext, (-.5, W - .5, -.5, L - .5)))})
    return out


def marks(fig):
    """values (ms) and colour of the scatter sets, in the order of look()"""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, PathCollection):
                a = c.get_array()
                out.append({"vals": [] if a is None else [_num(v, 1000.) for v in a],
                            "rgb": [_num(v, 1000.) for v in c.get_facecolor()[0][:3]]
                            if len(c.get_facecolor()) else []})
    return out


def tails(fig):
    """pairs of points joined by line collections, with the pair's colour"""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                col = np.asarray(c.get_colors(), dtype=float)
                for i, s in enumerate(c.get_segments()):
                    q = [_num(v, 1000.) for v in col[i % len(col)]]
                    s = [[_num(a) for a in v] for v in np.asarray(s)]
                    out += [{"a": u, "b": v, "rgba": q} for u, v in zip(s, s[1:])]
    return out


def colours(fig):
    """of the lines of the first line collection that has any"""
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, LineCollection):
                col = np.asarray(c.get_colors(), dtype=float)
                return [[_num(v, 1000.) for v in col[i % len(col)][:3]]
                        for i in range(len(c.get_segments()))]
    return []


def frames(fig):
    """limits and labels of the first axes"""
    ax = fig.axes[0]
    return {"x": [float(v) for v in ax.get_xlim()], "y": [float(v) for v in ax.get_ylim()],
            "xlabel": ax.get_xlabel()}


def legend(fig):
    for ax in fig.axes:
        g = ax.get_legend()
        if g is not None:
            return [{"text": t.get_text(),
                     "rgb": [_num(v, 1000.) for v in matplotlib.colors.to_rgb(h.get_color())]}
                    for t, h in zip(g.get_texts(), g.get_lines())]
    return []


class Watch:
    """records what every savefig call showed; draws pixels only if `real`"""

    def __init__(self, real=False, also=None):
        self.real, self.seen, self.also = real, [], also

    def __enter__(self):
        me = self
        plt.close("all")

        def save(fig, fname, *a, **k):
            d = look(fig)
            if me.also:
                d.update(me.also(fig))
            d["name"] = os.path.basename(str(fname))
            d["dir"] = os.path.dirname(str(fname))
            me.seen.append(d)
            if me.real:
                return _real(fig, fname, *a, **k)
            with open(fname, "wb") as f:
                f.write(b"x")
        Figure.savefig = save
        return self

    def __exit__(self, *a):
        Figure.savefig = _real

    def open_figs(self):
        out = []
        for n in plt.get_fignums():
            f = plt.figure(n)
            out.append(dict(look(f), **(self.also(f) if self.also else {})))
        return out
