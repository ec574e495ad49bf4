"""C24: plots show the distributions asked for, on the axes asked for

QpPlot.tla is the machine of a session with several axes; TLC explores it for small constants and refutes the
defective models.  Its behaviours are replayed with matplotlib (no display): after every step all of the
lines, bars and marks on all of the axes are compared with what the model says, where a curve is what a
distribution alone answers at the points between the limits of its axes.
"""
import os

import numpy as np

import reps
from common import snapshot, unchanged

CFG = """SPECIFICATION Spec
INVARIANT Shown
PROPERTIES Stays RefusedLeaves
CONSTANTS
N = %d
Lims = %d
MaxAxes = %d
Len0 = %d
Emit = %s
MUT = "%s"
"""


class Session:
    """The real axes, with what has to be on them"""

    def __init__(self, ctx, plt, fam, rows, meta):
        self.ctx = ctx
        self.qp = ctx.qp
        self.plt = plt
        self.fam = fam
        self.rng = ctx.rng
        self.rows = rows
        self.meta = meta
        self.ens = fam.build(rows, meta)
        self.alone = [fam.build([r], meta) for r in rows]
        self.data = [fam.data([r], meta) for r in rows]
        pts = fam.points()
        mid = 0.5 * (pts[0] + pts[-1]) + self.rng.uniform(-0.2, 0.2)
        self.lims = {1: (float(pts[0]), float(pts[-1])), 2: (mid, float(pts[-1]) + 0.4), 3: (-3, 3)}
        if fam.label == "spline":
            self.lims[3] = (1, 2)
        self.npts = [None, None, 3, 11][int(self.rng.integers(4))]
        self.axes = []
        self.want = []  # lines, bars and marks of each

    # ---- what has to be seen
    def curve(self, row, xvals):
        """A curve of the density of one of the distributions"""
        xvals = np.asarray(xvals, float)
        return xvals, np.asarray(self.alone[row].pdf(xvals)).reshape(xvals.size)

    def expect(self, kind, row, xvals):
        """Lines, bars and marks for one distribution"""
        name = self.fam.name
        none = np.zeros((0, 2))
        if kind == "native" and name == "hist":
            edges = self.data[row]["bins"]
            high = np.asarray(self.alone[row].pdf(0.5 * (edges[1:] + edges[:-1])))[0]
            return [], np.stack([edges[:-1], edges[1:], high], axis=1), np.stack([edges, 0 * edges], axis=1)
        if kind == "native" and name == "quant":
            locs = np.sort(self.data[row]["locs"][0])
            return [self.curve(row, xvals)], np.zeros((0, 3)), np.stack([locs, 0 * locs], axis=1)
        if kind == "native" and name == "spline":
            return [self.curve(row, np.squeeze(self.data[row]["splx"]))], np.zeros((0, 3)), none
        if kind == "native" and "xvals" in self.data[row]:
            return [self.curve(row, np.squeeze(self.data[row]["xvals"]))], np.zeros((0, 3)), none
        return [self.curve(row, xvals)], np.zeros((0, 3)), none

    # ---- what is seen
    @staticmethod
    def seen(axes):
        """Lines, bars and marks on the axes"""
        lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in axes.lines]
        bars = [[p.get_x(), p.get_x() + p.get_width(), p.get_height()] for p in axes.patches]
        marks = [np.asarray(c.get_offsets(), float).reshape(-1, 2) for c in axes.collections]
        return lines, np.array(bars, float).reshape(-1, 3), np.concatenate(marks) if marks else np.zeros((0, 2))

    def compare(self, model, info):
        """All of the axes against the model"""
        ctx = self.ctx
        ctx.check(len(self.axes) == len(model), "number of axes", **info)
        for num, (axes, want) in enumerate(zip(self.axes, self.want)):
            lines, bars, marks = self.seen(axes)
            det = dict(axes=num + 1, **info)
            if ctx.check(len(lines) == len(want["lines"]), "number of the curves on the axes", got=len(lines), want=len(want["lines"]), **det):
                for got, exp in zip(lines, want["lines"]):
                    ctx.close(got[0], exp[0], "points of a curve", **det)
                    ctx.close(got[1], exp[1], "a curve is the density of the distribution asked for", **det)
            ctx.close(order(bars), order(want["bars"]), "bars of the histograms", **det)
            ctx.close(np.unique(marks.round(9), axis=0), np.unique(want["marks"].round(9), axis=0), "marks on the axes", **det)
            ctx.close(np.array(axes.get_xlim()), np.array(want["lim"], float), "limits of the axes", **det)

    # ---- the steps
    def limits(self, lim):
        """Limits in one of several forms"""
        lim = self.lims[lim]
        return [tuple(lim), list(lim), np.array(lim)][self.rng.integers(3)]

    def key(self, key):
        """A key for consecutive rows, and its meaning"""
        if len(key) == 1 and self.rng.random() < 0.7:
            return [key[0] - 1, np.int64(key[0] - 1), key[0] - 1 - len(self.rows)][self.rng.integers(3)]
        return slice(key[0] - 1, key[-1])

    def draw(self, kind, key, kwds):
        """One of the ways to ask for a plot"""
        key = self.key(key)
        way = self.rng.integers(4)
        from qp import plotting

        if way == 0:
            if isinstance(key, (int, np.integer)) and key == 0 and self.rng.random() < 0.5:
                return getattr(self.ens, "plot" if kind == "plot" else "plot_native")(**kwds)
            return getattr(self.ens, "plot" if kind == "plot" else "plot_native")(key, **kwds)
        if way == 1:
            sub = self.ens[key]
            return getattr(sub.gen_class, "plot" if kind == "plot" else "plot_native")(sub, **kwds)
        # the function takes the default key of an ensemble, which is the first distribution
        sub = self.ens[key] if way == 2 and self.ens[key].npdf == 1 else self.ens[key].frozen
        fig, axes = (plotting.plot if kind == "plot" else plotting.plot_native)(sub, **kwds)
        self.ctx.check(fig is axes.figure, "the figure is the one of the axes", family=self.fam.label)
        return axes

    def step(self, ev, info):
        """A step of the model"""
        ctx, rng = self.ctx, self.rng
        if ev["op"] == "own":
            fig = self.plt.figure()
            axes = fig.add_subplot(1, 2, 1) if rng.random() < 0.5 else fig.add_subplot()
            axes.set_xlim(*self.lims[ev["lim"]])
            self.add(axes, ev["lim"])
        elif ev["op"] == "relim":
            self.axes[ev["a"] - 1].set_xlim(*self.lims[ev["lim"]])
            self.want[ev["a"] - 1]["lim"] = self.lims[ev["lim"]]
        elif ev["op"] == "take":
            self.plt.sca(self.axes[ev["a"] - 1])
        elif ev["op"] == "refuse":
            kwds = dict(axes=self.axes[ev["a"] - 1], xlim=self.limits(1)) if ev["a"] else {}
            num = len(self.plt.get_fignums())
            ctx.refused(lambda: self.draw(ev["kind"], ev["key"], kwds), "limits and axes, or neither", **info)
            ctx.check(len(self.plt.get_fignums()) == num, "a refused plot makes no figure", **info)
        else:
            self.plot(ev, info)

    def add(self, axes, lim):
        """New axes"""
        self.axes.append(axes)
        self.want.append(dict(lines=[], bars=np.zeros((0, 3)), marks=np.zeros((0, 2)), lim=self.lims[lim]))

    def plot(self, ev, info):
        """A plot on new or given axes"""
        from qp import plotting

        ctx, rng = self.ctx, self.rng
        kind, lim = ev["kind"], self.lims[ev["lim"]]
        kwds, num = {}, 101
        lined = not (kind == "native" and self.fam.name in ("hist", "interp", "interp_irregular", "spline", "packed_interp", "sparse"))
        if kind != "samples" and lined:
            # most often the same number as before
            given = self.npts if rng.random() < 0.8 else int(rng.choice([2, 3, 4, 11, 40]))
            if given:
                kwds["npts"] = num = given
        xvals = np.linspace(lim[0], lim[1], num)
        label = None
        if kind == "plot" and rng.random() < 0.5:
            label = "curve %d" % rng.integers(100)
            kwds.update(label=label, color="r")
        if ev["op"] == "new":
            texts = {}
            if rng.random() < 0.5:
                texts = dict(xlabel="x %d" % rng.integers(9), ylabel="y")
            axes = self.draw(kind, ev["key"], dict(xlim=self.limits(ev["lim"]), **kwds, **texts))
            ctx.check(all(axes is not other for other in self.axes), "new axes", **info)
            if texts:
                got = [axes.get_xlabel(), axes.get_ylabel()]
                ctx.check(got == [texts["xlabel"], texts["ylabel"]], "labels of the axes", got=got, **info)
            self.add(axes, ev["lim"])
        else:
            given = self.axes[ev["a"] - 1]
            if kind == "samples":
                row = ev["key"][0] - 1
                marks = rng.uniform(lim[0], lim[1], int(rng.integers(1, 6)))
                sub = self.ens[row] if rng.random() < 0.5 else self.ens[row].frozen
                more = {}
                if rng.random() < 0.5:
                    more = dict(npoints=int(rng.choice([2, 5, 50, 101, 300])))
                    xvals = np.linspace(lim[0], lim[1], more["npoints"])
                axes = plotting.plot_pdf_samples_on_axes(given, sub, marks, **more)
                self.want[ev["a"] - 1]["marks"] = np.concatenate([self.want[ev["a"] - 1]["marks"], np.stack([marks, 0 * marks], axis=1)])
            elif kind == "plot" and rng.random() < 0.3:
                xvals = np.sort(rng.uniform(lim[0], lim[1], int(rng.integers(2, 9))))
                kwds.pop("npts", None)
                axes = plotting.plot_pdf_on_axes(given, self.ens[self.key(ev["key"])], xvals, **kwds)
            else:
                axes = self.draw(kind, ev["key"], dict(axes=given, **kwds))
            ctx.check(axes is given, "the axes that were given come back", **info)
        want = self.want[ev["a"] - 1]
        for row in ev["key"]:
            lines, bars, marks = self.expect(kind, row - 1, xvals)
            want["lines"] = want["lines"] + lines
            want["bars"] = np.concatenate([want["bars"], bars])
            want["marks"] = np.concatenate([want["marks"], marks])
        if label is not None and self.axes[ev["a"] - 1].lines:
            got = self.axes[ev["a"] - 1].lines[-1].get_label()
            ctx.check(got == label, "label of the curve", got=got, want=label, **info)


def order(bars):
    """Bars in an order of their own"""
    bars = np.asarray(bars, float).reshape(-1, 3)
    return bars[np.lexsort(bars.round(9).T[::-1])]


def replay(ctx, plt, beh, fam):
    """One behaviour with one representation"""
    rows = [int(r) for r in ctx.rng.integers(0, 5000, 4)]
    info = dict(family=fam.label, rows=rows)
    ctx.traces += 1
    with ctx.case("plotting", ops=beh["ops"], **info):
        ses = Session(ctx, plt, fam, rows, 1 + int(ctx.rng.integers(0, 2 if fam.two else 1)))
        before = snapshot(ses.ens.objdata())
        grown = []
        for num, ev in enumerate(beh["ops"]):
            det = dict(step=num, event=ev, **info)
            ses.step(ev, det)
            if ev["op"] in ("new", "own"):
                grown.append(ev["a"])
            ses.compare(grown, det)
        ctx.check(len(grown) == len(beh["axes"]), "axes at the end", **info)
        for axes, want in zip(ses.want, beh["axes"]):
            ctx.check(tuple(axes["lim"]) == tuple(ses.lims[want["lim"]]), "limits at the end", **info)
        # new limits, and again a curve of the kind that is there
        for num, want in enumerate(ses.want):
            lim = 1 + int(ctx.rng.integers(3))
            for ev in (dict(op="relim", a=num + 1, lim=lim), dict(op="onto", kind="plot", key=[1 + int(ctx.rng.integers(4))], a=num + 1, lim=lim)):
                ses.step(ev, dict(event=ev, **info))
            ses.compare(grown, dict(event="final", **info))
        ctx.check(unchanged(ses.ens.objdata(), before), "plotting leaves the ensemble as it was", **info)
    plt.close("all")


def run_c24(ctx):
    """Plots"""
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.rcParams["figure.max_open_warning"] = 0
    ctx.tlc("QpPlot", CFG % (2, 2, 2, ctx.n(3, 4), "FALSE", "none"))
    for mut in ("firstrow", "current", "newestlimits"):
        ctx.tlc("QpPlot", CFG % (2, 2, 2, 3, "FALSE", mut), refute=True)
    fams = reps.families(ctx.qp)
    seen = {}
    for beh in ctx.tlc("QpPlot", CFG % (4, 3, 3, 12, "TRUE", "none"), sim=ctx.n(8, 60) * len(fams), depth=13):
        seen[str(beh["ops"][:-1])] = beh  # the last step is printed for several successors
    behs = list(seen.values())
    ctx.sample(behs[0])
    for num, beh in enumerate(behs):
        replay(ctx, plt, beh, fams[num % len(fams)])
    ctx.assumptions.append("matplotlib without a display; the lines, bars and marks that axes hold are what is drawn")
