"""Replays the behaviours of QpEnsemble.tla into qp.

A behaviour is a list of steps, each with the state of all of the ensembles after it.  After each step every
live ensemble of the code is compared with that state, where what a distribution is comes from references
made of it alone.
"""
import copy
import os

import numpy as np

import reps
from common import snapshot, unchanged

GRIDS = [(0.05, 4.85, 0.1199), (0.05, 4.85, 0.2399), (0.4, 2.8, 0.0599)]  # two share their limits, two their size
BENT = 4  # a grid that shares the limits and the size of the first one, and is not uniform
NEAR = 5  # the first grid stretched by very little


def make_key(key, flip):
    """The key of an indexing"""
    if key["k"] == "int":
        return np.int64(key["i"]) if flip else key["i"]
    if key["k"] == "slice":
        none = lambda v: None if v == 99 else v  # noqa: E731
        return slice(none(key["a"]), none(key["b"]), key["s"])
    if key["k"] == "mask":
        return np.array(key["m"], bool)
    return np.array(key["x"], int)


def key_text(key):
    """The key for a report"""
    return repr(make_key(key, False))


def ancil_dict(cols, start=0, bad=False, style=0, turn=False):
    """Ancillary data of columns of numbers: integers and pairs of floats; large integers, or more dimensions;
    integers among floats and words of any length.  Bad is the length of a column that is wrong"""
    if not cols:
        return None
    out = {}
    for i, col in enumerate(cols):
        val = np.array(col)
        if bad is not False and i == len(cols) - 1:
            val = np.resize(val, len(col) + 1 if bad is True else bad)
        if style == 3:
            if i % 2 == 0:
                new = val if np.all(val % 2 == 0) else val + 0.25 * (val % 2)
            else:
                new = np.array([b"word"[: 1 + v % 4] + b"%d" % v for v in val.tolist()], dtype=None if val.size else "S1")
        elif i % 2 == 0:
            new = (val, 2**53 + 1 + val, val * 1.0 + 0.25)[style]
        elif style == 1:
            new = np.stack([2**62 + val, 3 - 2**60 - val, val], axis=1)
        else:
            new = np.stack([val * 1.0, val * 2.0 + 0.5], axis=1)
            if style == 2:
                new = np.stack([new, -new], axis=2)
        out["c%d" % (i + 1 + start)] = new
    return reordered(out, turn)


def reordered(data, turn):
    """The same dictionary, perhaps in another order"""
    return {k: data[k] for k in list(data)[::-1]} if turn else data


def grid_of(num):
    """Limits, spacing and points of a grid"""
    if num == BENT:
        limits, step, grid = grid_of(1)
        wide = limits[1] - limits[0]
        part = (grid - limits[0]) / wide
        grid = grid + 0.35 * wide * part * (1 - part)
        return limits, step, grid
    if num == NEAR:
        limits, step, grid = grid_of(1)
        more = 1 + 4e-6
        return (limits[0] * more, limits[1] * more), step, grid * more
    low, high, step = GRIDS[num - 1]
    return (low, high), step, np.linspace(low, high, int((high - low) / step))


class Kinds:
    """What the two variants of metadata stand for"""

    def __init__(self, one, two):
        self.pair = {1: one, 2: two}

    def fam(self, meta):
        return self.pair[meta][0]

    def var(self, meta):
        return self.pair[meta][1]

    def name(self, meta):
        return "%s/%d" % (self.fam(meta).label, self.var(meta))

    def ref(self, row, meta):
        return self.fam(meta).ref(row, self.var(meta))


class Replay:
    """One behaviour with one choice of representations"""

    def __init__(self, ctx, kinds, label, files=None, flip=False, deep=True, style=0):
        self.ctx = ctx
        self.qp = ctx.qp
        self.kinds = kinds
        self.label = label
        self.files = files
        self.flip = flip
        self.deep = deep
        self.style = style
        self.turn = False
        self.wrongs = style
        self.ens = {}
        self.held = []  # what the caller gave, with what it was
        self.history = []
        self.buffers = {}
        self.ok = True

    # ---- comparing
    def info(self, **more):
        return dict(kinds=[self.kinds.name(1), self.kinds.name(2)], history=self.history[-14:], **more)

    def fail(self, clause, **more):
        self.ok = False
        self.ctx.fail("%s (%s)" % (clause, self.label), **self.info(**more))

    def compare(self, ens, state, clause, functions=("pdf",), tol=1e-9, cls=True, anc=True, **more):
        """An ensemble of the code has to be what the state says"""
        self.ctx.comparisons += 1
        meta, rows = state["meta"], state["rows"]
        refs = [self.kinds.ref(r, meta) for r in rows]
        fam = self.kinds.fam(meta)
        bad = None
        if int(ens.npdf) != len(rows):
            bad = "number of distributions is %s, not %d" % (ens.npdf, len(rows))
        elif cls and ens.gen_class is not refs[0]["cls"]:
            bad = "class is %r" % ens.gen_class
        elif not reps.same_meta(reps.plain_meta(ens.metadata()), refs[0]["meta"], tol):
            bad = "metadata differ"
        else:
            obj = ens.objdata()
            if set(obj) != set(refs[0]["objdata"]):
                bad = "names of the parameters are %s" % sorted(obj)
            else:
                for key, val in obj.items():
                    val = np.asarray(val)
                    want = np.concatenate([r["objdata"][key] for r in refs], axis=0)
                    if val.shape != want.shape:
                        bad = "shape of parameter %s is %s, not %s" % (key, val.shape, want.shape)
                    elif not np.allclose(val.astype(float), want.astype(float), rtol=tol, atol=1e-300 + tol * 1e-3, equal_nan=True):
                        where = np.argwhere(np.any(~np.isclose(val.astype(float), want.astype(float), rtol=tol, atol=1e-300 + tol * 1e-3), axis=-1))
                        bad = "parameter %s differs in distribution %s" % (key, where.ravel()[:4].tolist())
        if bad is None and anc:
            bad = self.anc_differs(ens.ancil, state["anc"])
        if bad is None:
            for name in functions:
                pts = reps.QS if name == "ppf" else fam.points()
                got = np.asarray(getattr(ens, name)(pts))
                want = np.stack([r[name] for r in refs])
                if got.shape != want.shape:
                    bad = "shape of %s is %s, not %s" % (name, got.shape, want.shape)
                else:
                    good = np.isclose(got, want, rtol=max(tol, 1e-7), atol=max(tol, 1e-9), equal_nan=True)
                    if not np.all(good):
                        at = np.argwhere(~good)[0].tolist()
                        bad = "%s differs at %s: %r, not %r" % (name, at, got[tuple(at)], want[tuple(at)])
                if bad:
                    break
        if bad:
            self.fail("%s: %s" % (clause, bad), state=dict(state, kind=self.kinds.name(meta)), **more)
        return bad is None

    def anc_differs(self, ancil, cols, tol=0):
        """What is wrong with the ancillary data"""
        want = ancil_dict(cols, style=self.style)
        if want is None:
            return None if ancil is None else "there is ancillary data: %s" % list(ancil)
        if ancil is None:
            return "the ancillary data is lost"
        if set(ancil) != set(want):
            return "ancillary columns are %s" % sorted(ancil)
        for key, val in want.items():
            got = np.asarray(ancil[key])
            if got.shape != val.shape:
                return "shape of ancillary %s is %s, not %s" % (key, got.shape, val.shape)
            if not np.array_equal(got, val):
                return "ancillary %s is %s, not %s" % (key, got.ravel()[:6].tolist(), val.ravel()[:6].tolist())
        return None

    def given(self, data):
        """What a caller gives, in one order or the other"""
        self.turn = not self.turn
        return self.hold(reordered(data, self.turn) if data is not None else None)

    def columns(self, cols, bad=False):
        """Ancillary data that a caller gives"""
        if bad and cols:
            num = len(cols[-1])
            wrong = [n for n in (1, num + 1, 2 * num, 0, num - 1) if n != num]
            self.wrongs += 1
            bad = wrong[self.wrongs % len(wrong)]
        return self.given(ancil_dict(cols, bad=bad, style=self.style))

    def hold(self, val):
        """Keep what the caller gave, to see that it stays as it is"""
        self.held.append((val, snapshot(val)))
        return val

    def ref_grid(self, row, meta, num):
        """Values of a single row on a grid"""
        fam = self.kinds.fam(meta)
        key = (fam.label, self.kinds.var(meta), row, num)
        cache = fam.__dict__.setdefault("gridrefs", {})
        if key not in cache:
            cache[key] = np.asarray(fam.build([row], self.kinds.var(meta)).pdf(grid_of(num)[2]))[0]
        return cache[key]

    # ---- running
    def run(self, log):
        """Replay all of the steps; stops at the first thing that is wrong"""
        for step in log:
            what = step["what"]
            self.history.append(brief(what))
            before = len(self.ctx.violations)
            with self.ctx.case("%s works (%s)" % (what["op"], self.label), **self.info()):
                getattr(self, "do_" + what["op"])(what, step)
                self.look(step)
            if not self.ok or len(self.ctx.violations) > before:
                return False
        return True

    def look(self, step):
        """Compare all of the ensembles with the state after the step"""
        for i, state in enumerate(step["post"]):
            hand = i + 1
            if not state["live"]:
                self.ens.pop(hand, None)
                continue
            if hand == step["tgt"]:
                funcs = ["pdf", "cdf"]
                if self.deep and self.kinds.fam(state["meta"]).label != "spline":
                    funcs.append("ppf")
                self.compare(self.ens[hand], state, "result of " + step["what"]["op"], funcs)
            else:
                self.compare(self.ens[hand], state, "other ensemble after " + step["what"]["op"])
            if not self.ok:
                return
        for val, then in self.held:
            if not unchanged(val, then):
                self.fail("data of the caller is changed by " + step["what"]["op"])
                return

    def refuse(self, func, clause):
        """The call has to be refused"""
        before = len(self.ctx.violations)
        self.ctx.refused(func, "%s (%s)" % (clause, self.label), **self.info())
        if len(self.ctx.violations) > before:
            self.ok = False

    # ---- the operations
    def do_create(self, what, step):
        fam, var = self.kinds.fam(what["meta"]), self.kinds.var(what["meta"])
        ancil = self.columns(what["anc"])
        data = self.given(fam.data(what["rows"], var, what["alt"]))
        self.ens[what["h"]] = self.qp.Ensemble(fam.ctor(what["alt"]), data=data, ancil=ancil)

    def do_select(self, what, step):
        self.ens[what["g"]] = self.ens[what["h"]][make_key(what["key"], self.flip)]

    def do_concat(self, what, step):
        parts = [self.ens[h] for h in what["hs"]]
        if step["ok"]:
            self.ens[what["g"]] = self.qp.concatenate(parts)
        else:
            self.refuse(lambda: self.qp.concatenate(parts), "concatenating what does not match is refused")

    def do_append(self, what, step):
        one, two = self.ens[what["h"]], self.ens[what["g"]]
        if step["ok"]:
            one.append(two)
        else:
            self.refuse(lambda: one.append(two), "appending what does not match is refused")

    def do_update(self, what, step):
        ens = self.ens[what["h"]]
        state = step["post"][what["h"] - 1]
        fam, var = self.kinds.fam(what["meta"]), self.kinds.var(what["meta"])
        alt = state["alt"]
        bad = what["bad"]
        ancil = self.columns(what["anc"], bad=bad == "anc")
        if what["full"]:
            data = fam.bad_data(what["rows"], var, alt) if bad == "shape" else fam.data(what["rows"], var, alt)
            data = self.given(data)
            call = lambda: ens.update(data, ancil)  # noqa: E731
        else:
            data = fam.objdata(what["rows"], var)
            if bad == "shape":
                wrong = fam.bad_data(what["rows"], var)
                data = {k: wrong[k] for k in data}
            data = self.given(data)
            call = lambda: ens.update_objdata(data, ancil)  # noqa: E731
        if step["ok"]:
            call()
        else:
            self.refuse(call, "an update with wrong data is refused")

    def do_ancil(self, what, step):
        ens = self.ens[what["h"]]
        new = self.columns(what["anc"], bad=what["bad"])
        call = (lambda: ens.add_to_ancil(new)) if what["add"] else (lambda: ens.set_ancil(new))
        if step["ok"]:
            call()
        else:
            self.refuse(call, "ancillary data of another length is refused")

    def do_switch(self, what, step):
        """Other metadata for the same data: in place where the representation allows it"""
        state = step["post"][what["h"] - 1]
        was, now = self.kinds.fam(3 - state["meta"]), self.kinds.fam(state["meta"])
        ens = self.ens[what["h"]]
        if was.switchable(now) and self.kinds.var(1) == self.kinds.var(2):
            now.switch(ens)
            return
        ancil = self.columns(state["anc"])
        if was is now:
            ens.update(self.given(now.data(state["rows"], self.kinds.var(state["meta"]), state["alt"])), ancil)
        else:
            data = self.given(now.data(state["rows"], self.kinds.var(state["meta"]), state["alt"]))
            self.ens[what["h"]] = self.qp.Ensemble(now.ctor(state["alt"]), data=data, ancil=ancil)

    def do_grid(self, what, step):
        ens = self.ens[what["h"]]
        given = what["given"]
        num = 1 if given["grid"] == BENT and what["how"] in ("moment", "partial") else given["grid"]
        limits, dx, grid = grid_of(num)
        want = np.stack([self.ref_grid(r, given["meta"], num) for r in given["rows"]])
        info = self.info(grid=num)
        # the caller uses the same array for all of the grids of a size
        mine = self.buffers.setdefault(grid.size, grid.copy())
        mine[:] = grid
        if what["how"] == "gridded":
            got = ens.gridded(mine)
            self.ctx.close(got[1], want, "values on a grid (%s)" % self.label, 1e-7, 1e-9, **info)
            self.ctx.close(got[0], grid, "points of a grid (%s)" % self.label, rtol=1e-15, atol=0.0, **info)
            # to the last digits: two grids may differ by very little
            self.ctx.close(got[1], ens.pdf(mine), "values on a grid, as asked for there (%s)" % self.label, rtol=1e-12, atol=1e-300, **info)
        elif what["how"] == "mode":
            got = np.asarray(ens.mode(mine))
            pick = grid[np.argmax(want, axis=1)][:, None]
            close = np.sort(want, axis=1)
            clear = close[:, -1] > close[:, -2] * (1 + 1e-6)
            self.ctx.close(got.shape, pick.shape, "mode: shape (%s)" % self.label, **info)
            if got.shape == pick.shape:
                self.ctx.close(got[clear], pick[clear], "mode (%s)" % self.label, **info)
        elif what["how"] == "moment":
            got = self.qp.metrics.calculate_moment(ens, 1, limits, dx)
            space = (limits[1] - limits[0]) / (grid.size - 1)
            self.ctx.close(got, np.sum(want * grid, axis=1) * space, "moment (%s)" % self.label, 1e-6, 1e-8, **info)
        else:
            got = ens.moment_partial(2, limits, dx)
            space = (limits[1] - limits[0]) / (grid.size - 1)
            self.ctx.close(got, np.sum(want * grid**2, axis=1) * space, "partial moment (%s)" % self.label, 1e-6, 1e-8, **info)

    def do_rebuild(self, what, step):
        """From what an ensemble says about itself; what it says is the caller's"""
        ens = self.ens[what["h"]]
        qp = self.qp
        if what["how"] == "tables":
            tabs = ens.build_tables()
            new = qp.from_tables(tabs)
            tabs["meta"].clear()
            tabs["data"].clear()
        elif what["how"] == "copy":
            new = copy.deepcopy(ens)
        else:
            meta, obj = ens.metadata(), ens.objdata()
            name, version = meta.pop("pdf_name"), meta.pop("pdf_version")
            data = {k: np.squeeze(v) for k, v in meta.items()}
            self.ctx.check(not set(data) & set(obj), "metadata and parameters have names of their own (%s)" % self.label, **self.info())
            data.update(obj)
            name = np.ravel(name)[0]
            name = name.decode() if isinstance(name, bytes) else str(name)
            self.ctx.check(name == ens.gen_class.name, "the metadata name the class (%s)" % self.label, got=name, want=ens.gen_class.name, **self.info())
            self.ctx.check(np.ravel(version)[0] == ens.gen_class.version, "the metadata have the version (%s)" % self.label, **self.info())
            if what["how"] == "create":
                new = qp.create(name, data)
            else:
                new = qp.Ensemble(ens.gen_class.create, data=data, ancil=ens.ancil)
            obj.clear()
            data.clear()
        self.ens[what["g"]] = new

    def finale(self, log):
        """In the end, every ensemble is made again in all of the ways"""
        for i, state in enumerate(log[-1]["post"] if log else []):
            for how in ("tables", "class", "copy", "create"):
                if not state["live"] or not self.ok:
                    continue
                with self.ctx.case("making again (%s)" % self.label, how=how, **self.info()):
                    self.do_rebuild(dict(h=i + 1, g=0, how=how), None)
                    want = dict(state, anc=state["anc"] if how != "create" else [])
                    self.compare(self.ens.pop(0), want, "made again from " + how)
                    self.compare(self.ens[i + 1], state, "ensemble that was made again")

    def do_drop(self, what, step):
        self.ens.pop(what["h"], None)

    def do_query(self, what, step):
        ens, oth = self.ens[what["h"]], self.ens[what["g"]]
        state = step["post"][what["h"] - 1]
        how = what["how"]
        fam = self.kinds.fam(state["meta"])
        pts = fam.points()
        if how in ("pdf", "cdf", "ppf"):
            if not (how == "ppf" and fam.label == "spline"):
                self.compare(ens, state, "query " + how, (how,))
            column = pts[np.arange(ens.npdf) % pts.size][:, None]
            want = np.stack([self.kinds.ref(r, state["meta"])["pdf"] for r in state["rows"]])
            want = want[np.arange(ens.npdf), np.arange(ens.npdf) % pts.size][:, None]
            self.ctx.close(ens.pdf(column), want, "one value for each distribution (%s)" % self.label, 1e-7, 1e-9, **self.info())
        elif how == "rvs":
            if fam.label != "spline":
                got = ens.rvs(size=3, random_state=5)
                self.ctx.check(np.shape(got) == (ens.npdf, 3), "shape of the samples (%s)" % self.label, **self.info())
        elif how == "stats":
            for name in ("median", "mean") if fam.label != "spline" else ("mean",):
                got = np.asarray(getattr(ens, name)())
                one = np.concatenate([np.ravel(getattr(self.alone(r, state["meta"]), name)()) for r in state["rows"]])
                self.ctx.close(got.ravel(), one, "%s of each (%s)" % (name, self.label), 1e-5, 1e-6, **self.info())
        elif how == "iterate":
            got = [x for x in ens]
            self.ctx.check(len(got) == len(state["rows"]), "number of items of an iteration (%s)" % self.label, **self.info())
            for i, item in enumerate(got[: len(state["rows"])]):
                one = dict(state, rows=[state["rows"][i]], anc=[[c[i]] for c in state["anc"]])
                self.compare(item, one, "item %d of an iteration" % i)
        elif how == "tables":
            tabs = self.hold(ens.build_tables())
            self.compare(self.qp.from_tables(tabs), state, "from its own tables")
            self.compare(self.qp.from_tables(tabs), state, "from its own tables again")
        elif how == "convert":
            xvals = np.linspace(0.3, 3.0, 12)
            got = ens.convert_to(self.qp.interp_gen, xvals=xvals)
            want = self.qp.Ensemble(self.qp.interp, data=dict(xvals=xvals, yvals=np.stack([self.alone(r, state["meta"]).pdf(xvals)[0] for r in state["rows"]])))
            self.ctx.close(got.pdf(pts), want.pdf(pts), "conversion (%s)" % self.label, 1e-6, 1e-8, **self.info())
        elif how == "metric":
            if ens.npdf == oth.npdf:
                self.qp.metrics.calculate_rmse(ens, oth, (0.1, 3.1), 0.1)
                self.qp.metrics.calculate_kld(ens, oth, (0.3, 2.9), 0.1)
            self.qp.metrics.calculate_moment(oth, 2, (0.1, 3.1), 0.1)
            self.qp.metrics.calculate_brier(ens, np.full(ens.npdf, 1.0), (0.1, 3.1), 0.1)
        elif how == "repr":
            repr(ens)
            ens.kwds, ens.dist, ens.gen_func, ens.frozen, ens.ndim, ens.shape  # pylint: disable=pointless-statement
        elif how == "hist":
            bins = np.array([0.4, 0.9, 1.7, 2.8])
            got = ens.histogramize(bins)[1]
            cdf = np.stack([self.alone(r, state["meta"]).cdf(bins)[0] for r in state["rows"]])
            self.ctx.close(got, np.diff(cdf, axis=1), "probabilities of bins (%s)" % self.label, 1e-6, 1e-8, **self.info())
        elif how == "chunk":
            name = os.path.join(self.ctx.scratch, "query.hdf5")
            group, fout = ens.initializeHdf5Write(name, ens.npdf)
            ens.writeHdf5Chunk(group, 0, ens.npdf)
            ens.finalizeHdf5Write(fout)
            self.compare(self.qp.read(name), state, "written in one chunk")

    def alone(self, row, meta):
        """A single distribution"""
        fam, var = self.kinds.fam(meta), self.kinds.var(meta)
        cache = fam.__dict__.setdefault("singles", {})
        if (row, var) not in cache:
            cache[(row, var)] = fam.build([row], var)
        return cache[(row, var)]


def brief(what):
    """A step in a report"""
    out = {k: v for k, v in what.items() if k not in ("given", "items")}
    if "key" in out:
        out["key"] = key_text(out["key"])
    return out


CONFIG = """SPECIFICATION Spec
%s
CONSTANTS
H = %d
NF = %d
ND = %d
MaxLen = %d
NRow = %d
NGrid = %d
Depth = %d
OPS = {%s}
MUT = "%s"
"""
CLAIMS = """VIEW View
INVARIANTS AncFits CacheFresh FileHolds DictNames
PROPERTIES Frame Atomic GridGiven DictHolds Conserve RebuiltSame"""


def config(ops, H=2, NF=0, ND=0, MaxLen=2, NRow=2, NGrid=1, Depth=0, mut=""):
    """Configuration of the machine"""
    ops = ", ".join('"%s"' % o for o in ops)
    return CONFIG % ("" if Depth else CLAIMS, H, NF, ND, MaxLen, NRow, NGrid, Depth, ops, mut)


def behaviours(ctx, ops, num, depth, salt, **size):
    """Behaviours of the machine"""
    base = dict(H=3, MaxLen=4, NRow=5, NGrid=5)
    base.update(size)
    cfg = config(ops, Depth=depth, **base)
    out = ctx.tlc("QpEnsemble", cfg, sim=num, depth=depth + 2, seed=ctx.seed * 1009 + salt)
    if len(out) != num:
        from common import HarnessError

        raise HarnessError("%d behaviours, not %d" % (len(out), num))
    return out
