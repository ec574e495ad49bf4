"""C16: conversion between representations

QpConvert.tla is the machine of conversions: each distribution becomes the next one of its chain, in the
order of the source, and nothing else changes.  TLC checks it and gives behaviours, which are replayed with
all of the representations: after every step each distribution is compared with the one that the same chain
makes of the original distribution alone, and with the values of its source that it is defined by.  The
rational oracle (QpDist) gives these values for histogram and interpolated sources.
"""
import json

import numpy as np
from scipy import stats as sps

import reps
from chk_eval import arranged
from common import flt, rats, snapshot, unchanged

CFG = """SPECIFICATION Spec
INVARIANT Follows
%sCONSTANTS
Origins = {%s}
Targets = {%s}
NRows = %d
MaxLen = 4
MaxEns = %d
MUT = "%s"
Emit = %s
Rand = %s
"""
WIDE = dict(low=-0.5, high=6.5)
NARROW = dict(low=0.35, high=2.55)
SMOOTH = ["norm", "interp", "mixmod", "spline", "hist"]


def names(items):
    """A set for the configuration"""
    return ", ".join('"%s"' % i for i in items)


class Args:
    """What every conversion of a behaviour is asked for"""

    def __init__(self, qp, rng, span):
        from qp.packing_utils import PackingType

        low, high = span["low"], span["high"]
        self.qp = qp
        even = rng.random() < 0.4
        pts = lambda num: np.linspace(low, high, num) if even else np.sort(np.concatenate([[low, high], rng.uniform(low, high, num - 2)]))  # noqa: E731
        self.bins = pts(int(rng.integers(8, 30)))
        self.grid = pts(int(rng.integers(25, 60)))
        self.knots = np.linspace(low, high, int(rng.integers(25, 45)))
        quants = [np.linspace(0.01, 0.99, int(rng.integers(6, 30))), np.array([0.02, 0.1, 0.25, 0.4, 0.55, 0.8, 0.95])]
        self.quants = quants[int(rng.integers(2))]
        self.kwds = {
            "hist": dict(bins=self.bins),
            "interp": dict(xvals=self.grid),
            "interp_irregular": dict(xvals=self.grid),
            "quant": dict(quants=self.quants),
            "packed_lin": dict(xvals=self.grid, packing_type=PackingType.linear_from_rowmax),
            "packed_log": dict(xvals=self.grid, packing_type=PackingType.log_from_rowmax, log_floor=-4.0),
            "spline_xy": dict(xvals=self.knots, method="xy"),
        }
        self.cls = {
            "hist": qp.hist_gen, "interp": qp.interp_gen, "interp_irregular": qp.interp_irregular_gen, "quant": qp.quant_gen,
            "packed_lin": qp.packed_interp_gen, "packed_log": qp.packed_interp_gen, "spline_xy": qp.spline_gen,
        }
        self.name = dict(
            hist="hist", interp="interp", interp_irregular="interp_irregular", quant="quant",
            packed_lin="packed_interp", packed_log="packed_interp", spline_xy="spline",
        )
        self.points = np.linspace(low + 0.01, high - 0.01, 23)

    def convert(self, ens, label, via):
        """One conversion; the arguments have to be left alone"""
        kwds = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.kwds[label].items()}
        keep = snapshot(kwds)
        if via == "ensemble":
            out = ens.convert_to(self.cls[label], **kwds)
        else:
            out = self.qp.convert(ens, self.name[label], **kwds)
        if not unchanged(kwds, keep):
            raise AssertionError("the arguments of the conversion are changed")
        return out

    def defined(self, ctx, src, new, label, info):
        """The new ensemble has the values of the source"""
        if label == "hist":
            want = np.diff(np.asarray(src.cdf(self.bins)), axis=1)
            want = want / want.sum(axis=1, keepdims=True)
            ctx.close(np.diff(np.asarray(new.cdf(self.bins)), axis=1), want, "probabilities of the bins are those of the source", **info)
            mids = 0.5 * (self.bins[1:] + self.bins[:-1])
            ctx.close(np.asarray(new.pdf(mids)) * np.diff(self.bins), want, "contents of the bins are those of the source", **info)
        elif label == "quant":
            want = np.asarray(src.ppf(self.quants))
            ctx.close(new.ppf(self.quants), want, "locations of the quantiles are those of the source", rtol=1e-7, atol=1e-7, **info)
        elif label == "spline_xy":
            vals = np.asarray(src.pdf(self.knots))
            got = np.asarray(new.pdf(self.knots))
            fac = np.sum(got * vals, axis=1, keepdims=True) / np.sum(vals * vals, axis=1, keepdims=True)
            ctx.close(got, fac * vals, "values at the points are proportional to those of the source", rtol=1e-6, atol=1e-6, **info)
        else:
            vals = np.asarray(src.pdf(self.grid))
            area = np.sum(0.5 * (vals[:, 1:] + vals[:, :-1]) * np.diff(self.grid), axis=1, keepdims=True)
            got = np.asarray(new.pdf(self.grid))
            if label.startswith("packed"):
                if vals.min() < 0:  # packing is for densities
                    return
                top = vals.max(axis=1, keepdims=True)
                if label == "packed_lin":
                    err = top / 510.0
                else:
                    err = np.maximum(vals * (10 ** (4 / 510.0) - 1), top * 10 ** (-4 + 4 / 255.0))
                rel = np.sum(0.5 * (err[:, 1:] + err[:, :-1]) * np.diff(self.grid), axis=1, keepdims=True) if err.shape[1] > 1 else err * np.ptp(self.grid)
                # the rounding of all of the values also changes the norm
                part = np.minimum(rel / area, 0.999)
                high = (vals + err) / (area * (1 - part)) + 1e-9
                low = (vals - err) / (area * (1 + part)) - 1e-9
                sound = (got >= low) & (got <= high)
                ctx.check(np.all(sound), "packed values are those of the source", got=got[~sound][:4], low=low[~sound][:4], high=high[~sound][:4], **info)
            else:
                ctx.close(got, vals / area, "values at the points are those of the source", **info)


def origin(fams, label, row):
    """An original ensemble"""
    fam = fams[label]
    return fam.build([row] if np.ndim(row) == 0 else list(row), 1)


def same_law(ctx, new, refs, points, clause, info):
    """Row by row the same functions"""
    want = np.concatenate([np.asarray(r.pdf(points)) for r in refs])
    ctx.close(new.pdf(points), want, clause + ": pdf", rtol=1e-8, atol=1e-8, **info)
    want = np.concatenate([np.asarray(r.cdf(points)) for r in refs])
    ctx.close(new.cdf(points), want, clause + ": cdf", rtol=1e-8, atol=1e-8, **info)
    for key in new.objdata():
        want = np.concatenate([np.asarray(r.objdata()[key]) for r in refs])
        got = np.asarray(new.objdata()[key])
        if got.dtype == np.uint8:  # rounding to the other side is no difference
            ctx.check(got.shape == want.shape and np.max(np.abs(got.astype(int) - want.astype(int))) <= 1, clause + ": parameter " + key, **info)
        else:
            ctx.close(got, want, clause + ": parameter " + key, rtol=1e-8, atol=1e-8, **info)


def replay(ctx, run, fams, span):
    """One behaviour"""
    qp = ctx.qp
    args = Args(qp, ctx.rng, span)
    offset = int(ctx.rng.integers(0, 40))
    alone = {}

    def chain(parts):
        key = tuple(parts)
        if key not in alone:
            if len(parts) == 2:
                alone[key] = origin(fams, parts[0], int(parts[1]) + offset)
            else:
                alone[key] = args.convert(chain(parts[:-1]), parts[-1], "ensemble")
        return alone[key]

    live = []
    info = dict(log=run["log"], offset=offset)
    ctx.traces += 1
    for num, (act, state) in enumerate(zip(run["log"], run["ens"])):
        info = dict(log=run["log"][: num + 1], offset=offset)
        with ctx.case("conversions", **info):
            before = [(e, snapshot(e.objdata()), snapshot(e.metadata()), np.asarray(e.pdf(args.points))) for e in live]
            if act["op"] == "make":
                new = origin(fams, act["kind"], [r + offset for r in act["rows"]])
            elif act["op"] == "take":
                new = live[act["src"] - 1][np.array(act["key"]) - 1]
            else:
                src = live[act["src"] - 1]
                if "xvals" in args.kwds[act["to"]] and not np.all(np.max(np.asarray(src.pdf(args.kwds[act["to"]]["xvals"])), axis=1) > 0):
                    return  # a distribution between the points of the grid has no values there
                new = args.convert(src, act["to"], act["via"])
                ctx.check(new.gen_class is args.cls[act["to"]], "representation asked for", **info)
                if ctx.check(int(new.npdf) == int(src.npdf), "number of distributions", got=int(new.npdf), **info):
                    args.defined(ctx, src, new, act["to"], info)
                if act["to"] == "packed_log":
                    ctx.check(float(np.ravel(new.metadata()["log_floor"])[0]) == -4.0, "floor asked for", **info)
            if ctx.check(int(new.npdf) == len(state["rows"]), "number of distributions in the end", **info):
                same_law(ctx, new, [chain(r) for r in state["rows"]], args.points, "as from the distribution alone", info)
            live.append(new)
            for ens, obj, meta, pdf in before:
                same = unchanged(snapshot(ens.objdata()), obj) and unchanged(snapshot(ens.metadata()), meta)
                ctx.check(same and np.array_equal(np.asarray(ens.pdf(args.points)), pdf, equal_nan=True), "ensembles before are as they were", **info)
        if len(live) <= num:
            break


def lattices(ctx):
    """Conversions of histograms and interpolated densities against rational values"""
    rng, qp = ctx.rng, ctx.qp
    cases = []
    for i in range(ctx.n(60, 1200)):
        rows, size = int(rng.integers(1, 4)), int(rng.integers(3, 7))
        edges = np.sort(rng.choice(np.arange(13), size=size, replace=False))
        bins = np.unique(np.concatenate([[0, 12], rng.integers(1, 12, 5)]))
        from fractions import Fraction

        quants = [Fraction(int(k), 16) for k in sorted(rng.choice(np.arange(1, 16), size=5, replace=False))]
        cas = dict(x=rats([Fraction(int(b)) for b in bins]), q=rats(quants), n=[0])
        if i % 2:
            cont = rng.integers(1, 5, size=(rows, size - 1))
            cas.update(op="hist", e=edges, c=cont)
        else:
            vals = rng.integers(1, 5, size=(rows, size))
            vals[:, 0] = 0  # no jumps: the grid converted to goes further
            vals[:, -1] = 0
            cas.update(op="interp", xs=edges[None], ys=vals)
        cases.append(cas)
    for cas, want in zip(cases, ctx.oracle(cases)):
        info = dict(case=cas)
        ctx.sample(info)
        bins = np.array([x[0] / x[1] for x in cas["x"]])
        quants = np.array([q[0] / q[1] for q in cas["q"]])
        with ctx.case("conversion of lattices", **info):
            if cas["op"] == "hist":
                src = qp.Ensemble(qp.hist, data=dict(bins=cas["e"] * 1.0, pdfs=cas["c"] * 1.0))
            else:
                src = qp.Ensemble(qp.interp, data=dict(xvals=cas["xs"][0] * 1.0, yvals=cas["ys"] * 1.0))
            cdf = np.stack([flt(r["cdf"]) for r in want])
            hist = src.convert_to(qp.hist_gen, bins=bins)
            ctx.close(hist.cdf(bins), cdf, "bin probabilities are differences of the source cdf", **info)
            pdf = np.stack([flt(r["pdf"]) for r in want])
            if cas["op"] == "interp":
                fine = np.unique(np.concatenate([bins, np.arange(13.0)]))
                onto = qp.convert(src, "interp", xvals=fine)
                ctx.within(onto.pdf(bins), pdf[..., 0], pdf[..., 1], "grid values are those of the source", **info)
                alt = qp.convert(src, "interp_irregular", xvals=fine)
                ctx.within(alt.pdf(bins), pdf[..., 0], pdf[..., 1], "grid values are those of the source (irregular)", **info)
            ppf = np.stack([flt(r["ppf"]) for r in want])
            quant = src.convert_to(qp.quant_gen, quants=quants)
            if cas["op"] == "hist":
                ctx.within(quant.ppf(quants), ppf[..., 0], ppf[..., 1], "quantiles are those of the source", tol=1e-8, **info)
            else:
                ctx.close(quant.ppf(quants), np.asarray(src.ppf(quants)), "quantiles are those of the source", rtol=1e-8, atol=1e-8, **info)
                ctx.within(quant.ppf(quants), ppf[..., 0], ppf[..., 1], "quantiles invert the source", tol=1e-8, **info)


def tails(ctx, fams):
    """Quantiles far out in the tails, few and many of them, and bins and grids that go far out"""
    rng, qp = ctx.rng, ctx.qp
    sets = [
        np.array([1e-6, 1e-4, 2e-3, 0.3, 0.7, 0.999, 0.9999, 1 - 1e-6]),
        np.concatenate([10.0 ** np.arange(-7, -1), np.linspace(0.05, 0.95, 11), 1 - 10.0 ** np.arange(-2.0, -8, -1)]),
        np.array([0.0, 1e-5, 0.25, 0.5, 0.9, 0.99999, 1.0]),
        np.array([1e-3, 0.5, 0.999]),
    ]
    for label in ("norm", "gamma", "beta", "hist", "interp", "interp_irregular", "quant", "mixmod", "packed_lin"):
        rows = [int(r) for r in rng.choice(40, size=int(rng.integers(1, 4)), replace=False)]
        src = fams[label].build(rows, 1)
        for quants in sets:
            locs = np.asarray(src.ppf(quants))
            if not np.all(np.isfinite(locs)) or not np.all(np.diff(locs, axis=1) > 1e-12):
                continue
            info = dict(source=label, rows=rows, quants=quants)
            ctx.traces += 1
            with ctx.case("quantiles in the tails", **info):
                for out in (src.convert_to(qp.quant_gen, quants=quants.copy()), qp.convert(src, "quant", quants=quants.copy())):
                    tol = 1e-7 * (1 + np.abs(locs))
                    ctx.close((np.asarray(out.ppf(quants)) - locs) / tol, np.zeros(locs.shape), "locations of quantiles in the tails", atol=1.0, **info)
                    kept = np.ravel(out.metadata()["quants"])
                    ctx.check(np.all([np.any(np.abs(kept - q) < 1e-12) for q in quants]), "quantiles asked for are kept", kept=kept, **info)
        for low, high in ((-40.0, 60.0), (0.8, 1.1)):
            bins = np.concatenate([[low], np.sort(rng.uniform(max(low, -1), min(high, 6), 12)), [high]])
            info = dict(source=label, rows=rows, bins=bins)
            with ctx.case("bins far out, or inside", **info):
                prob = np.diff(np.asarray(src.cdf(bins)), axis=1)
                if not np.all(prob.sum(axis=1) > 1e-6):
                    continue
                out = src.convert_to(qp.hist_gen, bins=bins)
                ctx.close(np.diff(np.asarray(out.cdf(bins)), axis=1), prob / prob.sum(axis=1, keepdims=True), "probabilities of the bins are those of the source", **info)


def square(ctx, fams):
    """As many distributions as bins, edges, points or quantiles"""
    rng, qp = ctx.rng, ctx.qp
    for num, fam in enumerate(fams.values()):
        span = NARROW if fam.label == "spline" else WIDE
        for i in range(ctx.n(1, 6)):
            size = int(rng.integers(4, 9))
            rows = [int(r) for r in rng.choice(40, size=size, replace=False)]
            src = fam.build(rows, 1)
            for some in (size - 1, size, size + 1):
                args = Args(qp, rng, span)
                args.kwds["hist"] = dict(bins=np.linspace(span["low"], span["high"], some))
                args.kwds["interp"] = args.kwds["interp_irregular"] = dict(xvals=np.linspace(0.4, 2.4, some))
                args.kwds["quant"] = dict(quants=np.linspace(0.05, 0.95, some))
                for label in ("hist", "interp", "interp_irregular", "quant"):
                    if label == "quant" and fam.label == "spline":
                        continue
                    info = dict(source=fam.label, target=label, rows=rows, size=some)
                    with ctx.case("conversion to as many values as distributions", **info):
                        if label.startswith("interp") and not np.all(np.max(np.asarray(src.pdf(args.kwds[label]["xvals"])), axis=1) > 0):
                            continue
                        new = args.convert(src, label, "ensemble" if num % 2 else "function")
                        ctx.check(int(new.npdf) == size, "number of distributions", got=int(new.npdf), **info)
                        for at in sorted({0, size // 2, size - 1}):
                            one = args.convert(fam.build([rows[at]], 1), label, "ensemble")
                            same_law(ctx, new[at], [one], args.points, "as from the distribution alone", dict(info, row=at))
                        ctx.traces += 1


def arranged_sources(ctx, fams):
    """Sources of several dimensions: the same conversions, arranged in the shape of the source"""
    rng = ctx.rng
    shapes = [(2, 3), (3, 1, 2), (1, 4), (4, 1), (2, 2), (5,)]
    for num, fam in enumerate(fams.values()):
        for i in range(ctx.n(2, 12)):
            shape = shapes[(i * 3 + num) % len(shapes)]
            size = int(np.prod(shape))
            rows = [int(r) for r in rng.choice(40, size=size, replace=False)]
            args = Args(ctx.qp, rng, WIDE)
            for label in ("hist", "interp", "interp_irregular", "quant"):
                info = dict(source=fam.label, target=label, rows=rows, shape=shape)
                with ctx.case("conversion of a source of several dimensions", **info):
                    src = arranged(fam, rows, 1, shape)
                    if src is None:
                        break
                    ctx.traces += 1
                    new = args.convert(src, label, "ensemble" if i % 2 else "function")
                    want = args.convert(fam.build(rows, 1), label, "function")
                    ctx.check(tuple(new.shape) == shape and int(new.npdf) == size, "shape of the converted ensemble", got=new.shape, **info)
                    for func, pts in (("pdf", args.points), ("cdf", args.points), ("ppf", np.array([0.1, 0.5, 0.9]))):
                        ctx.close(getattr(new, func)(pts), np.reshape(getattr(want, func)(pts), shape + (pts.size,)), "%s of the converted distributions in their places" % func, rtol=1e-9, atol=1e-9, **info)


def sampled(ctx, fams):
    """Conversions by way of samples"""
    rng, qp = ctx.rng, ctx.qp
    labels = [f for f in fams if f not in ("spline", "quant_cdf", "quant_dual")]
    for num in range(ctx.n(26, 400)):
        label = labels[num % len(labels)]
        rows = [int(r) for r in rng.choice(40, size=int(rng.integers(1, 4)), replace=False)]
        seed, size = int(rng.integers(1, 10000)), int(rng.choice([60, 200, 1000]))
        info = dict(source=label, rows=rows, seed=seed, size=size)
        ctx.traces += 1
        with ctx.case("conversion by samples", **info):
            src = fams[label].build(rows, 1)
            keep = snapshot(src.objdata())
            np.random.seed(seed)
            samp = np.asarray(src.rvs(size=size))
            bins = np.concatenate([[-4.0], np.sort(rng.uniform(0.2, 4, len(rows) - 1 if num % 2 else 6)), [12.0]])
            np.random.seed(seed)
            hist = src.convert_to(qp.hist_gen, bins=bins, method="samples", size=size)
            cnt = np.stack([np.histogram(s, bins=bins)[0] for s in samp])
            inside = cnt.sum(axis=1, keepdims=True)
            ctx.close(np.diff(np.asarray(hist.cdf(bins)), axis=1), cnt / inside, "fractions of the samples in the bins", **info)
            np.random.seed(seed)
            alt = qp.convert(src, "hist", bins=bins, method="samples", size=size)
            ctx.same(alt.objdata()["pdfs"], hist.objdata()["pdfs"], "by the module: samples in the bins", **info)
            pts = np.linspace(samp.min() - 1, samp.max() + 1, 121)
            np.random.seed(seed)
            spl = qp.convert(src, "spline", xvals=pts, method="samples", size=size)
            kde = np.stack([sps.gaussian_kde(s)(pts) for s in samp])
            got = np.asarray(spl.pdf(pts))
            fac = np.sum(got * kde, axis=1, keepdims=True) / np.sum(kde * kde, axis=1, keepdims=True)
            ctx.close(got, fac * kde, "kernel estimate of the samples", rtol=1e-6, atol=1e-6, **info)
            ctx.check(np.all(np.abs(fac - 1) < 0.05), "kernel estimate is normalised", **info)
            ncomps = int(rng.integers(2, 4))
            np.random.seed(seed + 1)
            mix = src.convert_to(qp.mixmod_gen, ncomps=ncomps, nsamples=size, random_state=seed)
            want = np.asarray(src.rvs(size=size, random_state=seed))
            obj = mix.objdata()
            ok = obj["means"].shape == (len(rows), ncomps) and np.all(obj["weights"] >= 0) and np.all(obj["stds"] > 0)
            ctx.check(ok and mix.gen_class is qp.mixmod_gen, "components of the mixture", **info)
            ctx.close(obj["weights"].sum(axis=1), np.ones(len(rows)), "weights of the mixture", **info)
            mean = np.sum(obj["weights"] * obj["means"], axis=1)
            second = np.sum(obj["weights"] * (obj["means"] ** 2 + obj["stds"] ** 2), axis=1)
            ctx.close(mean, want.mean(axis=1), "mean of the mixture is that of the samples", rtol=1e-3, atol=1e-3, **info)
            spread = want.var(axis=1)
            ctx.close((second - mean**2) / spread, np.ones(len(rows)), "variance of the mixture is that of the samples", rtol=1e-2, atol=1e-2, **info)
            ctx.check(unchanged(snapshot(src.objdata()), keep), "source is unchanged", **info)


def whole_places(ctx):
    """Places that are whole numbers are numbers"""
    qp, rng = ctx.qp, ctx.rng
    for k in range(ctx.n(6, 60)):
        num = int(rng.integers(1, 4))
        if k % 2:
            src = qp.Ensemble(qp.stats.norm, data=dict(loc=rng.uniform(2, 5, (num, 1)), scale=rng.uniform(0.6, 2.5, (num, 1))))
        else:
            edges = np.sort(rng.choice(np.arange(-5, 13), size=6, replace=False)) + 0.5
            src = qp.Ensemble(qp.hist, data=dict(bins=edges, pdfs=rng.uniform(0.1, 1, (num, 5))))
        kind = (np.int64, np.int32, np.int16)[k % 3]
        whole = np.arange(-8, 17)
        if rng.random() < 0.5:
            whole = np.unique(np.concatenate([[-8, 16], rng.choice(whole, size=18)]))
        mine = whole.astype(kind)
        ways = [("interp", dict(xvals=mine)), ("interp_irregular", dict(xvals=mine)), ("hist", dict(bins=mine))]
        for style in qp.packing_utils.PackingType:
            ways.append(("packed_interp", dict(xvals=mine, packing_type=style, log_floor=-3.0)))
        if k % 2:
            ways.append(("spline", dict(xvals=mine, method="xy")))
        for name, args in ways:
            info = dict(target=name, source=src.gen_class.name, whole=whole, kind=kind.__name__)
            with ctx.case("conversion at whole numbers", **info):
                keep = snapshot(src.objdata())
                real = {k: (whole.astype(float) if k in ("xvals", "bins") else v) for k, v in args.items()}
                want = qp.convert(src, name, **real)
                got = qp.convert(src, name, **args)
                pts = np.concatenate([np.linspace(-8, 16, 97), whole + 0.5])
                ctx.close(got.pdf(pts), want.pdf(pts), "densities of places that are whole numbers", rtol=1e-9, atol=1e-12, **info)
                ctx.close(got.cdf(pts), want.cdf(pts), "cdf of places that are whole numbers", rtol=1e-9, atol=1e-12, **info)
                if name.startswith("interp"):
                    # the densities there are in the proportions of those of the source
                    one, two = np.asarray(got.pdf(whole.astype(float))), np.asarray(src.pdf(whole.astype(float)))
                    ctx.close(one * two.sum(axis=1, keepdims=True), two * one.sum(axis=1, keepdims=True), "proportions at whole numbers", rtol=1e-8, atol=1e-10, **info)
                ctx.check(unchanged(snapshot(src.objdata()), keep), "source is unchanged", **info)
        ctx.traces += 1


def run_c16(ctx):
    """Conversions"""
    fams = {f.label: f for f in reps.families(ctx.qp)}
    two = names(["hist", "norm"]), names(["interp", "quant"])
    ctx.tlc("QpConvert", CFG % (("PROPERTY Kept\n",) + two + (2, ctx.n(3, 4), "none", "FALSE", "FALSE")))
    for mut in ("order", "inplace"):
        ctx.tlc("QpConvert", CFG % (("PROPERTY Kept\n",) + two + (2, 3, mut, "FALSE", "FALSE")), refute=True)
    plain = [f for f in fams if f != "spline"]
    wide = names(plain), names(["hist", "interp", "interp_irregular", "quant", "packed_lin", "packed_log"])
    narrow = names(SMOOTH), names(["hist", "interp", "interp_irregular", "packed_lin", "spline_xy"])
    for sets, span, num in ((wide, WIDE, ctx.n(60, 900)), (narrow, NARROW, ctx.n(25, 400))):
        runs = ctx.tlc("QpConvert", CFG % (("",) + sets + (4, 5, "none", "TRUE", "TRUE")), sim=num, depth=8)
        runs = [r for r in {json.dumps(r): r for r in runs}.values() if any(a["op"] == "convert" for a in r["log"])]
        order = ctx.rng.permutation(len(runs))[: 2 * num]
        for i in order:
            replay(ctx, runs[i], fams, span)
        ctx.sample(dict(behaviour=runs[0]))
    lattices(ctx)
    tails(ctx, fams)
    arranged_sources(ctx, fams)
    square(ctx, fams)
    sampled(ctx, fams)
    whole_places(ctx)
