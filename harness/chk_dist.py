"""C09, C10, C11, C12, C15: what the representations mean

The specification (QpDist) gives every function of a representation as a rational function of the
integers that define it.  TLC checks that these denotations are coherent for every small histogram,
interpolated density and quantile set (MCDist), and evaluates them on seeded cases with integer
lattices; an affine map (shift, scale) takes the lattice to reals of very different scales, and the
code under test has to give the mapped values.
"""
import math
from fractions import Fraction

import numpy as np
from scipy import interpolate
from scipy import stats as sps

from common import flt, rat, rats

MAPS = [(0.0, 1.0), (0.0, 1e-9), (0.0, 2.0**20), (0.0, 0.37), (3.0, 0.5), (-1.0e3, 7.0), (1.0, 1e-3), (0.0, 3.7e-13), (0.0, 2.3e11)]


def coherence(ctx):
    """The denotations themselves: exhaustive over small lattices"""
    size = ctx.n((3, 2, 3), (4, 2, 3))
    cfg = "SPECIFICATION Spec\nINVARIANT Coherent\nCONSTANTS\nMaxX = %d\nMaxC = %d\nN = %d\n" % size
    ctx.tlc("MCDist", cfg)


def lattice(rng, size, top):
    """Increasing integers"""
    return np.sort(rng.choice(np.arange(top + 1), size=size, replace=False))


def queries(rng, special, top, num):
    """Rational points: some special, some anywhere (also outside), in no order and with repeats"""
    out = [Fraction(int(x)) for x in special]
    while len(out) < num:
        den = int(rng.integers(1, 5))
        out.append(Fraction(int(rng.integers(-2 * den, (top + 2) * den + 1)), den))
    out = out[: max(num, len(special))]
    order = rng.permutation(len(out))
    out = [out[i] for i in order]
    return out + [out[0]]


def probs(rng, special, num):
    """Rational probabilities with 0 and 1 among them"""
    out = [Fraction(0), Fraction(1)] + list(special)
    while len(out) < num:
        den = int(rng.choice([3, 5, 7, 8, 16, 100]))
        out.append(Fraction(int(rng.integers(0, den + 1)), den))
    order = rng.permutation(len(out))
    return [out[i] for i in order]


def real(points, amap):
    """The image of lattice points (fractions, or floats) under the affine map"""
    return np.array([amap[0] + amap[1] * float(x) for x in points])


def contents(rng, rows, size, top):
    """Non-negative integers, no row all zero, zeros and ends of zeros likely"""
    out = rng.integers(0, top + 1, size=(rows, size)) * (rng.random((rows, size)) < 0.8)
    for row in out:
        if not row.any():
            row[rng.integers(0, size)] = 1
    return out


NEAR = [0.0, 1e-13, 1e-9, -1e-9, 1e-7, -1e-7, 2e-6, -2e-6, 1e-5, 4e-4, -4e-4, 1.5e-3, -1.5e-3, 8e-3, -9e-3, 0.04, -0.06]


def factors(rng, areas):
    """Factors of the contents of the rows: the integrals may be anything, such as almost one"""
    areas = np.asarray(areas, float)
    kind = int(rng.integers(6))
    if kind == 0:
        return np.ones((len(areas), 1))
    if kind == 1:
        return np.full((len(areas), 1), float(rng.choice([0.001, 1e6, 1e-15, 1e12, 0.37])))
    if kind == 2:
        return 10.0 ** rng.integers(-12, 13, size=(len(areas), 1))
    out = (1 + rng.choice(NEAR, size=len(areas))) / areas
    if kind == 5:
        out = out * rng.choice([1.0, 1.0, 30.0], size=len(areas))
    return out[:, None]


def typed(rng, arr):
    """The same numbers as integers, if they are"""
    arr = np.asarray(arr)
    kinds = [k for k in ("i8", "i4", "i2", "u1", "u2", "f8") if k == "f8" or np.array_equal(arr, arr.astype(k).astype(float))]
    return arr.astype(kinds[int(rng.integers(len(kinds)))])


# ---------------------------------------------------------------------------
def asgiven(ctx, ens, asis, xs, qs, scale, info, wide=0.0):
    """Complete and normalised data can be given without a check of the input"""
    ctx.close(np.asarray(asis.pdf(xs)) * scale, np.asarray(ens.pdf(xs)) * scale, "pdf of normalised data given as they are", **info)
    ctx.close(asis.cdf(xs), ens.cdf(xs), "cdf of normalised data given as they are", **info)
    # rounding decides where on a plateau of the cdf a ppf is
    sure = wide < 1e-9
    ctx.close(np.where(sure, asis.ppf(qs), 0.0) / scale, np.where(sure, ens.ppf(qs), 0.0) / scale, "ppf of normalised data given as they are", rtol=1e-7, atol=1e-7, **info)


def run_c09(ctx):
    """Histograms"""
    coherence(ctx)
    rng, qp = ctx.rng, ctx.qp
    cases, maps, forms = [], [], []
    for i in range(ctx.n(140, 3000)):
        size = int(rng.integers(1, 8))
        rows = int(rng.choice([1, 1, 2, 3, 5]))
        edges = lattice(rng, size + 1, 12) if rng.random() < 0.8 else np.arange(size + 1)
        cont = contents(rng, rows, size, 4)
        area = [int((c * np.diff(edges)).sum()) for c in cont]
        cum = [Fraction(int((cont[0] * np.diff(edges))[:k].sum()), area[0]) for k in range(size + 1)]
        cases.append(
            dict(op="hist", e=edges, c=cont, x=rats(queries(rng, edges, 12, 14)), q=rats(probs(rng, cum[1:-1], 9)), n=[0, 1, 2, 3])
        )
        maps.append(MAPS[int(rng.integers(len(MAPS)))])
        forms.append(factors(rng, np.array(area) * maps[-1][1]))
    for cas, amap, form, want in zip(cases, maps, forms, ctx.oracle(cases)):
        ctx.sample(dict(case=cas, map=amap, want=want))
        shift, scale = amap
        info = dict(case=cas, map=amap, factors=form)
        xs = real([Fraction(*x) for x in cas["x"]], amap)
        qs = np.array([q[0] / q[1] for q in cas["q"]])
        bins = real(cas["e"], amap)
        # the contents are a density up to any factor
        vals = typed(rng, cas["c"] * form)
        bins = typed(rng, bins)
        with ctx.case("histogram", **info):
            ens = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=vals))
            pdf = np.stack([flt(r["pdf"]) for r in want])
            ctx.within(ens.pdf(xs) * scale, pdf[..., 0], pdf[..., 1], "pdf of the step density", **info)
            cdf = np.stack([flt(r["cdf"]) for r in want])
            ctx.close(ens.cdf(xs), cdf, "cdf is the integral of the steps", **info)
            ppf = np.stack([flt(r["ppf"]) for r in want])
            got = (np.asarray(ens.ppf(qs)) - shift) / scale
            ctx.within(got, ppf[..., 0], ppf[..., 1], "ppf inverts the cdf", **info)
            ctx.same(np.asarray(ens.ppf([0.0, 1.0])), np.tile(bins[[0, -1]], (len(vals), 1)), "ppf at 0 and 1", **info)
            mom = np.stack([flt(r["mom"]) for r in want])
            if shift == 0:
                for n in (0, 1, 2, 3):
                    ctx.close(np.ravel(ens.moment(n)) / scale**n, mom[:, n], "moment %d" % n, **info)
                ctx.close(np.ravel(ens.mean()) / scale, mom[:, 1], "mean", **info)
                ctx.close(np.ravel(ens.var()) / scale**2, mom[:, 2] - mom[:, 1] ** 2, "variance", **info)
            data = ens.objdata()
            again = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=data["pdfs"]))
            ctx.close(again.objdata()["pdfs"] * scale, data["pdfs"] * scale, "normalising again", rtol=1e-14, atol=0, **info)
            ctx.close(np.sum(data["pdfs"] * np.diff(bins), axis=-1), np.ones(len(vals)), "integral is one", **info)
            asis = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=data["pdfs"], check_input=False))
            asgiven(ctx, ens, asis, xs, qs, scale, info, ppf[..., 1] - ppf[..., 0])


# ---------------------------------------------------------------------------
def run_c10(ctx):
    """Interpolated densities"""
    coherence(ctx)
    rng, qp = ctx.rng, ctx.qp
    cases, maps, forms = [], [], []
    for i in range(ctx.n(140, 3000)):
        size = int(rng.integers(2, 8))
        rows = int(rng.choice([1, 1, 2, 3, 4]))
        common = i % 2 == 0
        grids = np.stack([lattice(rng, size, 12) for _ in range(1 if common else rows)])
        vals = contents(rng, rows, size, 4)
        cells = (vals[0, 1:] + vals[0, :-1]) * np.diff(grids[0])
        cum = [Fraction(int(cells[:k].sum()), int(cells.sum())) for k in range(size)]
        area = [float((v[1:] + v[:-1]) @ np.diff(grids[k % len(grids)])) / 2 for k, v in enumerate(vals)]
        cases.append(
            dict(
                op="interp",
                xs=grids,
                ys=vals,
                x=rats(queries(rng, grids[0], 12, 14)),
                q=rats(probs(rng, cum[1:-1], 9)),
                n=[0, 1, 2, 3],
            )
        )
        maps.append(MAPS[int(rng.integers(len(MAPS)))])
        forms.append((int(rng.integers(3)), factors(rng, np.array(area) * maps[-1][1])))
    for cas, amap, (form, factor), want in zip(cases, maps, forms, ctx.oracle(cases)):
        ctx.sample(dict(case=cas, map=amap, want=want))
        shift, scale = amap
        common = len(cas["xs"]) == 1 and (len(cas["ys"]) > 1 or form != 2)
        info = dict(case=cas, map=amap, common=common, factors=factor)
        xs = real([Fraction(*x) for x in cas["x"]], amap)
        qs = np.array([q[0] / q[1] for q in cas["q"]])
        grid = np.stack([real(row, amap) for row in cas["xs"]])
        vals = typed(rng, cas["ys"] * factor)
        with ctx.case("interpolated density", **info):
            if common:
                ens = qp.Ensemble(qp.interp, data=dict(xvals=typed(rng, grid[0]), yvals=vals))
            else:
                ens = qp.Ensemble(qp.interp_irregular, data=dict(xvals=typed(rng, grid), yvals=vals))
            pdf = np.stack([flt(r["pdf"]) for r in want])
            ctx.within(ens.pdf(xs) * scale, pdf[..., 0], pdf[..., 1], "pdf is linear between the points", **info)
            cdf = np.stack([flt(r["cdf"]) for r in want])
            ppf = np.stack([flt(r["ppf"]) for r in want])
            got_c = np.asarray(ens.cdf(xs))
            got_p = (np.asarray(ens.ppf(qs)) - shift) / scale
            wide = ppf[..., 1] - ppf[..., 0]
            if common:
                # the recorded finding: the first cell of a common grid
                dcdf = np.stack([flt(r["dcdf"]) for r in want])
                dppf = np.stack([flt(r["dppf"]) for r in want])
                wide = np.maximum(wide, dppf[..., 1] - dppf[..., 0])
                lat = np.array([x[0] / x[1] for x in cas["x"]])
                first = (lat >= cas["xs"][0][0]) & (lat < cas["xs"][0][1])
                odd = (np.abs(got_c - cdf) > 1e-9) & (np.abs(got_c - dcdf) <= 1e-9) & first[None, :]
                if odd.any() and ctx.known("first-cell"):
                    got_c = np.where(odd, cdf, got_c)
                bad = (got_p < ppf[..., 0] - 1e-9) | (got_p > ppf[..., 1] + 1e-9)
                odd = bad & (got_p >= dppf[..., 0] - 1e-9) & (got_p <= dppf[..., 1] + 1e-9)
                odd &= got_p <= cas["xs"][0][1] + 1e-9
                if odd.any() and ctx.known("first-cell"):
                    got_p = np.where(odd, ppf[..., 0], got_p)
            ctx.close(got_c, cdf, "cdf is the integral at the points and linear between", **info)
            ctx.within(got_p, ppf[..., 0], ppf[..., 1], "ppf inverts the cdf", **info)
            ends = grid[:, [0, -1]] * np.ones((len(vals), 1))
            ctx.same(np.asarray(ens.ppf([0.0, 1.0])), ends, "ppf at 0 and 1", **info)
            data = dict(ens.objdata())
            if common:
                data["xvals"] = typed(rng, grid[0])
            asis = qp.Ensemble(qp.interp if common else qp.interp_irregular, data=dict(data, check_input=False))
            asgiven(ctx, ens, asis, xs, qs, scale, info, wide)
            if common and shift == 0:
                mom = np.stack([flt(r["mom"]) for r in want])
                for n in (0, 1, 2, 3):
                    ctx.close(np.ravel(ens.moment(n)) / scale**n, mom[:, n], "moment %d" % n, **info)
                ctx.close(np.ravel(ens.mean()) / scale, mom[:, 1], "mean", **info)
                ctx.close(np.ravel(ens.var()) / scale**2, mom[:, 2] - mom[:, 1] ** 2, "variance", **info)


# ---------------------------------------------------------------------------
METHODS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]


def run_c11(ctx):
    """Quantiles"""
    coherence(ctx)
    rng, qp = ctx.rng, ctx.qp
    cases, maps, meths = [], [], []
    for i in range(ctx.n(140, 2400)):
        size = int(rng.integers(4, 10))
        rows = int(rng.choice([1, 2, 3, 4]))
        kind = i % 4  # are 0 and 1 among the quantiles
        inner = np.sort(rng.choice(np.arange(1, 16), size=size, replace=False))
        quants = [Fraction(int(k), 16) for k in inner]
        if rng.random() < 0.4:
            # very near to the ends of the unit interval
            tiny = Fraction(1, int(rng.choice([512, 1024, 4096, 8192])))
            quants[0], quants[-1] = tiny, 1 - tiny
            if rng.random() < 0.5 and quants[1] > Fraction(1, 16):
                quants[1] = tiny + Fraction(1, 32)
            if rng.random() < 0.5 and quants[-2] < Fraction(15, 16):
                quants[-2] = 1 - tiny - Fraction(1, 32)
        if kind & 1:
            quants = [Fraction(0)] + quants
        if kind & 2:
            quants = quants + [Fraction(1)]
        locs = np.stack([lattice(rng, len(quants), 14) for _ in range(rows)])
        cases.append(dict(op="quant", qs=rats(quants), ls=locs, x=rats(queries(rng, [0, 14], 14, 10))))
        maps.append(MAPS[int(rng.integers(len(MAPS)))])
        # the average of two splines needs four points for each of them
        meths.append(METHODS[int(rng.integers(4 if size + 2 >= 8 else 3))])
    for cas, amap, meth, want in zip(cases, maps, meths, ctx.oracle(cases)):
        ctx.sample(dict(case=cas, map=amap, method=meth, want=want))
        shift, scale = amap
        info = dict(case=cas, map=amap, method=meth)
        quants = np.array([q[0] / q[1] for q in cas["qs"]])
        locs = np.stack([real(row, amap) for row in cas["ls"]])
        xs = real([Fraction(*x) for x in cas["x"]], amap)
        rows = len(locs)
        with ctx.case("quantiles", **info):
            ens = qp.Ensemble(qp.quant, data=dict(quants=typed(rng, quants), locs=typed(rng, locs), pdf_constructor_name=meth))
            padq = flt(want[0]["q"])
            padl = shift + scale * np.stack([flt(r["l"]) for r in want])
            ctx.close(ens.ppf(quants), locs, "ppf at the quantiles", atol=1e-9 * scale, **info)
            ctx.close(ens.cdf(locs), np.tile(quants, (rows, 1)), "cdf at the locations", **info)
            ctx.close(ens.ppf(padq), padl, "ppf at the extended quantiles", atol=1e-9 * scale, **info)
            # at the ends themselves rounding decides on which side of the support a location is
            ctx.close(ens.cdf(padl), np.tile(padq, (rows, 1)), "cdf at the extended locations", atol=1e-6, **info)
            ctx.close(np.ravel(ens.metadata()["quants"]), padq, "the quantiles kept", **info)
            ctx.close(ens.objdata()["locs"], padl, "the locations kept", atol=1e-9 * scale, **info)
            full = dict(quants=np.ravel(ens.metadata()["quants"]), locs=ens.objdata()["locs"])
            again = qp.Ensemble(qp.quant, data=dict(full, pdf_constructor_name=meth))
            ctx.same(again.objdata()["locs"], full["locs"], "a complete set is left as it is", **info)
            asis = qp.Ensemble(qp.quant, data=dict(full, pdf_constructor_name=meth, check_input=False))
            asgiven(ctx, ens, asis, xs, padq, scale, info)
            for name in METHODS if rows < 3 else [meth]:
                if name == METHODS[3] and len(padq) < 8:
                    continue
                ens = qp.Ensemble(qp.quant, data=dict(quants=quants, locs=typed(rng, locs), pdf_constructor_name=name))
                pdf = np.asarray(ens.pdf(xs))
                wide = (padl[:, -1:] - padl[:, :1]) * 1e-9
                out = (xs[None, :] < padl[:, :1] - wide) | (xs[None, :] > padl[:, -1:] + wide)
                ctx.check(np.all(pdf[out] == 0), "zero outside of the range", constructor=name, **info)
                mids = shift + scale * np.stack([flt(r["m"]) for r in want])
                at_mid = np.asarray(ens.pdf(mids))
                for row in range(rows):
                    one = dict(quants=quants, locs=locs[row : row + 1], pdf_constructor_name=name)
                    alone = qp.Ensemble(qp.quant, data=one)
                    ctx.close(pdf[row] * scale, alone.pdf(xs)[0] * scale, "own locations only", constructor=name, row=row, **info)
                    ctx.close(
                        at_mid[row] * scale, alone.pdf(mids[row])[0] * scale, "own locations only", constructor=name, row=row, **info
                    )
                if name.startswith("piecewise"):
                    ders = np.stack([flt(r["d"]) for r in want]) / scale
                    # the reconstruction is defined between the first and the last of the mid points
                    ctx.close(at_mid[:, 1:-1] * scale, ders[:, 1:-1] * scale, "difference quotients", constructor=name, **info)
                    eps = 1e-6
                    near = mids.copy()
                    near[:, 0] += eps * (mids[:, 1] - mids[:, 0])
                    near[:, -1] -= eps * (mids[:, -1] - mids[:, -2])
                    got = np.asarray(ens.pdf(near))[:, [0, -1]]
                    ctx.close(got * scale, ders[:, [0, -1]] * scale, "difference quotients", rtol=1e-4, atol=2e-6 * float(np.max(ders * scale)), constructor=name, **info)
                if name == "piecewise_linear":
                    lin = np.stack([flt(r["pdf"]) for r in want]) / scale
                    ctx.within(pdf * scale, lin[..., 0] * scale, lin[..., 1] * scale, "linear between", constructor=name, **info)


# ---------------------------------------------------------------------------
def run_c12(ctx):
    """Gaussian mixtures"""
    rng, qp = ctx.rng, ctx.qp
    cases, infos = [], []

    def phi(val):
        return math.exp(-0.5 * val * val) / math.sqrt(2 * math.pi)

    def cum(val):
        return 0.5 * math.erfc(-val / math.sqrt(2))

    for i in range(ctx.n(120, 2500)):
        comps = int(rng.choice([1, 2, 2, 3, 5]))
        rows = int(rng.choice([1, 2, 3, 4]))
        means = rng.integers(-20, 21, size=(rows, comps)) / 4.0
        stds = rng.choice([0.25, 0.5, 1.0, 2.0], size=(rows, comps))
        if i % 3 == 0 and rows > 1:  # rows of very different widths and places
            means[0] *= 40.0
            stds[-1] /= 16.0
        weights = contents(rng, rows, comps, 9)
        points = np.concatenate([rng.uniform(-9, 9, size=4), means[0, :1] + stds[0, :1] * 0.3])
        tabs = []
        for func, div in ((phi, True), (cum, False)):
            tab = [
                [
                    [
                        int(round(1e7 * 0.4 * func((p - means[r, k]) / stds[r, k]) / (stds[r].min() ** -1 * stds[r, k] if div else 0.4)))
                        for k in range(comps)
                    ]
                    for p in points
                ]
                for r in range(rows)
            ]
            tabs.append(tab)
        for tab in tabs:
            cases.append(dict(op="mix", w=weights, t=tab))
        infos.append(dict(means=means, stds=stds, weights=weights, points=points))
    out = ctx.oracle(cases)
    for i, info in enumerate(infos):
        ctx.sample(dict(info, want=out[2 * i]))
        means, stds, weights, points = (info[k] for k in ("means", "stds", "weights", "points"))
        rows, comps = means.shape
        want_pdf = np.array([[v[0] for v in row] for row in out[2 * i]]) * 1e-7
        want_pdf = want_pdf / stds.min(axis=1)[:, None] / 0.4
        want_cdf = np.array([[v[0] for v in row] for row in out[2 * i + 1]]) * 1e-7
        with ctx.case("mixture", **info):
            for factor in (np.ones((rows, 1)), factors(rng, weights.sum(axis=1)), factors(rng, weights.sum(axis=1))):
                data = dict(means=typed(rng, means), stds=typed(rng, stds), weights=typed(rng, weights * factor))
                ens = qp.Ensemble(qp.mixmod, data=data)
                scale = 1.0 / stds.min(axis=1)[:, None]
                ctx.close(ens.pdf(points) / scale, want_pdf / scale, "pdf is the weighted sum", rtol=0, atol=1e-6, factor=factor, **info)
                ctx.close(ens.cdf(points), want_cdf, "cdf is the weighted sum", rtol=0, atol=4e-7, factor=factor, **info)
            ctx.close(
                ens.objdata()["weights"], weights / weights.sum(axis=1, keepdims=True), "normalised weights", rtol=1e-12, **info
            )
            perm = rng.permutation(comps)
            oth = qp.Ensemble(qp.mixmod, data=dict(means=means[:, perm], stds=stds[:, perm], weights=weights[:, perm]))
            ctx.close(oth.pdf(points), ens.pdf(points), "order of the components", **info)
            ctx.close(oth.cdf(points), ens.cdf(points), "order of the components", **info)
            qs = np.array([0.001, 0.02, 0.159, 0.25, 0.5, 0.6, 0.841, 0.977, 0.999])
            got = np.asarray(ens.ppf(qs))
            ctx.check(got.shape == (rows, len(qs)), "ppf shape", got=got.shape, **info)
            for row in range(rows):
                # as a check of its own: within one cell of the grid of the components of the row
                cell = (np.max(means[row] + 6 * stds[row]) - np.min(means[row] - 6 * stds[row])) / 200 * 1.05
                norm = weights[row] / weights[row].sum()
                ref = lambda x: (norm * sps.norm.cdf(x, means[row], stds[row])).sum()  # noqa: E731
                for q, x in zip(qs, got[row]):
                    ctx.check(
                        ref(x - cell) - 1e-9 <= q <= ref(x + cell) + 1e-9, "ppf inverts the cdf", row=row, q=q, got=x, cell=cell, **info
                    )
                alone = qp.Ensemble(
                    # with the same factor: rounding decides on the levels at which the cdf is flat
                    qp.mixmod, data=dict(means=means[row : row + 1], stds=stds[row : row + 1], weights=(weights * factor)[row : row + 1])
                )
                ctx.close(got[row], alone.ppf(qs)[0], "ppf regardless of the others", rtol=1e-7, atol=1e-7, row=row, **info)
                ctx.check(np.all(np.diff(got[row]) >= 0), "ppf does not decrease", row=row, **info)
        bad = weights.astype(float)
        bad[rng.integers(rows), rng.integers(comps)] = -0.5
        ctx.refused(
            lambda: qp.Ensemble(qp.mixmod, data=dict(means=means, stds=stds, weights=bad)),  # noqa: B023
            "negative weights",
            weights=bad,
        )
    faint(ctx)


def faint(ctx):
    """Components that hardly count are there, in their places"""
    rng, qp = ctx.rng, ctx.qp
    for _ in range(ctx.n(30, 400)):
        rows, comps = int(rng.integers(1, 5)), int(rng.integers(2, 6))
        means = 200.0 * np.stack([rng.permutation(comps) for _ in range(rows)]) + rng.uniform(-5, 5, (rows, comps))
        stds = rng.uniform(0.5, 3, (rows, comps))
        weights = 10.0 ** rng.uniform(-14, 0, (rows, comps)) * 10.0 ** rng.uniform(-3, 3, (rows, 1))
        info = dict(means=means, stds=stds, weights=weights)
        with ctx.case("faint components", **info):
            ens = qp.Ensemble(qp.mixmod, data=dict(means=means.copy(), stds=stds.copy(), weights=weights.copy()))
            norm = weights / weights.sum(axis=1, keepdims=True)
            ctx.close(ens.objdata()["weights"], norm, "normalised weights", rtol=1e-12, atol=0.0, **info)
            for k in range(comps):
                # all of a row but this component is nothing there
                pts = means[:, k : k + 1] + stds[:, k : k + 1] * np.array([-1.0, 0.0, 0.7])
                every = [sps.norm.pdf(pts, means[:, j : j + 1], stds[:, j : j + 1]) * norm[:, j : j + 1] for j in range(comps)]
                ctx.close(ens.pdf(pts), np.sum(every, axis=0), "density of a faint component", rtol=1e-9, atol=0.0, component=k, **info)
                every = [sps.norm.cdf(pts, means[:, j : j + 1], stds[:, j : j + 1]) * norm[:, j : j + 1] for j in range(comps)]
                ctx.close(ens.cdf(pts), np.sum(every, axis=0), "cdf at a faint component", rtol=1e-9, atol=0.0, component=k, **info)
        ctx.traces += 1


# ---------------------------------------------------------------------------
def orders(ctx):
    """Splines given by their knots, of different orders"""
    rng, qp = ctx.rng, ctx.qp
    for _ in range(ctx.n(40, 500)):
        rows, knots = int(rng.integers(1, 5)), int(rng.integers(12, 18))
        low, high = sorted(rng.uniform(-3, 3, 2))
        high = max(high, low + 0.5)
        reps, degs = [], rng.integers(1, 6, rows)
        for deg in degs:
            grid = low + (high - low) * np.linspace(0, 1, knots - deg - 1)
            vals = rng.uniform(0.5, 1.5, grid.size)
            vals /= interpolate.splint(low, high, interpolate.splrep(grid, vals, k=deg))
            reps.append(interpolate.splrep(grid, vals, k=deg))
        coefs = np.zeros((rows, knots))
        for row, rep in enumerate(reps):
            coefs[row, : len(rep[1])] = rep[1]
        data = dict(splx=np.stack([r[0] for r in reps]), sply=coefs, spln=np.array(degs).reshape(-1, 1))
        pts = rng.uniform(low, high, 7)
        info = dict(data=data, points=pts)
        with ctx.case("orders of splines", **info):
            ens = qp.Ensemble(qp.spline, data=data)
            pdf = np.stack([interpolate.splev(pts, r) for r in reps])
            cdf = np.stack([[interpolate.splint(low, p, r) for p in pts] for r in reps])
            ctx.close(ens.pdf(pts), pdf, "pdf of splines of their orders", rtol=1e-8, atol=1e-9, **info)
            ctx.close(ens.cdf(pts), cdf, "cdf of splines of their orders", rtol=1e-8, atol=1e-9, **info)
            pick = rng.permutation(rows)
            part = ens[pick]
            ctx.close(part.pdf(pts), pdf[pick], "pdf of selected splines", rtol=1e-8, atol=1e-9, pick=pick, **info)
            ctx.close(part.cdf(pts), cdf[pick], "cdf of selected splines", rtol=1e-8, atol=1e-9, pick=pick, **info)


def run_c15(ctx):
    """Splines"""
    coherence(ctx)
    rng, qp = ctx.rng, ctx.qp
    cases, infos = [], []
    for i in range(ctx.n(110, 1500)):
        rows = int(rng.choice([1, 2, 3, 4]))
        size = int(rng.integers(5, 12))
        polys, lows, highs, points, knots = [], [], [], [], []
        for _ in range(rows):
            while True:
                poly = rng.integers(-3, 4, size=4)
                low = int(rng.integers(-4, 4))
                high = low + int(rng.integers(1, 6))
                dense = np.polyval(poly[::-1], np.linspace(low, high, 200))
                if dense.min() > 0.05 * dense.max() or (dense.min() >= 0 and dense.max() > 0 and rng.random() < 0.3):
                    break
            polys.append(poly)
            lows.append([low, 1])
            highs.append([high, 1])
            points.append(rats([low + Fraction(int(k), 12) * (high - low) for k in rng.integers(0, 13, size=6)]))
            inner = np.sort(rng.choice(np.arange(1, 40), size=size - 2, replace=False)) / 40.0
            knots.append(low + (high - low) * np.concatenate([[0.0], inner, [1.0]]))
        cases.append(dict(op="poly", a=polys, lo=lows, hi=highs, x=points))
        infos.append(dict(polys=polys, lows=lows, highs=highs, points=points, knots=np.stack(knots)))
    for info, want in zip(infos, ctx.oracle(cases)):
        ctx.sample(dict(info, want=want))
        rows = len(info["polys"])
        shift, scale = [(0.0, 1.0), (0.0, 1e-3), (5.0, 10.0)][int(rng.integers(3))]
        anti = [np.polyint(p[::-1]) for p in info["polys"]]
        areas = [np.polyval(a, k[-1]) - np.polyval(a, k[0]) for a, k in zip(anti, info["knots"])]
        factor = factors(rng, np.array(areas) * scale)
        xvals = shift + scale * info["knots"]
        yvals = np.stack([np.polyval(p[::-1], k) for p, k in zip(info["polys"], info["knots"])])
        yvals = yvals * factor
        xs = shift + scale * np.stack([[p[0] / p[1] for p in row] for row in info["points"]])
        info = dict(info, map=(shift, scale), factor=factor)
        with ctx.case("spline", **info):
            made = [
                qp.Ensemble(qp.spline_from_xy, data=dict(xvals=xvals, yvals=yvals)),
                qp.create("spline", dict(xvals=xvals, yvals=yvals), method="xy"),
            ]
            rep = qp.spline_gen.build_normed_splines(xvals, yvals)
            made.append(qp.Ensemble(qp.spline, data=dict(zip(("splx", "sply", "spln"), rep))))
            pdf = np.stack([flt(r["pdf"]) for r in want])
            cdf = np.stack([flt(r["cdf"]) for r in want])
            for how, ens in enumerate(made[: 1 + rows % 2 * 2]):
                ctx.close(np.asarray(ens.pdf(xs)) * scale, pdf, "pdf is the normalised polynomial", rtol=1e-6, atol=1e-7, how=how, **info)
                lower = np.min(xvals)
                ctx.close(ens.cdf(xs), cdf, "cdf is the integral from the lower end", rtol=1e-6, atol=1e-6, how=how, **info)
                ends = np.asarray(ens.cdf(xvals[:, -1:]))
                ctx.close(ends, np.ones((rows, 1)), "integrates to one", rtol=1e-6, how=how, lower=lower, **info)
    orders(ctx)
    for i in range(ctx.n(25, 300)):
        rows = int(rng.choice([1, 2, 3]))
        size = int(rng.choice([30, 60, 200]))
        place = rng.uniform(-1, 1, size=(rows, 1)) * 0.5
        width = rng.choice([0.3, 0.6, 1.0], size=(rows, 1))
        samples = place + width * rng.standard_normal((rows, size))
        xvals = np.linspace(-5, 5, 71) if i % 2 else np.sort(np.concatenate([[-5, 5], rng.uniform(-5, 5, 50)]))
        if i % 3 == 0:
            samples, xvals = samples * 1e3, xvals * 1e3
        info = dict(seed_case=i, rows=rows, size=size)
        with ctx.case("spline from samples", **info):
            ens = qp.create("spline", dict(xvals=xvals, samples=samples), method="samples")
            other = qp.Ensemble(qp.spline_from_samples, data=dict(xvals=xvals, samples=samples))
            got = np.asarray(ens.pdf(xvals))
            ctx.close(other.pdf(xvals), got, "same through both ways", **info)
            ctx.close(ens.cdf(xvals[-1:]), np.ones((rows, 1)), "samples: integrates to one", rtol=1e-6, **info)
            for row in range(rows):
                kde = sps.gaussian_kde(samples[row])(xvals)
                ratio = got[row].max() / kde.max()
                ctx.close(got[row] / got[row].max(), kde / kde.max(), "proportional to the kernel estimate", rtol=1e-6, atol=1e-9, row=row, **info)
                # the points resolve the estimate only so far
                if width[row] > 0.5 and i % 2:
                    ctx.close(ratio, 1.0, "normalised kernel estimate", rtol=0.02, row=row, **info)
