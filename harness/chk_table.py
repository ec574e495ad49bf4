"""C26: values looked up in tables of rows

Tables of integers with queries (row, value) are evaluated exactly by TLC (QpTable.tla); the functions of
qp.utils are asked for them in every arrangement that they document: rows by values, a line of values for each
row, and flat lists of rows and values, of which some are products in disguise.
"""
from fractions import Fraction

import numpy as np

from common import flt, rat, rats

SCALES = [1.0, 1.0, 1.0, 1.0, 1.0, 2.0**-20, 0.1, 1e4, 1e-6]


def arrangement(rng, num, pool):
    """Rows and values in one of the arrangements: their arrays (as positions in the pool), and the queries"""
    kind = str(rng.choice(["product", "matrix", "flat", "factor", "scalar", "onerow", "onevalue"]))
    pick = lambda *shape: rng.integers(0, len(pool), shape)  # noqa: E731
    rows = int(rng.integers(1, num + 1))
    which = rng.permutation(num)[:rows] if rng.random() < 0.6 else rng.integers(0, num, rows)
    cols = int(rng.integers(1, 6))
    if kind == "product":
        xpos, row = pick(cols), which[:, None]
    elif kind == "matrix":
        xpos, row = pick(rows, cols), which[:, None]
        if rng.random() < 0.3:
            xpos = xpos[:1]
    elif kind == "flat":
        size = int(rng.integers(2, 13))
        xpos, row = pick(size), rng.integers(0, num, size)
        if rng.random() < 0.5:  # as many values as a product would have, not in its order
            xpos, row = np.tile(pick(cols), rows), np.repeat(which, cols)
            row = rng.permutation(row)
    elif kind == "factor":
        xpos, row = np.tile(pick(cols), rows), np.repeat(which, cols)
    elif kind == "scalar":
        xpos, row = pick(1)[0], which[0]
        xpos = np.asarray(xpos)
    elif kind == "onerow":
        xpos, row = pick(cols), which[0]
    else:
        xpos, row = pick(1), which
    full_x, full_row = np.broadcast_arrays(xpos, row)
    return kind, xpos, row, full_x.ravel(), full_row.ravel()


def tables(ctx, count):
    """Tables with queries"""
    rng = ctx.rng
    cases, more = [], []
    for _ in range(count):
        how = str(rng.choice(["step", "step", "line"]))
        one_e = bool(rng.random() < 0.4)
        one_c = how == "line" and not one_e and bool(rng.random() < 0.5)
        num = int(rng.integers(1, 7))
        size = int(rng.integers(2, 7))
        even = rng.random() < 0.45
        edges = []
        for _ in range(1 if one_e else num):
            wide = np.full(size, rng.integers(1, 4)) if even else rng.integers(1, 5, size)
            edges.append((int(rng.integers(-4, 4)) + np.concatenate([[0], np.cumsum(wide)])).tolist())
        if not one_e and num > 1 and rng.random() < 0.25:  # the same ends, and points of their own in between
            span = size + int(rng.integers(1, 6))
            edges = [[edges[0][0]] + sorted(edges[0][0] + 1 + rng.permutation(span - 1)[: size - 1]) + [edges[0][0] + span] for _ in edges]
            edges = [[int(e) for e in edge] for edge in edges]
        high = size if how == "step" else size + 1
        conts = rng.integers(-9, 10, (1 if one_c else num, high)).tolist()
        slopes = rng.integers(-5, 6, (num, high)).tolist() if how == "step" and rng.random() < 0.5 else np.zeros((num, high), int).tolist()
        fill = [0, 0] if rng.random() < 0.6 else rng.integers(-20, 20, 2).tolist()
        lows, highs = min(e[0] for e in edges), max(e[-1] for e in edges)
        # values between the points, at the points, and outside
        pool = [Fraction(int(v), 4) for v in rng.integers(4 * lows - 6, 4 * highs + 6, 5)]
        if rng.random() < 0.5:
            pool = [p if p.denominator > 1 else p + Fraction(1, 2) for p in pool]
        if rng.random() < 0.35:
            pool = [Fraction(int(p)) for p in pool]
        kind, xpos, row, full_x, full_row = arrangement(rng, num, pool)
        at = [[int(r) + 1, rat(pool[int(x)])] for r, x in zip(full_row, full_x)]
        cases.append(dict(op="table", how=how, e=edges, c=conts, d=slopes, fill=fill, at=at))
        more.append(dict(kind=kind, x=xpos, row=row, pool=pool, one_e=one_e, one_c=one_c))
    return cases, more


def warped(edges, xvals, row):
    """Bins that are a little wider with each step, and values very close to their edges

    Which bin a value is in does not change if the edges and the values are moved in the same order.
    """
    full_x, full_row = np.broadcast_arrays(np.asarray(xvals, float), row)
    moved = edges + 9e-6 * (edges - edges[:, 1:2]) * (edges > edges[:, 1:2])
    own = edges[full_row if len(edges) > 1 else 0 * full_row]
    far = full_x[..., None] - own
    near = np.argmin(np.abs(far), axis=-1)[..., None]
    off = np.take_along_axis(far, near, axis=-1)[..., 0]
    new = np.take_along_axis(moved[full_row if len(edges) > 1 else 0 * full_row], near, axis=-1)[..., 0] + 1e-6 * np.sign(off)
    if len(edges) > 1 and np.shape(new) != np.shape(xvals):
        return edges, xvals
    if np.shape(new) != np.shape(xvals):  # one line of values for all of the rows
        new = new[:1] if np.ndim(xvals) == 2 else new.reshape(-1, np.size(xvals))[0].reshape(np.shape(xvals))
    return moved, new


def look_up(ctx, cas, mor, want):
    """One table with one arrangement, at one scale"""
    utils = ctx.qp.utils
    rng = ctx.rng
    scale = float(rng.choice(SCALES))
    info = dict(case=cas, kind=mor["kind"], scale=scale)
    with ctx.case("looking up in tables", **info):
        edges = np.array(cas["e"], float) * scale
        conts = np.array(cas["c"], float)
        slopes = np.array(cas["d"], float) / scale
        xvals = np.array([float(p) for p in mor["pool"]])[mor["x"]] * scale
        if cas["how"] == "step" and scale == 1.0 and not np.any(slopes) and rng.random() < 0.5:
            edges, xvals = warped(edges, xvals, mor["row"])
        whole = scale == 1.0 and np.all(xvals == np.round(xvals))
        if whole and rng.random() < 0.5:
            xvals = xvals.astype(int)
        if scale == 1.0 and np.all(edges == np.round(edges)) and rng.random() < 0.3:
            edges = edges.astype(int)
        row = mor["row"]
        if cas["how"] == "step":
            derivs = slopes if np.any(slopes) else None
            if mor["one_e"]:
                got = utils.evaluate_hist_x_multi_y(xvals, row, edges[0], conts, derivs)
            else:
                got = utils.evaluate_hist_multi_x_multi_y(xvals, row, edges, conts, derivs)
        else:
            fill = tuple(cas["fill"]) if cas["fill"][0] != cas["fill"][1] else cas["fill"][0]
            kwds = dict(bounds_error=False, fill_value=fill)
            if mor["one_e"]:
                got = utils.interpolate_x_multi_y(xvals, row, edges[0], conts, **kwds)
            elif mor["one_c"]:
                got = utils.interpolate_multi_x_y(xvals, row, edges, conts[0], **kwds)
            else:
                got = utils.interpolate_multi_x_multi_y(xvals, row, edges, conts, **kwds)
        got = np.asarray(got, float)
        low, high = want[:, 0], want[:, 1]
        if not ctx.check(got.size == low.size, "one value for each query", got=got.shape, want=low.shape, **info):
            return
        # a value at the end of the lines may fall on either side of it at another scale
        ends = np.array([q[1] in ([e[0], 1], [e[-1], 1]) for q, e in ((q, cas["e"][0 if mor["one_e"] else q[0] - 1]) for q in cas["at"])])
        if cas["how"] == "line" and scale != 1.0:
            low = np.where(ends, np.minimum(low, min(cas["fill"])), low)
            high = np.where(ends, np.maximum(high, max(cas["fill"])), high)
        ctx.within(got.ravel(), low, high, "value of the own row", tol=1e-8, **info)


def profiles(ctx, count):
    """Means and spreads of data in bins"""
    rng = ctx.rng
    cases, more = [], []
    for _ in range(count):
        num = int(rng.integers(1, 7))
        wide = np.full(num, rng.integers(1, 4)) if rng.random() < 0.4 else rng.integers(1, 5, num)
        edges = (int(rng.integers(-4, 4)) + np.concatenate([[0], np.cumsum(wide)])).tolist()
        size = int(rng.integers(1, 25))
        xvals = [Fraction(int(2 * v + 1), 4) for v in rng.integers(2 * edges[0] - 4, 2 * edges[-1] + 4, size)]
        cases.append(dict(op="profile", e=edges, x=rats(xvals), y=rng.integers(-20, 21, size).tolist()))
        more.append(xvals)
    out = ctx.oracle(cases)
    for cas, xvals, want in zip(cases, more, out):
        scale = float(rng.choice(SCALES))
        with ctx.case("profile", case=cas, scale=scale):
            bins = np.array(cas["e"], float) * scale
            xarr = np.array([float(x) for x in xvals]) * scale
            base = float(rng.choice([0, 0, 1e7, -3e8]))
            yarr = np.array(cas["y"], float) + base
            num = np.array([w["n"] for w in want])
            mean = base + np.where(num > 0, [w["mean"][0] / w["mean"][1] for w in want], np.nan)
            var = np.where(num > 0, [w["var"][0] / w["var"][1] for w in want], np.nan)
            got = ctx.qp.utils.profile(xarr, yarr, bins)
            err = ctx.qp.utils.profile(xarr, yarr, bins, std=False)
            info = dict(case=cas, scale=scale, base=base)
            ctx.close(got[0], mean, "mean in the bins of a profile", 1e-9, 1e-9, **info)
            ctx.close(err[0], mean, "mean in the bins of a profile", 1e-9, 1e-9, **info)
            tol = 1e-4 if base else 1e-8
            ctx.close(np.square(got[1]), var, "spread in the bins of a profile", tol, tol, **info)
            ctx.close(np.square(err[1]), var / np.maximum(num, 1), "error of the mean in the bins of a profile", tol, tol, **info)
            cents = ctx.qp.utils.edge_to_center(bins)
            ctx.close(cents, 0.5 * (bins[1:] + bins[:-1]), "centres of the bins", 1e-12, 0, **info)
            ctx.close(ctx.qp.utils.bin_widths(bins), bins[1:] - bins[:-1], "widths of the bins", 1e-12, 0, **info)
            idx, mask = ctx.qp.utils.get_bin_indices(bins, xarr)
            inside = (xarr > bins[0]) & (xarr < bins[-1])
            ctx.same(np.asarray(mask, bool), inside, "which values are in the bins", **info)
            ctx.check(np.all((idx >= 0) & (idx < len(want))), "positions are those of bins", **info)
            where = np.searchsorted(bins, xarr[inside]) - 1
            ctx.same(np.asarray(idx)[inside], where, "which bin the values are in", **info)


def normalised(ctx, count):
    """Rows of points brought to an integral of one"""
    rng = ctx.rng
    for _ in range(count):
        num, size = int(rng.integers(1, 5)), int(rng.integers(2, 8))
        xvals = np.cumsum(rng.uniform(0.1, 2, (num, size)), axis=1) * float(rng.choice(SCALES))
        yvals = rng.uniform(0, 3, (num, size)) * 10.0 ** rng.integers(-5, 6, (num, 1))
        with ctx.case("normalised tables"):
            got = np.asarray(ctx.qp.utils.normalize_interp1d(xvals, yvals))
            area = [np.trapezoid(g, x) if hasattr(np, "trapezoid") else np.trapz(g, x) for g, x in zip(got, xvals)]
            ctx.close(np.array(area), np.ones(num), "normalised rows integrate to one", 1e-9, 0, x=xvals, y=yvals)
            ctx.close(got / got.sum(axis=1, keepdims=True), yvals / yvals.sum(axis=1, keepdims=True), "normalised rows keep their shape", 1e-9, 1e-12)


def run_c26(ctx):
    """Tables"""
    ctx.assumptions += ["interpolation is linear; cubic interpolation of the same functions is scipy's"]
    cases, more = tables(ctx, ctx.n(2000, 15000))
    for cas, mor, out in zip(cases, more, ctx.oracle(cases)):
        look_up(ctx, cas, mor, flt(out))
        if len(ctx.violations) > 6:
            return
    ctx.sample(cases[0])
    profiles(ctx, ctx.n(120, 1500))
    normalised(ctx, ctx.n(60, 600))
