"""C17 to C20: the metrics

QpMetrics.tla is the machine of accumulating over chunks by workers; its behaviours are replayed with the real
metrics.  QpStat.tla defines what every metric is in exact rational arithmetic, and TLC gives the values for
seeded cases on lattices, where the code has to agree.
"""
import os
import pickle
from fractions import Fraction

import numpy as np
from scipy.stats import norm

import reps
from common import flt, rats, snapshot, unchanged

CFG = """SPECIFICATION Spec
INVARIANTS SameMean SameBag Untouched
CONSTANTS
N = %d
W = %d
K = %d
Emit = %s
MUT = "%s"
"""
MUTS = ("single", "overlap", "inplace", "means", "last")


# ---------------------------------------------------------------------------
# data on lattices
def point_data(rng, num):
    """Estimates and references as fractions: the residuals have small denominators"""
    ref = [Fraction(int(r)) - 1 for r in rng.choice([1, 2, 4, 5], size=num)]
    if rng.random() < 0.5:
        ref = [r * Fraction(1, 2) + Fraction(1, 2) for r in ref]
    den = int(rng.choice([20, 50, 100]))
    style = rng.integers(5)
    if style == 0:  # with outliers
        res = np.round(rng.standard_t(1.5, num) * den * 0.05)
    elif style == 1:  # many ties
        res = rng.integers(-2, 3, num)
    elif style == 2:  # around the cut of 0.06
        res = np.round(rng.normal(0, 0.01, num) * den) + np.where(rng.random(num) < 0.3, round(0.06 * den), 0) * rng.choice([-1, 1], num)
    elif style == 3:  # ordered
        res = np.sort(rng.integers(-den, den, num))
    else:
        res = rng.integers(-den // 4, den // 2, num)
    ez = [Fraction(int(np.clip(r, -3 * den, 3 * den)), den) for r in res]
    return [e * (1 + r) + r for e, r in zip(ez, ref)], ref


def hist_rows(rng, num, positive=False):
    """Edges, counts of histograms"""
    bins = int(rng.integers(2, 6))
    edges = np.concatenate([[0], np.cumsum(rng.choice([1, 1, 1, 2], bins))]) + int(rng.integers(-1, 2))
    counts = rng.integers(1 if positive else 0, 6, (num, bins))
    counts[:, rng.integers(bins)] += 1
    return edges, counts


def hist_ens(ctx, edges, counts):
    """Ensemble of histograms"""
    return ctx.qp.Ensemble(ctx.qp.hist, data=dict(bins=np.array(edges, float), pdfs=np.array(counts, float)))


def grid_params(rng, edges):
    """Limits and number of points of a grid that does not touch an edge"""
    start, step = [(Fraction(1, 4), Fraction(1, 2)), (Fraction(1, 6), Fraction(1, 3)), (Fraction(1, 2), Fraction(1)), (Fraction(1, 6), Fraction(2, 3))][
        rng.integers(4)
    ]
    num = int(rng.integers(3, 10))
    low = int(edges[0]) + int(rng.integers(-1, 3)) + start
    return low, low + step * (num - 1), num


def spacing(low, high, num):
    """A resolution that gives the number of points"""
    return float(high - low) / (num + 0.5)


def truths(rng, low, high, num, tie=False):
    """True values between the limits"""
    den = 2 if tie else 7
    out = [low + (high - low) * Fraction(int(rng.integers(0, 8 * den + 1)), 8 * den) for _ in range(num)]
    if rng.random() < 0.3:
        out[0] = low
        out[-1] = high
    return out


def floats(fracs):
    """Floats of fractions"""
    return np.array([float(f) for f in fracs])


# ---------------------------------------------------------------------------
# C17
def behaviours(ctx):
    """Partitions, workers and orders"""
    ctx.tlc("QpMetrics", CFG % (ctx.n(4, 5), 2, 5, "FALSE", ""))
    for mut in MUTS[ctx.seed % 5 :][:1] if ctx.quick else MUTS:
        ctx.tlc("QpMetrics", CFG % (3, 2, 3, "FALSE", mut), refute=True)
    out = ctx.tlc("QpMetrics", CFG % (3, 2, 3, "TRUE", ""), count=False)
    small = [out[i] for i in ctx.rng.permutation(len(out))[: ctx.n(30, 400)]]
    sims = ctx.tlc("QpMetrics", CFG % (22, 4, 22, "TRUE", ""), sim=ctx.n(40, 500), depth=90)
    sims += ctx.tlc("QpMetrics", CFG % (24, 3, 4, "TRUE", ""), sim=ctx.n(40, 500), depth=90, seed=ctx.seed + 41)
    sims += ctx.tlc("QpMetrics", CFG % (9, 3, 1, "TRUE", ""), sim=ctx.n(10, 60), depth=90, seed=ctx.seed + 42)
    return small + sims


def ranges(cuts):
    """Start and end of every chunk"""
    ends = np.cumsum(cuts)
    return list(zip([0] + ends[:-1].tolist(), ends.tolist()))


def run_parts(make, chunks, beh, send):
    """The behaviour with a metric: every worker has its own; the parts are sent and finalised"""
    workers = {w: make() for w in set(beh["own"])}
    for met in workers.values():
        met.initialize()
    parts = []
    for act in beh["acc"]:
        part = workers[act["w"]].accumulate(*chunks[act["k"] - 1])
        parts.append(part)
    parts = [send(parts[j - 1]) for j in beh["got"]]
    boss = workers[beh["own"][beh["got"][0] - 1]]
    return boss.finalize(parts)


def senders(rng):
    """Ways in which a part is passed on"""
    return [lambda p: p, lambda p: pickle.loads(pickle.dumps(p)), lambda p: np.array(p)][rng.integers(3)]


def points_c17(ctx, behs):
    """Point statistics over chunks, against the specification"""
    met = ctx.qp.metrics
    rng = ctx.rng
    cases = []
    for beh in behs:
        est, ref = point_data(rng, beh["n"])
        cases.append(dict(op="point", est=rats(est), ref=rats(ref), beh=beh, e=est, r=ref))
    wants = ctx.oracle([{k: c[k] for k in ("op", "est", "ref")} for c in cases])
    for cas, want in zip(cases, wants):
        est, ref, beh = floats(cas["e"]), floats(cas["r"]), cas["beh"]
        keep = snapshot([est, ref])
        chunks = [(est[i:j], ref[i:j]) for i, j in ranges(beh["cuts"])]
        send = senders(rng)
        nbin = int(rng.choice([5000, 20001]))
        info = dict(est=est, ref=ref, behaviour=beh)
        res = (est - ref) / (1 + ref)
        span = np.ptp(res)
        free = np.unique(np.round(res, 9)).size == res.size
        for name, key, tol in (("point_bias", "dbias", 1e-9), ("point_stats_iqr", "diqr", 1e-9), ("point_stats_sigma_mad", "dmad", 1e-9 + 3 * span / nbin), ("point_outlier_rate", "dout", 1e-9)):
            kwargs = dict(num_bins=nbin) if "mad" in name else {}
            if rng.random() < 0.3:
                kwargs["tdigest_compression"] = int(rng.choice([200, 2000]))

            def make():
                return met.create_metric(name, **kwargs)  # noqa: B023

            with ctx.case("accumulation of " + name, **info):
                got = float(run_parts(make, chunks, beh, send))
                low, high = (np.array(want[key]) / beh["n"]) if key == "dout" else flt(want[key])
                ctx.within(got, low, high, "%s over chunks" % name, tol=tol, **info)
                # all of the data in one part give the same
                one = make()
                whole = float(one.finalize([one.accumulate(est, ref)]))
                if free:  # equal values of different chunks may be kept together or not
                    ctx.close(got, whole, "%s depends on the chunks" % name, atol=1e-9, **info)
                turn = make()
                itr = turn.eval_from_iterator((c[0] for c in chunks), (c[1] for c in chunks))
                ctx.within(float(itr), low, high, "%s from iterators" % name, tol=tol, **info)
                if free:
                    ctx.close(float(itr), whole, "%s from iterators" % name, atol=1e-9, **info)
        ctx.check(unchanged([est, ref], keep), "data changed by accumulating", **info)
        ctx.traces += 1
    ctx.sample(dict(point=cases[0]["beh"], want=wants[0]))


def many_points(ctx):
    """More points than the digest keeps"""
    met = ctx.qp.metrics
    rng = ctx.rng
    sizes = ((3000, 1000), (4000, 300)) if ctx.quick else ((3000, 1000), (20000, 1000), (9000, 300), (6000, 2000))
    for num, comp, tied in [(*s, t) for s in sizes for t in (False, True)]:
        ref = rng.uniform(0, 3, num)
        est = ref + 0.05 * (1 + ref) * rng.standard_t(2.5, num) + 0.02
        if tied:
            # few different values, each of them many times
            ref = np.zeros(num)
            est = np.round(0.05 * rng.standard_t(2.5, num) + 0.02, 2)
        ez = np.sort((est - ref) / (1 + ref))
        order = np.argsort(est) if rng.random() < 0.5 else rng.permutation(num)
        est, ref = est[order], ref[order]
        cuts = np.sort(rng.choice(np.arange(1, num), size=int(rng.integers(2, 9)), replace=False))
        chunks = list(zip(np.split(est, cuts), np.split(ref, cuts)))
        chunks = [chunks[i] for i in rng.permutation(len(chunks))]
        slack = int(np.ceil(num * 6.0 / comp)) + 3

        def between(arr, q, m=1):
            pos = int(q * len(arr))
            low, high = arr[max(0, pos - m * slack)], arr[min(len(arr) - 1, pos + m * slack)]  # noqa: B023
            # between equal values that are kept together, up to the next ones
            return (low - 0.0101, high + 0.0101) if tied else (low, high)  # noqa: B023

        info = dict(num=num, compression=comp, chunks=[len(c[0]) for c in chunks])
        b25, b50, b75 = (between(ez, q) for q in (0.25, 0.5, 0.75))
        iqr = np.array([b75[0] - b25[1], b75[1] - b25[0]]) / 1.349
        cut = np.maximum(0.06, 3 * iqr)
        mad = between(np.sort(np.abs(ez - np.median(ez))), 0.5, 2)
        out = [np.sum(np.abs(ez) > c) / num for c in cut]
        wants = dict(
            point_bias=b50,
            point_stats_iqr=iqr,
            point_stats_sigma_mad=(1.4826 * (mad[0] - (b50[1] - b50[0])), 1.4826 * (mad[1] + b50[1] - b50[0])),
            point_outlier_rate=(out[1] - 4 * slack / num, out[0] + 4 * slack / num),
        )
        for name, (low, high) in wants.items():
            with ctx.case("accumulation of many points for " + name, **info):
                one = met.create_metric(name, tdigest_compression=comp)
                got = float(one.finalize([one.accumulate(e, r) for e, r in chunks]))
                ctx.within(got, low, high, "%s of many points" % name, tol=1e-3 if "mad" in name else 1e-9, **info)
        ctx.traces += 1


def many_pits(ctx):
    """Chunks of more PIT values than the digest keeps, in an order that has a pattern"""
    qp = ctx.qp
    rng = ctx.rng
    sizes = ((9000, 1000), (3000, 200)) if ctx.quick else ((9000, 1000), (3000, 200), (5000, 400), (20000, 1000), (12000, 2000), (4000, 100))
    for num, comp in sizes:
        period = int(rng.integers(2, 6))
        loc, scale = rng.uniform(-1, 1, num), rng.uniform(0.5, 2, num)
        # the law of the values goes with the place in the order
        want = (np.arange(num) % period + rng.uniform(0.05, 0.9, num)) / period
        if rng.random() < 0.5:
            want = np.clip(want**1.5 * np.linspace(1, 0.7, num), 1e-6, 1 - 1e-6)
        tru = norm.ppf(want, loc, scale)
        samp = np.sort(norm.cdf(tru, loc, scale))
        cuts = [] if rng.random() < 0.5 else [int(rng.integers(num // 20, num // 4))]
        parts = np.split(np.arange(num), cuts)
        slack = int(np.ceil(num * 6.0 / comp)) + 3
        info = dict(num=num, compression=comp, period=period, cuts=cuts)
        with ctx.case("accumulation of many PIT values", **info):
            one = qp.metrics.create_metric("pit", eval_grid=np.linspace(0, 1, 41), tdigest_compression=comp)
            got = one.finalize([one.accumulate(qp.Ensemble(qp.stats.norm, data=dict(loc=loc[i][:, None], scale=scale[i][:, None])), tru[i]) for i in parts])
            quants, locs = law_of(got)
            ctx.check(np.sum((quants > 0) & (quants < 1)) > 30, "quantiles of many PIT values", number=quants.size, **info)
            inner = (quants > 0) & (quants < 1) & (locs > 0) & (locs < 1)
            pos = quants[inner] * num
            low = samp[np.maximum(0, np.floor(pos - slack)).astype(int)]
            high = samp[np.minimum(num - 1, np.ceil(pos + slack)).astype(int)]
            ctx.within(locs[inner], low, high, "quantiles of many PIT values are those of all of them", tol=1e-9, quants=quants[inner], **info)
        ctx.traces += 1


def sums_c17(ctx, behs):
    """Brier score, CDE loss and PIT over chunks against the specification"""
    met = ctx.qp.metrics
    rng = ctx.rng
    cases, extra = [], []
    for beh in behs:
        num = beh["n"]
        edges, counts = hist_rows(rng, num)
        low, high, pts = grid_params(rng, edges)
        tru = truths(rng, low, high, num)
        cases.append(dict(op="metric", lo=rats([low])[0], hi=rats([high])[0], m=pts, e=edges, c=counts, t=rats(tru)))
        extra.append((edges, counts, low, high, pts, tru, beh))
    wants = ctx.oracle(cases)
    pits, pextra = [], []
    for (edges, counts, low, high, pts, tru, beh), want in zip(extra, wants):
        tval = floats(tru)
        info = dict(edges=edges, counts=counts, limits=[float(low), float(high)], points=pts, truth=tval, behaviour=beh)
        with ctx.case("accumulation of sums", **info):
            ens = hist_ens(ctx, edges, counts)
            keep = snapshot([ens.objdata(), tval])
            chunks = [(ens[i:j], tval[i:j]) for i, j in ranges(beh["cuts"])]
            send = senders(rng)
            lims = (float(low), float(high))
            make = lambda: met.create_metric("brier", limits=lims, dx=spacing(low, high, pts))  # noqa: E731,B023
            got = run_parts(make, chunks, beh, send)
            brier = np.sort([flt(w["brier"]) for w in want], axis=1)
            ctx.within(float(got), brier[:, 0].mean(), brier[:, 1].mean(), "Brier score over chunks", **info)
            ctx.close(float(make().evaluate(ens, tval)), float(got), "Brier score over chunks and of all data", **info)
            grid = np.linspace(float(low), float(high), pts)
            make = lambda: met.create_metric("cdeloss", eval_grid=grid)  # noqa: E731,B023
            got = run_parts(make, chunks, beh, send)
            whole = float(make().evaluate(ens, tval))
            cde = np.array([[w["cde"][0][0] / w["cde"][0][1], w["cde"][1][0] / w["cde"][1][1]] for w in want])
            dist = np.sort(np.abs(grid[:, None] - tval), axis=0)
            if np.all(dist[1] - dist[0] > 1e-9):  # a truth between two points may go to any of the two
                ctx.close(float(got), (cde[:, 0] - 2 * cde[:, 1]).mean(), "CDE loss over chunks", **info)
            ctx.close(whole, float(got), "CDE loss over chunks and of all data", **info)
            ctx.check(unchanged([ens.objdata(), tval], keep), "data changed by accumulating", **info)
        ctx.traces += 1
        inner = truths(rng, Fraction(int(edges[0])), Fraction(int(edges[-1])), beh["n"], tie=True)
        if beh["n"] >= 6:
            count = int(rng.integers(3, 10))
            qgrid = [Fraction(i, count) for i in range(count + 1)] if beh["n"] >= count + 1 else [Fraction(i, beh["n"] - 1) for i in range(beh["n"])]
            pits.append(dict(op="pit", e=edges, c=counts, t=rats(inner), g=rats(qgrid)))
            pextra.append((edges, counts, inner, qgrid, beh, count))
    for (edges, counts, tru, qgrid, beh, count), want in zip(pextra, ctx.oracle(pits)):
        samp = flt(want["samp"])
        if np.unique(samp[(samp > 0) & (samp < 1)]).size < 4:
            continue
        tval = floats(tru)
        info = dict(edges=edges, counts=counts, truth=tval, grid=floats(qgrid), behaviour=beh)
        with ctx.case("accumulation of PIT", **info):
            ens = hist_ens(ctx, edges, counts)
            keep = snapshot([ens.objdata(), tval])
            chunks = [(ens[i:j], tval[i:j]) for i, j in ranges(beh["cuts"])]
            make = lambda: met.create_metric("pit", eval_grid=np.linspace(0, 1, count + 1))  # noqa: E731,B023
            got = run_parts(make, chunks, beh, senders(rng))
            one = make()
            whole = one.finalize([one.accumulate(ens, tval)])
            check_pit_bounds(ctx, got, floats(qgrid), flt(want["brack"]), info)
            ctx.check(got.npdf == 1, "PIT over chunks is one distribution", **info)
            if np.unique(np.round(samp, 9)).size == samp.size:
                same_law(ctx, got, whole, "PIT depends on the chunks", info)
            ctx.check(unchanged([ens.objdata(), tval], keep), "data changed by accumulating", **info)
        ctx.traces += 1


def law_of(ens):
    """Knots of a quantile distribution"""
    return np.ravel(ens.metadata()["quants"]).astype(float), np.ravel(ens.objdata()["locs"]).astype(float)


def same_law(ctx, got, want, clause, info):
    """Two quantile distributions of the same knots"""
    one, two = law_of(got), law_of(want)
    if ctx.check(one[0].shape == two[0].shape, clause + ": knots", got=one, want=two, **info):
        ctx.close(one[0], two[0], clause + ": quantiles", **info)
        ctx.close(one[1], two[1], clause + ": locations", **info)


def check_pit_bounds(ctx, ens, grid, brack, info):
    """Every knot of the PIT within the neighbouring samples"""
    quants, locs = law_of(ens)
    for qua, loc in zip(quants, locs):
        near = int(np.argmin(np.abs(grid - qua)))
        if (qua < 1e-9 and brack[0][0] < 1e-9) or (qua > 1 - 1e-9 and brack[-1][1] > 1 - 1e-9):
            continue  # may be an end that the representation adds
        if not ctx.check(abs(grid[near] - qua) < 1e-9, "PIT over chunks: its quantiles", got=quants, want=grid, **info):
            return
        ctx.within(loc, brack[near][0], brack[near][1], "PIT over chunks: a quantile", **info)
    # no quantile is left out but for the ones outside of (0, 1) and repeated ones
    low = [b for b in brack if b[0] > 1e-9 and b[1] < 1 - 1e-9]
    uniq = sum(1 for i, b in enumerate(low) if i == 0 or b[0] > low[i - 1][1] + 1e-9)
    ctx.check(len(quants) >= uniq, "PIT over chunks: quantiles missing", got=quants, want=grid, **info)


def families_c17(ctx, behs):
    """All representations, chunks of ensembles and of files"""
    met = ctx.qp.metrics
    rng = ctx.rng
    for num, fam in enumerate(reps.families(ctx.qp)):
        mine = behs[num :: 15][: ctx.n(4, 40)]
        for k, beh in enumerate(mine):
            rows = rng.integers(1, 40, beh["n"])
            meta = 1 + (k % 2 if fam.two else 0)
            info = dict(representation=fam.label, rows=rows, behaviour=beh)
            with ctx.case("accumulation for %s" % fam.label, **info):
                ens = fam.build(rows, meta)
                pts = fam.points()
                inner = pts[(pts > 0) & (pts < 3)]
                tval = rng.choice(inner, beh["n"]) + 0.01 * rng.random(beh["n"])
                keep = snapshot([ens.objdata(), tval])
                if k % 2 == 0:
                    chunks = [(ens[i:j], tval[i:j]) for i, j in ranges(beh["cuts"])]
                    use = beh
                else:  # chunks of a file, two readers
                    path = os.path.join(ctx.scratch, "metric.hdf5")
                    ens.write_to(path)
                    size = max(beh["cuts"])
                    chunks, own = [], []
                    for rank in range(2):
                        for i, j, part in ctx.qp.iterator(path, chunk_size=size, rank=rank, parallel_size=2):
                            chunks.append((part, tval[i:j]))
                            own.append(rank)
                    use = dict(own=own, acc=[dict(w=w, k=i + 1) for i, w in enumerate(own)], got=[int(i) + 1 for i in rng.permutation(len(own))])
                    use["acc"] = [use["acc"][i] for i in rng.permutation(len(own))]
                for name, kwargs in (
                    ("brier", dict(limits=(0.05, 3.3), dx=0.21)),
                    ("cdeloss", dict(eval_grid=np.linspace(0.2, 2.7, 31))),
                ):
                    make = lambda: met.create_metric(name, **kwargs)  # noqa: E731,B023
                    got = float(run_parts(make, chunks, use, senders(rng)))
                    ctx.close(got, float(make().evaluate(ens, tval)), "%s over chunks of %s" % (name, fam.label), atol=1e-8, rtol=1e-8, **info)
                samp = np.sort([float(ens.cdf(tval[:, None])[i, 0]) for i in range(beh["n"])])
                if np.unique(np.round(samp[(samp > 0) & (samp < 1)], 9)).size > 5:
                    count = 5
                    make = lambda: met.create_metric("pit", eval_grid=np.linspace(0, 1, count))  # noqa: E731,B023
                    got = run_parts(make, chunks, use, senders(rng))
                    bra = []
                    for q in np.linspace(0, 1, count):
                        at = int(np.floor(q * len(samp) + 1e-9))
                        bra.append([samp[max(0, min(len(samp) - 1, at - 2))], samp[min(len(samp) - 1, at + 2)]])
                    if np.unique(np.round(samp, 9)).size == samp.size:
                        check_pit_bounds(ctx, got, np.linspace(0, 1, count), np.array(bra), info)
                ctx.check(unchanged([ens.objdata(), tval], keep), "data of %s changed by accumulating" % fam.label, **info)
            ctx.traces += 1


def run_c17(ctx):
    """Metrics over chunks"""
    behs = behaviours(ctx)
    ctx.detail["behaviours"] = len(behs)
    ctx.assumptions += [
        "digests: equal values are kept together, so a quantile lies between the different values next to its rank",
        "workers are interleaved in one process; parts are passed on as they are, copied as arrays, or pickled",
    ]
    points_c17(ctx, behs)
    many_points(ctx)
    many_pits(ctx)
    sums_c17(ctx, behs[:: ctx.n(2, 1)])
    families_c17(ctx, [b for b in behs if b["n"] > 1])


# ---------------------------------------------------------------------------
# C18
EPS = np.finfo(float).eps


def safelog(arr):
    """Logarithm for the defining sum, where zero has no weight or counts as epsilon"""
    return np.log(np.maximum(arr, EPS))


def kld_agree(ctx, func, est, ref, want, clause, info):
    """Values of the divergence, up to what is listed as a finding"""
    got, want = np.asarray(func(est, ref), float), np.asarray(want, float)
    if got.shape == want.shape and np.any(want < 1e-12) and np.allclose(got, EPS, rtol=1e-6, atol=0):
        # a negative value makes all of the values epsilon
        if not np.any(want < -1e-12) or ctx.known("negative-kld"):
            for i, val in enumerate(want):
                one = np.asarray(func(est[i], ref[i]), float)
                if val > 1e-12:
                    ctx.close(one, [val], clause + " alone", atol=1e-9, **info)
            return
    ctx.close(got, want, clause, atol=1e-9, **info)


def lattice_c18(ctx, total):
    """Histograms on grids against the specification"""
    met = ctx.qp.metrics
    rng = ctx.rng
    cases, extra = [], []
    for _ in range(total):
        num = int(rng.integers(1, 6))
        edges, counts = hist_rows(rng, num)
        fedges, other = hist_rows(rng, num, positive=rng.random() < 0.6)
        if rng.random() < 0.3:
            fedges, other = edges, np.array([rng.permutation(c) + (counts.min() == 0) for c in counts])
        low, high, pts = grid_params(rng, edges)
        tru = truths(rng, low, high, num, tie=rng.random() < 0.3)
        orders = [0, 1, 2, 3]
        ult = sorted(Fraction(int(x), 6) for x in rng.integers(6 * edges[0] - 3, 6 * edges[-1] + 4, 2))
        cases.append(
            dict(op="metric", lo=rats([low])[0], hi=rats([high])[0], m=pts, e=edges, c=counts, f=fedges, d=other, t=rats(tru), n=orders, ul=rats(ult))
        )
        extra.append((edges, counts, fedges, other, low, high, pts, tru, orders, ult))
    wants = ctx.oracle(cases)
    for (edges, counts, fedges, other, low, high, pts, tru, orders, ult), want in zip(extra, wants):
        lims = (float(low), float(high))
        step = spacing(low, high, pts)
        tval = floats(tru)
        info = dict(edges=edges, counts=counts, other=[fedges, other], limits=lims, points=pts, truth=tval)
        with ctx.case("metrics of histograms", **info):
            est, ref = hist_ens(ctx, edges, counts), hist_ens(ctx, fedges, other)
            if rng.random() < 0.3:  # what was cached before does not matter
                est.gridded(np.linspace(lims[0] - 1, lims[1], pts))
                ref.gridded(np.linspace(lims[0], lims[1] + 1, pts))
            keep = snapshot([est.objdata(), ref.objdata(), tval])
            direct = rng.random() < 0.5
            for i, order in enumerate(orders):
                val = met.calculate_moment(est, order, lims, step) if direct else met.MomentMetric(moment_order=order, limits=lims, dx=step).evaluate(est)
                ctx.close(val, flt([w["mom"][i] for w in want]), "moment on a grid", order=order, **info)
            val = met.calculate_rmse(est, ref, lims, step) if direct else met.RMSEMetric(limits=lims, dx=step).evaluate(est, ref)
            ctx.close(val, np.sqrt(flt([w["rmse2"] for w in want])), "RMSE on a grid", **info)
            terms = [[[x[0] / x[1] for x in t] for t in w["kld"]] for w in want]
            kld = [sum(t[0] * (safelog(t[1]) - safelog(t[2])) for t in row if t[1] > 0) for row in terms]
            func = (lambda p, q: met.calculate_kld(p, q, lims, step)) if direct else met.KLDMetric(limits=lims, dx=step).evaluate  # noqa: B023
            kld_agree(ctx, func, est, ref, kld, "Kullback-Leibler divergence on a grid", info)
            val = met.calculate_brier(est, tval, lims, step) if direct else met.BrierMetric(limits=lims, dx=step).evaluate(est, tval)
            bri = np.sort([flt(w["brier"]) for w in want], axis=1)
            ctx.within(float(val), bri[:, 0].mean(), bri[:, 1].mean(), "Brier score on a grid", **info)
            grid = np.linspace(lims[0], lims[1], pts)
            val = met.CDELossMetric(eval_grid=grid).evaluate(est, tval)
            dist = np.sort(np.abs(grid[:, None] - tval), axis=0)
            if np.all(dist[1] - dist[0] > 1e-9):
                cde = np.array([flt(w["cde"]) for w in want])
                ctx.close(float(val), (cde[:, 0] - 2 * cde[:, 1]).mean(), "CDE loss on a grid", **info)
            lim2 = [float(u) for u in ult]
            val = met.calculate_outlier_rate(est, *lim2) if direct else met.OutlierMetric(cdf_limits=tuple(lim2)).evaluate(est)
            ctx.close(val, flt([w["out"] for w in want]), "outlier rate", cdf_limits=lim2, **info)
            zero = met.calculate_rmse(est, hist_ens(ctx, edges, counts), lims, step)
            ctx.close(zero, np.zeros(len(counts)), "RMSE of identical ensembles", **info)
            zero = met.calculate_kld(est, hist_ens(ctx, edges, counts), lims, step)
            ctx.close(zero, np.zeros(len(counts)), "divergence of identical ensembles", **info)
            ctx.check(unchanged([est.objdata(), ref.objdata(), tval], keep), "data changed by a metric", **info)
        ctx.traces += 1
        refusals(ctx, est, ref, tval, lims, step, info)
    ctx.sample(dict(case=cases[0], want=wants[0]))


def refusals(ctx, est, ref, tval, lims, step, info):
    """What has to be refused"""
    met = ctx.qp.metrics
    more = ctx.qp.concatenate([ref, ref])
    if ctx.rng.random() < 0.3:
        pick = ctx.rng.integers(4)
        if pick == 0:
            ctx.refused(lambda: met.calculate_kld(est, more, lims, step), "divergence of ensembles of different sizes", **info)
            ctx.refused(lambda: met.KLDMetric(limits=lims, dx=step).evaluate(more, est), "divergence of ensembles of different sizes", **info)
        elif pick == 1:
            ctx.refused(lambda: met.calculate_rmse(est, more, lims, step), "RMSE of ensembles of different sizes", **info)
            ctx.refused(lambda: met.RMSEMetric(limits=lims, dx=step).evaluate(more, est), "RMSE of ensembles of different sizes", **info)
        elif pick == 2:
            bad = tval.copy()
            bad[ctx.rng.integers(len(bad))] = ctx.rng.choice([lims[0] - 0.01, lims[1] + 0.01, lims[1] + 7, lims[0] - 5])
            ctx.refused(lambda: met.calculate_brier(est, bad, lims, step), "Brier score of truths outside of the limits", bad=bad, **info)
            ctx.refused(lambda: met.BrierMetric(limits=lims, dx=step).accumulate(est, bad), "Brier score of truths outside of the limits", bad=bad, **info)
        else:
            bad = np.concatenate([tval, tval[:1]])
            ctx.refused(lambda: met.calculate_brier(est, bad, lims, step), "Brier score of too many truths", **info)
            if len(tval) > 1:
                ctx.refused(lambda: met.calculate_brier(est, tval[:-1], lims, step), "Brier score of too few truths", **info)


def families_c18(ctx):
    """All representations: the sums, and each distribution alone"""
    met = ctx.qp.metrics
    rng = ctx.rng
    for num, fam in enumerate(reps.families(ctx.qp)):
        for k in range(ctx.n(5, 60)):
            size = int(rng.integers(1, 6))
            rows = rng.integers(1, 60, size)
            others = rng.integers(1, 60, size)
            meta = 1 + (k % 2 if fam.two else 0)
            low = float(rng.uniform(0.11, 0.6))
            high = float(rng.uniform(2.0, 2.9))
            pts = int(rng.integers(2, 60))
            step = (high - low) / (pts + 0.5)
            grid = np.linspace(low, high, pts)
            res = grid[1] - grid[0]
            info = dict(representation=fam.label, rows=rows, others=others, limits=[low, high], points=pts)
            with ctx.case("metrics of %s" % fam.label, **info):
                est = fam.build(rows, meta)
                ofam = fam if rng.random() < 0.5 else reps.families(ctx.qp, [rng.choice(["norm", "mixmod", "gamma"])])[0]
                ref = ofam.build(others, 1)
                pdf = np.array([fam.build([r], meta).pdf(grid)[0] for r in rows])
                qdf = np.array([ofam.build([r], 1).pdf(grid)[0] for r in others])
                tval = rng.uniform(low, high, size)
                lims = (low, high)
                for order in (0, 1, 2, 4):
                    ctx.close(met.calculate_moment(est, order, lims, step), (pdf * grid**order).sum(axis=1) * res, "moment of %s" % fam.label, order=order, **info)
                ctx.close(met.calculate_rmse(est, ref, lims, step), np.sqrt(((pdf - qdf) ** 2).mean(axis=1)), "RMSE of %s" % fam.label, **info)
                if np.all(qdf >= 0) and np.all(pdf >= 0):
                    kld = res * (pdf * (safelog(pdf) - safelog(qdf))).sum(axis=1)
                    func = lambda p, q: met.calculate_kld(p, q, lims, step)  # noqa: E731,B023
                    kld_agree(ctx, func, est, ref, kld, "divergence of %s" % fam.label, info)
                # grids that are nearly the same, one after the other
                for lim, count in (((low, high), pts + 1), ((low, high + 1e-4), pts), ((low + 1e-4, high), pts + 1), (lims, pts)):
                    some = np.linspace(*lim, count)
                    ps, qs = (np.array([f.build([r], m).pdf(some)[0] for r in rr]) for f, m, rr in ((fam, meta, rows), (ofam, 1, others)))
                    dx = (lim[1] - lim[0]) / (count + 0.5)
                    ctx.close(met.calculate_rmse(est, ref, lim, dx), np.sqrt(((ps - qs) ** 2).mean(axis=1)), "RMSE of %s on a grid near to another" % fam.label, near=[lim, count], **info)
                    ctx.close(met.calculate_moment(est, 1, lim, dx), (ps * some).sum(axis=1) * (some[1] - some[0]), "moment of %s on a grid near to another" % fam.label, near=[lim, count], **info)
                near = np.argmin(np.abs(grid[:, None] - tval), axis=0)
                hot = np.zeros_like(pdf)
                hot[np.arange(size), near] = 1
                ctx.close(float(met.calculate_brier(est, tval, lims, step)), ((pdf - hot) ** 2).sum(axis=1).mean(), "Brier score of %s" % fam.label, rtol=1e-8, **info)
                cde = np.array([0.5 * ((p[1:] ** 2 + p[:-1] ** 2) * np.diff(grid)).sum() - 2 * p[i] for p, i in zip(pdf, near)])
                ctx.close(float(met.CDELossMetric(eval_grid=grid).evaluate(est, tval)), cde.mean(), "CDE loss of %s" % fam.label, rtol=1e-8, **info)
                ult = np.sort(rng.uniform(0.12, 2.8, 2))
                out = [met.calculate_outlier_rate(fam.build([r], meta), *ult) for r in rows]
                ctx.close(met.calculate_outlier_rate(est, *ult), np.concatenate(out), "outlier rate of %s alone" % fam.label, **info)
                cdf = np.array([fam.build([r], meta).cdf(ult)[0] for r in rows])
                ctx.close(met.calculate_outlier_rate(est, *ult), cdf[:, 0] + 1 - cdf[:, 1], "outlier rate of %s" % fam.label, **info)
                zero = met.calculate_kld(est, fam.build(rows, meta), lims, step)
                ctx.close(zero, np.zeros(size), "divergence of identical ensembles of %s" % fam.label, **info)
            ctx.traces += 1
    ctx.tlc("MCDist", count=False) if not ctx.quick else None


def risk_table(ens, grid, pdf_pts):
    """Expected loss at the points of the grid, and its arguments' slack"""
    low, high = ens.ppf(0.01)[0, 0], ens.ppf(0.99)[0, 0]
    zval = np.linspace(low, high, pdf_pts)
    pdf = ens.pdf(zval)[0]
    wgt = np.full(zval.size, zval[1] - zval[0])
    wgt[[0, -1]] *= 0.5
    arg = (grid[:, None] - zval) / (1 + zval)
    loss = 1 - 1 / (1 + (arg / 0.15) ** 2)
    return (loss * pdf * wgt).sum(axis=1)


def rbpe_c18(ctx):
    """Risk based point estimates"""
    met = ctx.qp.metrics
    rng = ctx.rng
    qp = ctx.qp
    for k in range(ctx.n(10, 150)):
        kind = k % 4
        size = 1 if kind == 3 else int(rng.integers(1, 4))
        loc = rng.uniform(0.3, 2.5, (size, 1))
        if kind == 0:
            ens = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=rng.uniform(0.02, 0.3, (size, 1))))
        elif kind == 1:
            ens = qp.Ensemble(qp.stats.gamma, data=dict(a=rng.uniform(2, 6, (size, 1)), loc=loc, scale=rng.uniform(0.03, 0.1, (size, 1))))
        elif kind == 2:
            ens = qp.Ensemble(qp.mixmod, data=dict(means=loc + rng.uniform(0, 0.2, (size, 2)), stds=rng.uniform(0.1, 0.2, (size, 2)), weights=rng.uniform(0.2, 1, (size, 2))))
        else:
            xval = np.linspace(0, 4, 6)
            ens = qp.Ensemble(qp.interp, data=dict(xvals=xval, yvals=0.02 * (xval > 0) + np.exp(-0.5 * ((xval - loc) / 0.7) ** 2)))
        bounded = k % 3 == 2
        info = dict(kind=kind, loc=loc, data={a: np.asarray(v)[:, :4] for a, v in ens.objdata().items()})
        with ctx.case("risk based point estimate", **info):
            lims = (float(loc.min() - 0.1), float(loc.max() + 0.7)) if bounded else (np.inf, np.inf)
            if bounded and rng.random() < 0.5:
                lims = (float(loc.max() + 0.4), float(loc.max() + 1.0))  # the best one is outside
            got = met.calculate_rbpe(ens, lims) if bounded else [met.calculate_rbpe(ens), met.RBPEMetric().evaluate(ens)][k % 2]
            got = np.asarray(got, float)
            ctx.check(got.shape == (size,), "one estimate for each distribution", got=got.shape, **info)
            for i in range(size):
                one = ens[i]
                grid = np.linspace(lims[0], lims[1], 241) if bounded else np.linspace(-0.2, 4.5, 471)
                tab = risk_table(one, grid, 1501)
                down = np.sign(np.diff(tab))
                turns = np.sum((down[1:] > 0) & (down[:-1] < 0))
                if turns > 1:
                    continue  # several minima: any of them is what a local search finds
                val = risk_table(one, got[i : i + 1], 1501)[0]
                if bounded:
                    ctx.check(lims[0] - 1e-9 <= got[i] <= lims[1] + 1e-9, "the estimate lies in the limits", got=got[i], limits=lims, **info)
                ctx.check(val <= tab.min() + 2e-4 + 1e-3 * abs(tab.min()), "the estimate has the lowest risk", row=i, got=[got[i], val], best=[grid[tab.argmin()], tab.min()], limits=lims, **info)
                if size == 1 or i > 0:
                    continue
                alone = met.calculate_rbpe(one, lims)
                ctx.close(alone, got[i : i + 1], "the estimate for a distribution alone", rtol=1e-6, atol=1e-6, **info)
        ctx.traces += 1


def run_c18(ctx):
    """Distribution metrics"""
    ctx.assumptions += [
        "a divergence is compared where the reference is positive",
        "the risk based point estimate is judged where the risk has a single minimum",
    ]
    lattice_c18(ctx, ctx.n(150, 2500))
    families_c18(ctx)
    rbpe_c18(ctx)


# ---------------------------------------------------------------------------
# C19
def textbook(kind, cdf):
    """Statistic of the sorted values of the cdf"""
    num = cdf.shape[-1]
    idx = np.arange(1, num + 1)
    if kind == "ks":
        return np.max(np.maximum(idx / num - cdf, cdf - (idx - 1) / num), axis=-1)
    if kind == "cvm":
        return 1 / (12 * num) + np.sum(((2 * idx - 1) / (2 * num) - cdf) ** 2, axis=-1)
    return -num - np.sum((2 * idx - 1) / num * (np.log(cdf) + np.log1p(-cdf[..., ::-1])), axis=-1)


def cvm_of(terms):
    """The statistic from its terms"""
    return 1 / (12 * len(terms)) + np.sum(flt(terms) ** 2)


def gof_c19(ctx, total):
    """Statistics of given samples against the specification"""
    met = ctx.qp.metrics
    rng = ctx.rng
    cases = []
    for _ in range(total):
        num = int(rng.integers(1, 5))
        refs = num if rng.random() < 0.6 else 1
        edges, counts = hist_rows(rng, refs, positive=True)
        many = int(rng.integers(1, 8))
        span = 6 * (edges[-1] - edges[0])
        samp = [[Fraction(int(x), 6) + int(edges[0]) for x in rng.integers(1, span, many)] for _ in range(num)]
        cases.append(dict(op="gof", e=edges, c=counts, x=[rats(s) for s in samp], samp=samp))
    wants = ctx.oracle([{k: c[k] for k in ("op", "e", "c", "x")} for c in cases])
    for cas, want in zip(cases, wants):
        data = np.array([floats(s) for s in cas["samp"]])
        info = dict(edges=cas["e"], counts=cas["c"], samples=data)
        with ctx.case("goodness of fit", **info):
            ref = hist_ens(ctx, cas["e"], cas["c"])
            keep = data.copy()
            for kind in ("ks", "cvm", "ad"):
                got = met.goodness_of_fit_metrics[kind](ref, data)
                if kind == "ad":
                    num = data.shape[1]
                    val = [-num + sum(c[0] / c[1] * np.log(f[0] / f[1]) for c, f in w["ad"]) for w in want]
                elif kind == "cvm":
                    val = [cvm_of(w["cvm"]) for w in want]
                else:
                    val = flt([w[kind] for w in want])
                ctx.close(got, val, "the %s statistic" % kind, **info)
            ctx.same(data, keep, "samples changed by a statistic", **info)
        ctx.traces += 1
    ctx.sample(dict(case=cases[0], want=wants[0]))


def fit_c19(ctx):
    """Statistics of drawn samples, all representations"""
    met = ctx.qp.metrics
    rng = ctx.rng
    fams = reps.families(ctx.qp)
    for num, fam in enumerate(fams):
        for k in range(ctx.n(4, 40)):
            size = int(rng.integers(1, 5))
            rows = rng.integers(1, 60, size)
            rfam = reps.families(ctx.qp, [["norm", "mixmod", "gamma", "hist", "interp"][(k + num) % 5]])[0]
            nref = size if rng.random() < 0.6 else 1
            refs = rng.integers(1, 60, nref)
            many = int(rng.choice([1, 2, 7, 40]))
            seed = 0 if k == 0 else int(rng.integers(0, 1000))
            info = dict(representation=fam.label, rows=rows, reference=rfam.label, refs=refs, num_samples=many, seed=seed)
            with ctx.case("goodness of fit of %s" % fam.label, **info):
                est, ref = fam.build(rows, 1), rfam.build(refs, 1)
                samp = np.sort(fam.build(rows, 1).rvs(size=many, random_state=seed), axis=1)
                ctx.check(samp.shape == (size, many), "shape of the samples", got=samp.shape, **info)
                cdf = np.array([rfam.build([refs[i if nref > 1 else 0]], 1).cdf(samp[i])[0] for i in range(size)])
                for kind, cls in (("ks", "KSMetric"), ("cvm", "CvMMetric"), ("ad", "ADMetric")):
                    if kind == "ad" and (np.any(cdf < 1e-6) or np.any(cdf > 1 - 1e-6)):
                        continue
                    if rng.random() < 0.5:
                        got = met.calculate_goodness_of_fit(est, ref, fit_metric=kind, num_samples=many, _random_state=seed)
                    else:
                        one = getattr(met, cls)(num_samples=many, _random_state=seed + 1)
                        one.random_state = seed
                        ctx.check(one.random_state == seed, "the random state of a metric", got=one.random_state)
                        got = one.evaluate(est, ref)
                    ctx.close(got, textbook(kind, cdf), "the %s statistic of samples" % kind, rtol=1e-7, atol=1e-8, **info)
                for bad in ("xyz", "KS", ""):
                    try:
                        met.calculate_goodness_of_fit(est, ref, fit_metric=bad)
                        ctx.fail("an unknown statistic is not refused", name=bad)
                    except KeyError:
                        ctx.comparisons += 1
            ctx.traces += 1


def pit_c19(ctx, total):
    """PIT against the specification"""
    from scipy import stats

    met = ctx.qp.metrics
    rng = ctx.rng
    cases = []
    for _ in range(total):
        num = int(rng.integers(5, 14))
        single = rng.random() < 0.2
        edges, counts = hist_rows(rng, 1 if single else num)
        tru = truths(rng, Fraction(int(edges[0])), Fraction(int(edges[-1])), num, tie=True)
        if rng.random() < 0.3:
            tru[int(rng.integers(num))] = Fraction(int(edges[-1]) + 2)
            tru[int(rng.integers(num))] = Fraction(int(edges[0]) - 1)
        count = int(rng.integers(3, 9))
        style = rng.integers(3)
        if num < count + 1:
            grid = [Fraction(i, num - 1) for i in range(num)]
            given = np.linspace(0, 1, count + 1)
        elif style == 0:
            grid = [Fraction(i, count) for i in range(count + 1)]
            given = floats(grid)
        elif style == 1:
            grid = sorted({Fraction(int(x), 20) for x in rng.integers(1, 20, count)})
            given = floats(grid)
        else:
            grid = [Fraction(1, 10), Fraction(1, 2), Fraction(9, 10)]
            given = [0.1, 0.5, 0.9]
        full = np.repeat(counts, num, axis=0) if single else counts
        cases.append(dict(op="pit", e=edges, c=full, t=rats(tru), g=rats(grid), counts=counts, tru=tru, grid=grid, given=given))
    wants = ctx.oracle([{k: c[k] for k in ("op", "e", "c", "t", "g")} for c in cases])
    from qp.metrics.pit import PIT

    for cas, want in zip(cases, wants):
        samp = flt(want["samp"])
        tval = floats(cas["tru"])
        info = dict(edges=cas["e"], counts=cas["counts"], truth=tval, grid=cas["given"])
        quant = flt(want["quant"])
        pairs = {}
        for q, v in zip(floats(cas["grid"]), quant):
            if 1e-12 < v < 1 - 1e-12:
                pairs.setdefault(round(float(v), 10), []).append(q)
        if len(pairs) < 3:
            continue
        with ctx.case("PIT", **info):
            ens = hist_ens(ctx, cas["e"], cas["counts"])
            arg = [tval, tval.tolist(), tuple(tval)][rng.integers(3)]
            pit = PIT(ens, arg, cas["given"])
            ctx.close(pit.pit_samps, samp, "PIT samples", **info)
            got = [pit.pit, met.PITMetric(eval_grid=cas["given"]).evaluate(ens, arg)][rng.integers(2)]
            check_pit(ctx, got, pairs, info)
            if cas["counts"].shape[0] > 1:
                ord2 = rng.permutation(len(tval))
                two = PIT(ens[ord2], tval[ord2], cas["given"])
                ctx.close(two.pit_samps, samp[ord2], "PIT samples in another order", **info)
            out = pit.calculate_pit_meta_metrics()
            ctx.check(set(out) == {"ad", "cvm", "ks", "outlier_rate"}, "names of the meta metrics", got=list(out))
            ctx.close(out["ks"].statistic, want["ks"][0] / want["ks"][1], "KS of the PIT samples", **info)
            ctx.close(out["cvm"].statistic, cvm_of(want["cvm"]), "CvM of the PIT samples", **info)
            ctx.close(out["ks"].pvalue, stats.kstest(samp, "uniform").pvalue, "p-value of the KS of the PIT samples", rtol=1e-6, **info)
            samp = pit.pit_samps  # ties, and what is above 1, are a matter of rounding
            samp = samp[(samp >= 0) & (samp <= 1)]
            base = stats.anderson_ksamp([samp, np.linspace(0, 1, len(samp))])
            if len(samp) > 2:
                ctx.close(out["ad"].statistic, base.statistic, "AD of the PIT samples", rtol=1e-6, **info)
            lim = sorted(rng.uniform(0.02, 0.98, 2))
            cut = samp[(samp >= lim[0]) & (samp <= lim[1])]
            if np.unique(cut).size > 2 and np.min(np.abs(samp[:, None] - lim)) > 1e-9:
                base = stats.anderson_ksamp([cut, np.linspace(lim[0], lim[1], len(cut))])
                ctx.close(pit.evaluate_PIT_anderson_ksamp(*lim).statistic, base.statistic, "AD of the trimmed PIT samples", rtol=1e-6, limits=lim, **info)
            cdf = np.asarray(pit.pit.cdf(np.array(lim)))[0]
            ctx.close(pit.evaluate_PIT_outlier_rate(*lim), cdf[0] + 1 - cdf[1], "outlier rate of the PIT", limits=lim, **info)
            cdf = np.asarray(pit.pit.cdf(np.array([0.0001, 0.9999])))[0]
            ctx.close(out["outlier_rate"], cdf[0] + 1 - cdf[1], "outlier rate among the meta metrics", **info)
        ctx.traces += 1
    ctx.sample(dict(case=cases[0]["tru"], want=wants[0]))


def check_pit(ctx, ens, pairs, info):
    """The quantile distribution of the samples"""
    ctx.check(ens.npdf == 1, "PIT is one distribution", got=ens.npdf, **info)
    quants, locs = law_of(ens)
    seen = set()
    known = {round(q, 9) for val in pairs.values() for q in val}
    for qua, loc in zip(quants, locs):
        if round(qua, 9) not in known and (qua < 1e-9 or qua > 1 - 1e-9):
            continue  # an end that the representation adds
        key = min(pairs, key=lambda v: abs(v - loc))
        seen.add(key)
        ctx.check(abs(key - loc) < 1e-8 and min(abs(q - qua) for q in pairs[key]) < 1e-9, "a quantile of the PIT", got=[qua, loc], want=pairs, **info)
    ctx.check(seen == set(pairs), "quantiles missing in the PIT", got=[quants, locs], want=pairs, **info)
    for val, qua in pairs.items():
        got = float(ens.cdf(val)[0, 0])
        ctx.check(min(qua) - 1e-6 <= got <= max(qua) + 1e-6, "cdf of the PIT at a quantile", at=val, got=got, want=qua, **info)


def several(samp):
    """True if the quantiles of the samples have enough different values for an ensemble"""
    val = np.quantile(samp, np.linspace(0, 1, 5))
    return np.unique(np.round(val[(val > 1e-9) & (val < 1 - 1e-9)], 9)).size > 2


def nonfinite_c19(ctx):
    """Samples that are not finite count as zero"""
    from qp.metrics.pit import PIT

    rng = ctx.rng
    for fam in reps.families(ctx.qp, ["norm", "gamma", "mixmod", "hist", "interp"]):
        for _ in range(ctx.n(2, 15)):
            size = int(rng.integers(6, 12))
            rows = rng.integers(1, 60, size)
            tval = rng.uniform(0.3, 2.5, size)
            bad = rng.permutation(size)[:2]
            tval[bad] = np.nan
            info = dict(representation=fam.label, rows=rows, truth=tval)
            with ctx.case("PIT with values that are not finite", **info):
                want = np.array([fam.build([r], 1).cdf(t)[0, 0] for r, t in zip(rows, tval)])
                want = np.where(np.isfinite(want), want, 0.0)
                if not several(want):
                    continue
                got = PIT(fam.build(rows, 1), tval, np.linspace(0, 1, 5))
                ctx.close(got.pit_samps, want, "PIT samples that are not finite", **info)
            ctx.traces += 1


def pit_families_c19(ctx):
    """PIT samples of all representations"""
    from qp.metrics.pit import PIT

    rng = ctx.rng
    for fam in reps.families(ctx.qp):
        for _ in range(ctx.n(3, 30)):
            size = int(rng.integers(5, 12))
            rows = rng.integers(1, 60, size)
            tval = rng.uniform(0.3, 2.5, size)
            info = dict(representation=fam.label, rows=rows, truth=tval)
            with ctx.case("PIT of %s" % fam.label, **info):
                want = np.array([fam.build([r], 1).cdf(t)[0, 0] for r, t in zip(rows, tval)])
                if not several(want):
                    continue
                got = PIT(fam.build(rows, 1), tval, np.linspace(0, 1, 5))
                ctx.close(got.pit_samps, want, "PIT samples of %s" % fam.label, **info)
                grid = np.linspace(0, 1, 5)
                val = np.quantile(want, grid)
                pairs = {}
                for q, v in zip(grid, val):
                    if 1e-12 < v < 1 - 1e-12:
                        pairs.setdefault(round(float(v), 10), []).append(q)
                check_pit(ctx, got.pit, pairs, info)
                want = fam.build(rows[:1], 1).cdf(tval)[0]
                if several(np.where(np.isfinite(want), want, 0.0)):
                    ctx.close(PIT(fam.build(rows[:1], 1), tval, grid).pit_samps, want, "PIT samples of one distribution of %s" % fam.label, **info)
            ctx.traces += 1


def run_c19(ctx):
    """PIT and goodness of fit"""
    ctx.assumptions += ["the k-sample Anderson-Darling statistic and p-values are scipy's", "a PIT ensemble has at least three different quantiles in (0, 1)"]
    gof_c19(ctx, ctx.n(150, 2500))
    fit_c19(ctx)
    pit_c19(ctx, ctx.n(100, 1500))
    nonfinite_c19(ctx)
    pit_families_c19(ctx)


# ---------------------------------------------------------------------------
# C20
def cut_c20(ctx):
    """An estimate is an outlier when it is farther off than the cut, and not when it is on it"""
    rng = ctx.rng
    one = ctx.qp.metrics.PointOutlierRate()
    for _ in range(ctx.n(60, 600)):
        num = int(rng.integers(12, 40))
        est = rng.choice([-0.01, 0.0, 0.01], num)
        odd = rng.choice(num, num // 5, replace=False)
        est[odd] = rng.choice([0.06, -0.06, np.nextafter(0.06, 1), -np.nextafter(0.06, 1), np.nextafter(0.06, 0)], len(odd))
        # three times the width is 0.0445 at most, and powers of two scale without rounding
        ref = rng.choice([0.0, 1.0, 3.0], num)
        val = est * (1 + ref)
        info = dict(est=val, ref=ref)
        with ctx.case("points on the cut", **info):
            # estimate - reference would be rounded
            if np.array_equal((val + ref - ref) / (1 + ref), est):
                val = val + ref
            else:
                ref = np.zeros(num)
                val = est
            ctx.close(float(one.evaluate(val, ref)), np.sum(np.abs(est) > 0.06) / num, "outliers are farther off than the cut", **info)
        ctx.traces += 1


def run_c20(ctx):
    """Point statistics"""
    met = ctx.qp.metrics
    rng = ctx.rng
    cases = []
    for k in range(ctx.n(260, 4000)):
        num = int(rng.integers(1, 18)) if k % 4 else int(rng.integers(1, 4))
        est, ref = point_data(rng, num)
        cases.append(dict(op="point", est=rats(est), ref=rats(ref), e=est, r=ref))
    wants = ctx.oracle([{k: c[k] for k in ("op", "est", "ref")} for c in cases])
    names = (("point_bias", "bias"), ("point_stats_iqr", "iqr"), ("point_stats_sigma_mad", "mad"), ("point_outlier_rate", "out"))
    for k, (cas, want) in enumerate(zip(cases, wants)):
        est, ref = floats(cas["e"]), floats(cas["r"])
        if all(r.denominator == 1 for r in cas["r"]) and k % 2:
            ref = ref.astype(int)
        if all(e.denominator == 1 for e in cas["e"]) and k % 3:
            est = est.astype(int)
        info = dict(est=est, ref=ref)
        with ctx.case("point statistics", **info):
            keep = snapshot([est, ref])
            ctx.close(met.PointStatsEz().evaluate(est, ref), flt(want["ez"]), "scaled residuals", **info)
            order = rng.permutation(len(est))
            for name, key in names:
                one = met.create_metric(name)
                for first, second in ((est, ref), (est[order], ref[order]), (np.repeat(est, 2)[::2], ref)):
                    got = float(one.evaluate(first, second))
                    if key == "out":
                        low, high = np.array(want["out"]) / want["n"]
                        ctx.within(got, low, high, "outlier rate of points", **info)
                    else:
                        ctx.close(got, want[key][0] / want[key][1], name, **info)
            ctx.check(unchanged([est, ref], keep), "data changed by point statistics", **info)
        ctx.traces += 1
    ctx.sample(dict(case=cases[1]["est"], want=wants[1]))
    cut_c20(ctx)
    # larger sets of real numbers, from the same definitions
    for _ in range(ctx.n(20, 300)):
        num = int(rng.integers(100, 4000))
        ref = rng.uniform(-0.5, 4, num)
        est = ref + (1 + ref) * rng.standard_t(2, num) * float(rng.choice([0.003, 0.02, 0.2])) + float(rng.choice([0, 0.05]))
        info = dict(num=num)
        with ctx.case("point statistics of many points", **info):
            ez = np.sort((est - ref) / (1 + ref))

            def quantile(arr, q):
                pos = q * (len(arr) - 1)
                i = int(np.floor(pos))
                return arr[i] + (pos - i) * (arr[min(i + 1, len(arr) - 1)] - arr[i])

            iqr = (quantile(ez, 0.75) - quantile(ez, 0.25)) / 1.349
            dev = np.sort(np.abs(ez - quantile(ez, 0.5)))
            val = dict(bias=quantile(ez, 0.5), iqr=iqr, mad=1.4826 * quantile(dev, 0.5), out=np.mean(np.abs(ez) > max(0.06, 3 * iqr)))
            for name, key in names:
                tol = 1.5 / num if key == "out" else 0
                ctx.close(float(met.create_metric(name).evaluate(est, ref)), val[key], name + " of many points", atol=1e-9 + tol, **info)
        ctx.traces += 1
