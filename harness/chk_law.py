"""C22 and C23: sampling, and the coherence of the functions

QpSample.tla is the machine of drawing samples from seeds and generator objects; its behaviours are replayed.
QpCoherence.tla has the clauses that make the functions of a distribution one law (MCCoherence.tla shows that they
accept the small exact laws and reject the corrupted ones); tables recorded from the code are judged by TLC.
"""
import json
import multiprocessing
import os
import traceback

import numpy as np

import reps
from common import jsonable, snapshot, unchanged

CFG_S = """SPECIFICATION Spec
INVARIANTS Shape OwnRow Reproducible Independent Untouched
PROPERTIES GoesOn
CONSTANTS
Ens <- %s
Sizes = %s
Seeds = {1, 2, 3}
Objs = %s
Len0 = %d
Emit = %s
MUT = "%s"
%s
"""
S = 10**7
INF, NAN = 2000000000, 1999999999


# ---------------------------------------------------------------------------
# C22
class Stream:
    """The deviates of a seed"""

    def __init__(self, kind, seed):
        self.kind = kind
        self.seed = seed
        self.vals = self.make().uniform(size=4000)

    def make(self):
        """A new generator object with the stream"""
        if self.kind == "generator":
            return np.random.default_rng(self.seed)
        return np.random.RandomState(self.seed)


def inverts(fam):
    """Representations that sample by inverting their cdf"""
    return not isinstance(fam, reps.Scipy)


def supports(fam, ens, row_ens):
    """Ends of the support of each row"""
    return np.array([[np.ravel(one.ppf(0.0))[0], np.ravel(one.ppf(1.0))[0]] for one in row_ens])


def replay_sample(ctx, beh, fam, kind, lab):
    """A behaviour of QpSample: int seeds and objects of a kind"""
    qp = ctx.qp
    base = int(ctx.rng.integers(1, 10**6))
    det = dict(family=fam.label, kind=kind, behaviour=beh)
    seeds = {s: base + s for s in (1, 2, 3)}
    obj_seed = {s: base + 100 + s for s in (1, 2, 3)}
    by_seed = {s: Stream("state", seeds[s]) for s in seeds}
    by_obj = {s: Stream(kind, obj_seed[s]) for s in obj_seed}
    objs = {}
    rows = {e: [int(r) for r in ctx.rng.integers(0, 5000, n)] for e, n in enumerate((1, 2, 3, 5), 1)}
    with ctx.case("sampling", **det):
        ens = {e: fam.build(rows[e], 1) for e in rows}
        single = {e: [fam.build([r], 1) for r in rows[e]] for e in rows}
        before = {e: snapshot(ens[e].objdata()) for e in ens}
        pts = fam.points()
        vals = {e: np.array(ens[e].pdf(pts)) for e in ens}
        seen = {}
        for step, op in enumerate(beh["ops"]):
            if op["op"] == "renew":
                objs[op["o"]] = by_obj[op["s"]].make()
                continue
            e, size = op["e"], op["size"]
            npdf = len(rows[e])
            if op["op"] == "seed":
                got = np.asarray(ens[e].rvs(size=size, random_state=seeds[op["s"]]))
                stream = by_seed[op["s"]]
                key = (e, size, op["s"])
                if key in seen:
                    ctx.same(got, seen[key], "the same seed gives the same samples", step=step, **det)
                seen[key] = got.copy()
            else:
                if op["o"] not in objs:
                    objs[op["o"]] = by_obj[1].make()
                got = np.asarray(ens[e].rvs(size=size, random_state=objs[op["o"]]))
                stream = by_obj[op["s"]]
            ctx.check(got.shape == (npdf, size), "shape of the samples", got=got.shape, want=(npdf, size), step=step, **det)
            if got.shape != (npdf, size):
                continue
            if inverts(fam):
                dev = stream.vals[op["from"] : op["from"] + npdf * size].reshape(npdf, size)
                want = np.array([np.ravel(single[e][i].ppf(dev[i])) for i in range(npdf)])
                ctx.close(got, want, "samples are the ppf of the deviates", rtol=1e-9, atol=1e-9, step=step, **det)
            low_high = supports(fam, ens[e], single[e])
            if lab != "spline":  # its support is not limited
                inside = (got >= low_high[:, :1] - 1e-9) & (got <= low_high[:, 1:] + 1e-9)
                if lab.startswith("quant") and not np.all(inside):
                    # the finding, if the samples are those of the parabolas
                    quants, locs = np.ravel(ens[e].metadata()["quants"]), ens[e].objdata()["locs"]
                    ref = np.array([overshoot(quants, locs[i], [0.0], dev[i])[1] for i in range(npdf)])
                    if np.allclose(got, ref, rtol=1e-9, atol=1e-9) and ctx.known("quant-overshoot"):
                        continue
                ctx.check(bool(np.all(inside)), "samples in the support", step=step, **det)
        for e in ens:
            ctx.check(unchanged(ens[e].objdata(), before[e]), "sampling changes no parameters", **det)
            ctx.same(np.array(ens[e].pdf(pts)), vals[e], "sampling changes no values", **det)
    ctx.traces += 1


def run_c22(ctx):
    """Sampling"""
    qp = ctx.qp
    view = "VIEW View"
    ctx.tlc("QpSample", CFG_S % ("MCEns", "{1, 2}", '{"o"}', ctx.n(3, 4), "FALSE", "none", view))
    for mut in ("firstrow", "samedeviates", "stateful", "consume", "rewind") if not ctx.quick else ("firstrow", "stateful"):
        ctx.tlc("QpSample", CFG_S % ("MCEns", "{1, 2}", '{"o"}', 3, "FALSE", mut, view), refute=True)
    fams = reps.families(qp)
    per = ctx.n(4, 30)
    # the numeric inverse of splines is slow
    behs = ctx.tlc("QpSample", CFG_S % ("MCEnsBig", "{1, 2, 3, 7}", '{"o", "p"}', 9, "TRUE", "none", ""), sim=per * len(fams), depth=10)
    ctx.sample(behs[0])
    for i, beh in enumerate(behs):
        fam = fams[i % len(fams)]
        replay_sample(ctx, beh, fam, ("state", "generator")[(i // len(fams)) % 2], fam.label)
    # the default is one sample each; the module generator of numpy; many samples follow the distributions
    for fam in fams:
        det = dict(family=fam.label)
        rows = [int(r) for r in ctx.rng.integers(0, 5000, 4)]
        with ctx.case("sampling", **det):
            ens = fam.build(rows, 1)
            one = np.asarray(ens.rvs(random_state=3))
            ctx.check(one.shape == (4, 1), "shape of the samples", got=one.shape, size="default", **det)
            ctx.same(one, np.asarray(ens.rvs(size=1, random_state=3)), "the default is one sample", **det)
            np.random.seed(11)
            first = np.asarray(ens.rvs(size=3))
            again = np.asarray(ens.rvs(size=3))
            np.random.seed(11)
            ctx.same(np.asarray(ens.rvs(size=3)), first, "the same state gives the same samples", **det)
            ctx.check(not np.array_equal(first, again), "the state goes on", **det)
            # every seed of numpy is a seed, zero and the last one too, whatever the kind of the number
            seen = []
            for seed in (0, 1, 2**32 - 1, np.int64(0), np.uint32(7)):
                np.random.seed(5)
                got = np.asarray(ens.rvs(size=2, random_state=seed))
                np.random.seed(6)
                ctx.same(np.asarray(ens.rvs(size=2, random_state=seed)), got, "a seed gives the same samples", seed=int(seed), **det)
                ctx.same(np.asarray(ens.rvs(size=2, random_state=np.random.RandomState(seed))), got, "a seed is the state of numpy it starts", seed=int(seed), **det)
                seen.append((int(seed), got))
            for k, (seed, got) in enumerate(seen):
                for other, its in seen[:k]:
                    if other != seed:
                        ctx.check(not np.array_equal(got, its), "other seeds give other samples", seeds=(seed, other), **det)
            if fam.label == "spline":
                num, tol = 150, 0.25
            else:
                num, tol = 2000, 0.09
            many = np.asarray(ens.rvs(size=num, random_state=5))
            for i, row in enumerate(rows):
                prob = np.sort(np.ravel(fam.build([row], 1).cdf(many[i])))
                emp = np.arange(1, num + 1) / num
                dist = np.max(np.abs(prob - emp))
                ctx.check(dist < tol, "each row follows its own distribution", distance=float(dist), row=row, **det)
            # one row at a time, in any selection
            if inverts(fam):
                dev = np.random.RandomState(5).uniform(size=(4, 6))
                got = np.asarray(ens.rvs(size=6, random_state=5))
                for i, row in enumerate(rows):
                    ctx.close(got[i], np.ravel(fam.build([row], 1).ppf(dev[i])), "samples are the ppf of the deviates", **det)
        ctx.traces += 1
    with ctx.case("sampling", family="quant", special="steep"):
        steep = ctx.qp.Ensemble(ctx.qp.quant, data=steep_quant())
        got = np.asarray(steep.rvs(size=200, random_state=1))
        dev = np.random.RandomState(1).uniform(size=(1, 200))
        quants, locs = np.ravel(steep.metadata()["quants"]), steep.objdata()["locs"]
        if np.any(got < locs[0, 0] - 1e-9) or np.any(got > locs[0, -1] + 1e-9):
            ref = overshoot(quants, locs[0], [0.0], dev[0])[1]
            if not (np.allclose(got[0], ref, rtol=1e-9, atol=1e-9) and ctx.known("quant-overshoot")):
                ctx.fail("samples in the support", family="quant", special="steep", got=got[0, :5])
    sample_wrapped(ctx)
    ctx.assumptions += [
        "distributions of scipy sample in their own way; for them the samples are judged by their support and distribution",
        "splines have no limited support; their samples are judged by the ppf",
    ]


def wrapped_names(ctx):
    """Wrapped distributions with the parameters of scipy's own tests"""
    import scipy.stats as sps
    from scipy.stats._distr_params import distcont

    slow = ("levy_stable", "studentized_range", "gausshyper", "genhyperbolic", "geninvgauss", "norminvgauss", "ksone", "kstwo", "recipinvgauss", "vonmises_line", "vonmises")
    out = {}
    for name, args in distcont:
        if not isinstance(name, str) or name not in ctx.qp.stats or name in out:
            continue
        if name in ("wrapcauchy", "levy_stable", "studentized_range", "vonmises") or (ctx.quick and name in slow):
            continue
        dist = getattr(sps, name)
        keys = [k.strip() for k in dist.shapes.split(",")] if dist.shapes else []
        out[name] = (dist, keys, args)
    return out


def sample_wrapped(ctx):
    """Samples of the wrapped distributions"""
    loc, scale = np.array([[0.0], [1.0], [-0.5]]), np.array([[1.0], [2.0], [0.5]])
    num = 1500
    for name, (dist, keys, args) in wrapped_names(ctx).items():
        det = dict(name=name)
        with ctx.case("samples of a wrapped distribution", **det):
            data = dict({k: np.full((3, 1), v) for k, v in zip(keys, args)}, loc=loc.copy(), scale=scale.copy())
            ens = ctx.qp.Ensemble(getattr(ctx.qp.stats, name), data=data)
            got = np.asarray(ens.rvs(size=num, random_state=4))
            ctx.check(got.shape == (3, num), "shape of the samples", got=got.shape, **det)
            ctx.same(np.asarray(ens.rvs(size=num, random_state=4)), got, "the same seed gives the same samples", **det)
            for i in range(3):
                low, high = dist.support(*args, loc=loc[i, 0], scale=scale[i, 0])
                slack = 1e-9 * (1 + np.max(np.abs(got[i])))
                ctx.check(bool(np.all((got[i] >= low - slack) & (got[i] <= high + slack))), "samples in the support", row=i, **det)
                prob = np.sort(dist.cdf(got[i], *args, loc=loc[i, 0], scale=scale[i, 0]))
                far = np.max(np.abs(prob - np.arange(1, num + 1) / num))
                ctx.check(far < 0.1, "each row follows its own distribution", distance=float(far), row=i, **det)
        ctx.traces += 1


# ---------------------------------------------------------------------------
# C23
def unit(vals):
    """Numbers in units of 1/S"""
    vals = np.asarray(vals, float).ravel()
    out = []
    for val in vals:
        if np.isnan(val):
            out.append(NAN)
        elif np.isposinf(val):
            out.append(INF)
        elif np.isneginf(val):
            out.append(-INF)
        else:
            out.append(int(np.clip(round(val * S), -1500000000, 1500000000)))
    return out


def as_rows(vals, npdf, cols, what):
    """An array of one row per distribution"""
    vals = np.asarray(vals, float)
    if vals.shape != (npdf, cols):
        raise AssertionError("%s has shape %s instead of %s" % (what, vals.shape, (npdf, cols)))
    return vals


def overshoot(quants, locs, xx, qs):
    """The finding quant-overshoot: a parabola through the quantiles, which can overshoot between them"""
    from scipy.interpolate import interp1d

    cdf = interp1d(locs, quants, bounds_error=False, fill_value=(0.0, 1), kind="quadratic")(xx)
    ppf = interp1d(quants, locs, bounds_error=False, fill_value=(locs[0], locs[-1]), kind="quadratic")(qs)
    return cdf, ppf



def options(label):
    """What a representation does not promise, and tolerances"""
    opt = dict(skip=set(), back=60, isf=60, mom=300, end=200)
    if label in ("norm", "gamma"):
        opt["skip"] |= {"mean"}  # infinite support
    if label in ("interp", "packed_lin", "packed_log", "sparse"):
        opt["skip"] |= {"law", "mean"}  # cdf linear between the points of the grid, moments by the trapezoid rule
    if label == "interp_irregular":
        opt["skip"] |= {"law"}
    if label.startswith("quant"):
        # the reconstruction of the pdf is an approximation, and between the quantiles so is the inverse
        opt["skip"] |= {"law", "entropy", "inverse"}
        if label in ("quant_cdf", "quant_dual"):
            opt["skip"] |= {"nonnegative"}
    if label == "mixmod":
        opt["skip"] |= {"mean"}
        opt["back"] = None  # one cell of the grid of the inverse
    if label == "spline":
        opt["skip"] |= {"nonnegative", "support", "mean", "entropy", "ends", "range", "monotone"}
        opt["back"] = 3000
        opt["mom"] = 30000
    return opt


def tables(fam, ens, label, gen, heavy):
    """The tables of the distributions of an ensemble"""
    npdf = ens.npdf
    opt = options(label)
    spline = label == "spline"
    low, high = (np.array([[0.1]] * npdf), np.array([[3.0]] * npdf)) if spline else (np.asarray(ens.ppf(0.0)).reshape(npdf, 1), np.asarray(ens.ppf(1.0)).reshape(npdf, 1))
    inner = np.asarray(ens.ppf(np.array([0.002, 0.998])))
    lo = np.where(np.isfinite(low), low, inner[:, :1] - 3)
    hi = np.where(np.isfinite(high), high, inner[:, 1:] + 3)
    num = 23
    frac = np.sort(gen.uniform(0, 1, num))
    pad = 0.0 if spline else 0.1
    xx = (lo - pad) + frac * (hi - lo + 2 * pad)
    xx[:, 0], xx[:, -1] = (lo - 7 * pad)[:, 0], (hi + 7 * pad)[:, 0]
    if not spline:
        xx[:, 0] = np.where(np.isfinite(low), low - 0.5, lo - 40)[:, 0]
        xx[:, -1] = np.where(np.isfinite(high), high + 0.5, hi + 40)[:, 0]
    func = {n: as_rows(getattr(ens, n)(xx), npdf, num, n) for n in ("pdf", "cdf", "sf")}
    with np.errstate(all="ignore"):
        lfunc = {n: as_rows(getattr(ens, n)(xx), npdf, num, n) for n in ("logpdf", "logcdf", "logsf")}
        logs = {n: np.log(func[n]) for n in func}
    qs = np.array([0.02, 0.1, 0.31, 0.5, 0.77, 0.9, 0.98]) if spline else np.concatenate([[0.0], np.sort(gen.uniform(0.003, 0.997, 9)), [1.0]])
    nq = qs.size
    ppf = as_rows(ens.ppf(qs), npdf, nq, "ppf")
    finite = np.where(np.isfinite(ppf), ppf, 0.0)
    back = as_rows(ens.cdf(finite), npdf, nq, "cdf")
    dens = np.where(np.isfinite(ppf), as_rows(ens.pdf(finite), npdf, nq, "pdf"), 0.0)
    if label not in ("norm", "gamma", "mixmod", "spline"):
        # at the very ends the density is not positive on both sides
        dens[:, 0] = dens[:, -1] = 0.0
    isf = as_rows(ens.isf(qs), npdf, nq, "isf")
    ppf1 = as_rows(ens.ppf(1 - qs), npdf, nq, "ppf")
    levels = [0.3, 0.6827, 0.95]
    med = as_rows(ens.median(), npdf, 1, "median")
    half = as_rows(ens.ppf(0.5), npdf, 1, "ppf")
    inter = [ens.interval(a) for a in levels]
    intlo = np.hstack([as_rows(i[0], npdf, 1, "interval") for i in inter])
    inthi = np.hstack([as_rows(i[1], npdf, 1, "interval") for i in inter])
    ppflo = np.hstack([as_rows(ens.ppf((1 - a) / 2), npdf, 1, "ppf") for a in levels])
    ppfhi = np.hstack([as_rows(ens.ppf((1 + a) / 2), npdf, 1, "ppf") for a in levels])
    # integrals between common limits, for many limits at once and for limits of each distribution
    base, top = float(np.min(lo)), float(np.max(hi))
    lims = np.sort(gen.uniform(base, top, (4, 2)), axis=1)
    if spline:
        lims = np.clip(lims, 0.1, 3.0)
    integ = [as_rows(ens.integrate((a, b)), npdf, 1, "integrate") for a, b in lims[:2]]
    integ.append(as_rows(ens.integrate((lims[:, 0], lims[:, 1])), npdf, 4, "integrate"))
    own = np.sort(gen.uniform(0, 1, (npdf, 2)), axis=1) * (hi - lo) + lo
    integ.append(as_rows(ens.integrate((own[:, :1], own[:, 1:])), npdf, 1, "integrate"))
    cut = [lims[:1], lims[1:2], lims]
    cdfa = np.hstack([as_rows(ens.cdf(c[:, 0]), npdf, len(c), "cdf") for c in cut] + [as_rows(ens.cdf(own[:, :1]), npdf, 1, "cdf")])
    cdfb = np.hstack([as_rows(ens.cdf(c[:, 1]), npdf, len(c), "cdf") for c in cut] + [as_rows(ens.cdf(own[:, 1:]), npdf, 1, "cdf")])
    integ = np.hstack(integ)
    bins = np.sort(gen.uniform(base, top, int(gen.integers(2, 8))))
    keep = bins.copy()
    hbins, hist = ens.histogramize(bins)
    if not np.array_equal(hbins, keep) or not np.array_equal(bins, keep):
        raise AssertionError("histogramize does not give the bins back")
    hist = as_rows(hist, npdf, bins.size - 1, "histogramize")
    hcdf = as_rows(ens.cdf(bins), npdf, bins.size, "cdf")
    grid = np.sort(gen.uniform(base, top, 40))
    gpdf = as_rows(ens.pdf(grid), npdf, grid.size, "pdf")
    mode = as_rows(ens.mode(grid), npdf, 1, "mode")
    # partial moments on the grid that the limits and the resolution make
    points = int(gen.integers(5, 30))
    plim = np.sort(gen.uniform(base, top, 2))
    pgrid = np.linspace(plim[0], plim[1], points)
    ppdf = as_rows(ens.pdf(pgrid), npdf, points, "pdf")
    part, psum = [], []
    for order in (0, 1, 2):
        got = np.asarray(ens.moment_partial(order, (plim[0], plim[1]), dx=(plim[1] - plim[0]) / (points + 0.5)))
        if got.shape != (npdf,):
            raise AssertionError("moment_partial has shape %s" % (got.shape,))
        part.append(got)
        psum.append(np.sum(ppdf * pgrid**order, axis=1) * (pgrid[1] - pgrid[0]))
    part, psum = np.array(part).T, np.array(psum).T
    # moments
    none = np.zeros((npdf, 1))
    mom = dict(mean=none, var=none, std=none, m0=none, m1=none, m2=none, smean=none, svar=none)
    skip = set(opt["skip"])
    if heavy:
        mom["mean"] = as_rows(ens.mean(), npdf, 1, "mean")
        mom["m1"] = as_rows(ens.moment(1), npdf, 1, "moment")
        mom["m2"] = as_rows(ens.moment(2), npdf, 1, "moment")
        mom["m0"] = as_rows(ens.moment(0), npdf, 1, "moment")
        mom["var"] = as_rows(ens.var(), npdf, 1, "var")
        mom["std"] = as_rows(ens.std(), npdf, 1, "std")
        if label != "mixmod":
            smean, svar = ens.stats(moments="mv")
            mom["smean"], mom["svar"] = as_rows(smean, npdf, 1, "stats"), as_rows(svar, npdf, 1, "stats")
        else:
            skip |= {"stats"}
    else:
        skip |= {"moments", "stats", "mean"}
    # the mean from the inverse
    fine = np.linspace(0, 1, 1001)
    meanlo, meanhi = none, none
    if "mean" not in skip:
        inv = as_rows(ens.ppf(fine), npdf, fine.size, "ppf")
        meanlo, meanhi = (
            np.mean(np.minimum(inv[:, :-1], inv[:, 1:]), axis=1)[:, None],
            np.mean(np.maximum(inv[:, :-1], inv[:, 1:]), axis=1)[:, None],
        )
    # increases of the cdf and Riemann sums of the pdf
    ends = np.sort(gen.uniform(0, 1, (npdf, 6)), axis=1) * (hi - lo) + lo
    inc, inclo, inchi = [], [], []
    if "law" not in skip:
        cdfe = as_rows(ens.cdf(ends), npdf, 6, "cdf")
        for k in range(5):
            sub = ends[:, k : k + 1] + (ends[:, k + 1 : k + 2] - ends[:, k : k + 1]) * np.linspace(0, 1, 161)
            val = as_rows(ens.pdf(sub), npdf, 161, "pdf")
            step = (ends[:, k + 1] - ends[:, k]) / 160
            inc.append(cdfe[:, k + 1] - cdfe[:, k])
            inclo.append(np.sum(np.minimum(val[:, 1:], val[:, :-1]), axis=1) * step)
            inchi.append(np.sum(np.maximum(val[:, 1:], val[:, :-1]), axis=1) * step)
    inc, inclo, inchi = (np.array(v).T.reshape(npdf, -1) for v in (inc, inclo, inchi))
    ent, eref = none, none
    if "entropy" not in skip and heavy:
        ent = as_rows(ens.entropy(), npdf, 1, "entropy")
        far = xx[:, -1] - xx[:, 0]
        dense = xx[:, :1] + far[:, None] * np.linspace(0, 1, 40001)
        val = as_rows(ens.pdf(dense), npdf, 40001, "pdf")
        with np.errstate(all="ignore"):
            term = np.where(val > 0, -val * np.log(np.where(val > 0, val, 1.0)), 0.0)
        eref = np.trapz(term, dense, axis=1)[:, None]
    else:
        skip |= {"entropy"}
    out = []
    for i in range(npdf):
        tol = 40
        back_tol = opt["back"]
        if back_tol is None:  # the inverse of a mixture: a cell of its own grid
            width = np.ravel(ens.objdata()["stds"][i])
            mu = np.ravel(ens.objdata()["means"][i])
            cell = (np.max(mu + 6 * width) - np.min(mu - 6 * width)) / 200
            back_tol = int(S * cell * float(np.max(ens.pdf(np.linspace(lo[i, 0], hi[i, 0], 2001))[i]))) + 100
            ppf_ends = True
        else:
            ppf_ends = False
        myskip = set(skip)
        if spline:
            dense = np.asarray(ens.pdf(np.linspace(0.1, 3.0, 400)))[i]
            if dense.min() >= 0:
                myskip -= {"monotone", "range", "nonnegative"}
        if label in ("interp", "packed_lin", "packed_log", "sparse"):
            back_tol += int(S * float(np.asarray(ens.cdf(np.array([low[i, 0]])))[i, 0]))
        if ppf_ends:
            dens[i, 0] = dens[i, -1] = 0.0
        ok = {}
        for name in ("pdf", "cdf", "sf"):
            ok[name] = [int(v > 1e-12) for v in func[name][i]]
        rec = dict(
            S=S, tol=tol, endtol=opt["end"], backtol=back_tol, isftol=opt["isf"], momtol=opt["mom"], parttol=200, MS=S, skip=sorted(myskip),
            x=unit(xx[i]), pdf=unit(func["pdf"][i]), cdf=unit(func["cdf"][i]), sf=unit(func["sf"][i]),
            lpdf=unit(lfunc["logpdf"][i]), lcdf=unit(lfunc["logcdf"][i]), lsf=unit(lfunc["logsf"][i]),
            logpdf=unit(logs["pdf"][i]), logcdf=unit(logs["cdf"][i]), logsf=unit(logs["sf"][i]),
            okpdf=ok["pdf"], okcdf=ok["cdf"], oksf=ok["sf"],
            q=unit(qs), ppf=unit(ppf[i]), back=unit(back[i]), dens=unit(dens[i]), isf=unit(isf[i]), ppf1=unit(ppf1[i]),
            low=unit(low[i])[0], high=unit(high[i])[0], median=unit(med[i])[0], ppfhalf=unit(half[i])[0],
            intlo=unit(intlo[i]), inthi=unit(inthi[i]), ppflo=unit(ppflo[i]), ppfhi=unit(ppfhi[i]),
            integ=unit(integ[i]), cdfa=unit(cdfa[i]), cdfb=unit(cdfb[i]), hist=unit(hist[i]), hcdf=unit(hcdf[i]),
            grid=unit(grid), gpdf=unit(gpdf[i]), mode=unit(mode[i])[0],
            mean=unit(mom["mean"][i])[0], mom0=unit(mom["m0"][i])[0], mom1=unit(mom["m1"][i])[0], mom2=unit(mom["m2"][i])[0],
            meansq=unit(mom["mean"][i] ** 2)[0], var=unit(mom["var"][i])[0], std=unit(mom["std"][i])[0], stdsq=unit(mom["std"][i] ** 2)[0],
            smean=unit(mom["smean"][i])[0], svar=unit(mom["svar"][i])[0], meanlo=unit(meanlo[i])[0], meanhi=unit(meanhi[i])[0],
            ent=unit(ent[i])[0], entlo=unit(eref[i] - 0.02)[0], enthi=unit(eref[i] + 0.02)[0],
            part=unit(part[i]), partsum=unit(psum[i]), inc=unit(inc[i]), inclo=unit(inclo[i]), inchi=unit(inchi[i]),
        )  # fmt: skip
        known = []
        if label.startswith("quant"):
            cdf, inv = overshoot(np.ravel(ens.metadata()["quants"]), ens.objdata()["locs"][i], xx[i], qs)
            if np.allclose(cdf, func["cdf"][i], rtol=1e-9, atol=1e-9) and (np.any(np.diff(cdf) < 0) or np.any(cdf > 1) or np.any(cdf < 0)):
                known += ["monotone", "range"]
            if np.allclose(inv, ppf[i], rtol=1e-9, atol=1e-9) and (np.any(np.diff(inv) < 0) or np.any(inv < low[i]) or np.any(inv > high[i])):
                known += ["ppforder", "support"]
        out.append(dict(label=label, row=i, npdf=npdf, rec=rec, known=known))
    return out


JOBS = []


def job(idx):
    """One job in a process of its own"""
    import warnings

    warnings.simplefilter("ignore")
    try:
        return ("ok", JOBS[idx]["func"]())
    except Exception as exc:  # pylint: disable=broad-except
        return ("error", type(exc).__name__ + ": " + str(exc)[:300], traceback.format_exc().splitlines()[-8:])


def steep_quant():
    """Quantiles where the parabolas of the finding overshoot"""
    return dict(quants=np.array([0.0, 0.1, 0.5, 0.9, 1.0]), locs=np.array([[0.0, 2.0, 2.1, 2.2, 2.5]]))


def special(qp, gen):
    """More laws: zero contents, narrow, far away, one component"""
    out = []
    cnt = gen.integers(0, 3, (4, 6)).astype(float)
    cnt[:, 2] += 1
    edges = np.array([-1.0, 0.0, 0.25, 1.0, 2.0, 2.5, 4.0])
    out.append(("hist", qp.Ensemble(qp.hist, data=dict(bins=edges, pdfs=cnt))))
    out.append(("hist", qp.Ensemble(qp.hist, data=dict(bins=6 + 0.05 * edges, pdfs=cnt + 0.1))))
    val = gen.integers(0, 3, (4, 7)).astype(float)
    val[:, 3] += 1
    val[:, 0] = 0
    out.append(("interp", qp.Ensemble(qp.interp, data=dict(xvals=np.array([-2.0, -1, 0, 0.5, 1, 3, 4]), yvals=val))))
    grids = np.sort(gen.uniform(-3, 3, (4, 7)), axis=1) + np.arange(7) * 0.05
    out.append(("interp_irregular", qp.Ensemble(qp.interp_irregular, data=dict(xvals=grids, yvals=val + 0.05))))
    mix = dict(means=gen.uniform(-2, 2, (3, 1)), stds=gen.uniform(0.1, 2, (3, 1)), weights=np.ones((3, 1)))
    out.append(("mixmod", qp.Ensemble(qp.mixmod, data=mix)))
    qua = np.linspace(0.05, 0.95, 7)
    out.append(("quant", qp.Ensemble(qp.quant, data=dict(quants=qua, locs=np.sort(gen.uniform(-1, 4, (3, 7)), axis=1) + 0.02 * np.arange(7)))))
    out.append(("quant", qp.Ensemble(qp.quant, data=steep_quant())))
    out.append(("norm", qp.Ensemble(qp.stats.norm, data=dict(loc=np.array([[3.0], [-1.0]]), scale=np.array([[0.01], [4.0]])))))
    return out


def run_c23(ctx):
    """The coherence of the functions"""
    qp = ctx.qp
    ctx.tlc("MCCoherence")
    JOBS.clear()
    repeat = ctx.n(1, 6)
    for rep in range(repeat):
        for fam in reps.families(qp):
            for size in (1, 4):
                rows = [int(r) for r in ctx.rng.integers(0, 5000, size)]
                meta = int(ctx.rng.integers(1, 3)) if fam.two else 1
                # moments of mixtures are slow
                heavy = fam.label != "mixmod" or size == 1
                seed = [ctx.seed, rep, size, len(JOBS)]

                def func(fam=fam, rows=rows, meta=meta, heavy=heavy, seed=seed):
                    return tables(fam, fam.build(rows, meta), fam.label, np.random.default_rng(seed), heavy)

                JOBS.append(dict(func=func, det=dict(family=fam.label, rows=rows, meta=meta)))
        for k, (label, ens) in enumerate(special(qp, np.random.default_rng([ctx.seed, rep, 77]))):

            def func(label=label, ens=ens, seed=(ctx.seed, rep, k, 5)):
                return tables(None, ens, label, np.random.default_rng(seed), label != "mixmod")

            JOBS.append(dict(func=func, det=dict(family=label, special=k)))
    order = sorted(range(len(JOBS)), key=lambda i: (JOBS[i]["det"]["family"] != "mixmod", not JOBS[i]["det"]["family"].startswith("quant")))
    recs = []
    with multiprocessing.get_context("fork").Pool(7) as pool:
        res = {i: pool.apply_async(job, (i,)) for i in order}
        for i, ans in res.items():
            try:
                got = ans.get(timeout=ctx.n(400, 1500))
            except multiprocessing.TimeoutError:
                ctx.fail("functions: do not return", **JOBS[i]["det"])
                continue
            if got[0] == "error":
                ctx.fail("functions: fail", error=got[1], trace=got[2], **JOBS[i]["det"])
            else:
                recs += [dict(rec, det=JOBS[i]["det"]) for rec in got[1]]
    judge(ctx, recs)
    law_wrapped(ctx)
    ctx.assumptions += [
        "values are compared in units of 1e-7",
        "between their quantiles or grid points the cdf of quantile and interpolated representations is not the integral of the pdf by design",
        "splines are judged inside of the range of their points",
    ]


def judge(ctx, recs):
    """TLC judges the records"""
    if not recs:
        return
    path = os.path.join(ctx.scratch, "law-%d.ndjson" % ctx.traces)
    with open(path, "w") as fout:
        for rec in recs:
            fout.write(json.dumps(jsonable_deep(rec["rec"])) + "\n")
    got = ctx.tlc("QpLaw", env=dict(CASES=path))
    ans = {g["k"]: g["fails"] for g in got}
    if len(ans) != len(recs):
        from common import HarnessError

        raise HarnessError("TLC judged %d of %d records" % (len(ans), len(recs)))
    for k, rec in enumerate(recs, 1):
        ctx.traces += 1
        ctx.comparisons += 23 - len(rec["rec"]["skip"])
        for clause in ans[k]:
            if clause in rec["known"] and ctx.known("quant-overshoot"):
                continue
            show = {n: rec["rec"][n] for n in SHOW.get(clause, ())}
            ctx.fail("coherence: " + clause, row=rec["row"], npdf=rec["npdf"], record=show, **rec["det"])
    ctx.sample(dict(label=recs[0]["label"], record={k: recs[0]["rec"][k] for k in ("x", "cdf", "q", "ppf")}, fails=ans[1]))


SHOW = dict(
    nonnegative=("x", "pdf"), range=("x", "cdf"), monotone=("x", "cdf"), ends=("x", "cdf"), survival=("cdf", "sf"), logpdf=("lpdf", "logpdf"), logcdf=("lcdf", "logcdf"),
    logsf=("lsf", "logsf"), ppforder=("q", "ppf"), inverse=("q", "ppf", "back", "dens", "backtol"), support=("ppf", "low", "high"), isf=("isf", "ppf1"), median=("median", "ppfhalf"),
    interval=("intlo", "ppflo", "inthi", "ppfhi"), integral=("integ", "cdfa", "cdfb"), histogram=("hist", "hcdf"), mode=("mode", "grid", "gpdf"),
    moments=("mean", "mom0", "mom1", "mom2", "meansq", "var", "std", "stdsq"), stats=("mean", "var", "smean", "svar"), mean=("mean", "meanlo", "meanhi"),
    entropy=("ent", "entlo", "enthi"), partial=("part", "partsum"), law=("inc", "inclo", "inchi"),
)  # fmt: skip


def jsonable_deep(rec):
    """No shortening"""
    return {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in rec.items()}


def law_wrapped(ctx):
    """What qp derives from the functions of the wrapped distributions"""
    loc, scale = np.array([[0.0], [1.0], [-0.5]]), np.array([[1.0], [2.0], [0.5]])
    gen = ctx.rng
    for name, (dist, keys, args) in wrapped_names(ctx).items():
        det = dict(name=name)
        with ctx.case("functions of a wrapped distribution", **det):
            data = dict({k: np.full((3, 1), v) for k, v in zip(keys, args)}, loc=loc.copy(), scale=scale.copy())
            ens = ctx.qp.Ensemble(getattr(ctx.qp.stats, name), data=data)
            ref = [(loc[i, 0], scale[i, 0]) for i in range(3)]
            want = lambda fun, val: np.array([np.ravel(getattr(dist, fun)(val, *args, loc=l, scale=s)) for l, s in ref])  # noqa: E731
            xx = np.sort(np.concatenate([want("ppf", np.array([0.05, 0.4, 0.8]))[k % 3][k % 3 : k % 3 + 1] for k in range(3)] + [gen.uniform(-2, 3, 4)]))
            for fun in ("sf", "logcdf", "logsf", "logpdf"):
                with np.errstate(all="ignore"):
                    ctx.close(getattr(ens, fun)(xx), want(fun, xx), "function of a wrapped distribution", rtol=1e-7, atol=1e-9, func=fun, **det)
            qs = np.array([0.1, 0.5, 0.95])
            ctx.close(ens.isf(qs), want("isf", qs), "function of a wrapped distribution", rtol=1e-6, atol=1e-8, func="isf", **det)
            # far in the tails, relative to the value there
            tiny = np.array([1e-3, 1e-7, 1e-12, 1e-20, 1e-60])
            with np.errstate(all="ignore"):
                far = want("isf", tiny)
                ctx.close(ens.isf(tiny), far, "function of a wrapped distribution far in the tail", rtol=1e-6, atol=1e-12, func="isf", **det)
                one = np.sort(np.ravel(far[np.isfinite(far)]))
                for fun in ("sf", "logsf", "pdf", "logpdf", "cdf", "logcdf"):
                    ctx.close(getattr(ens, fun)(one), want(fun, one), "function of a wrapped distribution far in the tail", rtol=1e-6, atol=0.0, func=fun, **det)
                near = want("ppf", tiny)
                ctx.close(ens.ppf(tiny), near, "function of a wrapped distribution far in the tail", rtol=1e-6, atol=1e-12, func="ppf", **det)
                one = np.sort(np.ravel(near[np.isfinite(near)]))
                for fun in ("cdf", "logcdf", "pdf", "logpdf", "sf", "logsf"):
                    ctx.close(getattr(ens, fun)(one), want(fun, one), "function of a wrapped distribution far in the tail", rtol=1e-6, atol=0.0, func=fun, **det)
            ctx.close(ens.median(), want("ppf", 0.5), "median", rtol=1e-8, atol=1e-10, **det)
            # any selection of the moments, in the order of scipy
            with np.errstate(all="ignore"):
                for letters in ("m", "v", "s", "k", "mv", "ms", "vk", "sk", "mvs", "mvsk"):
                    wish = [np.asarray(dist.stats(*args, loc=l, scale=s, moments=letters), float).ravel() for l, s in ref]
                    if not np.all(np.isfinite(wish)):
                        continue
                    reply = ens.stats(moments=letters)
                    reply = reply if isinstance(reply, tuple) else (reply,)
                    if len(reply) != len(letters):
                        ctx.fail("number of the moments", letters=letters, number=len(reply), **det)
                        continue
                    ctx.close(np.stack([np.ravel(r) for r in reply], axis=1), np.array(wish), "moments of a wrapped distribution", rtol=1e-5, atol=1e-6, letters=letters, **det)
            low, high = ens.interval(0.6)
            ctx.close(low, want("ppf", 0.2), "interval", rtol=1e-7, atol=1e-9, **det)
            ctx.close(high, want("ppf", 0.8), "interval", rtol=1e-7, atol=1e-9, **det)
            cdf = want("cdf", xx)
            ctx.close(ens.histogramize(xx)[1], np.diff(cdf, axis=1), "histogramize", rtol=1e-7, atol=1e-9, **det)
            ctx.close(ens.integrate((xx[0], xx[-1])), cdf[:, -1:] - cdf[:, :1], "integrate", rtol=1e-7, atol=1e-9, **det)
            pdf = want("pdf", xx)
            ctx.check(np.shape(ens.mode(xx)) == (3, 1), "mode: shape", **det)
            best = np.ravel(ens.mode(xx))
            for i in range(3):
                at = np.argmin(np.abs(xx - best[i]))
                ctx.check(bool(pdf[i, at] >= np.max(pdf[i]) * (1 - 1e-9)), "mode", row=i, **det)
        ctx.traces += 1
