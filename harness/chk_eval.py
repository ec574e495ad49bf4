"""C01: evaluation is pointwise for every arrangement of the values

QpEval.tla models the way from a call to its answer; TLC checks that every small arrangement gives each
distribution's own answer at its own place, and prints the arrangements with what has to come out where.
Each is replayed with every representation; what distribution i answers to value v comes from an ensemble
of that distribution alone, asked for that value alone.
"""
import json

import numpy as np

import reps

FUNCS = ["pdf", "cdf", "ppf", "sf", "isf", "logpdf", "logcdf", "logsf"]
QUICK_MEAN = ("norm", "gamma", "beta", "hist", "interp")
SLOW = {"spline": {"ppf", "isf"}}
CFG = """SPECIFICATION Spec
INVARIANT Pointwise
%sCONSTANTS
MaxN = %d
MaxM = %d
MaxCells = %d
V = %d
MUT = "%s"
Emit = %s
Rand = %s
"""


def model(ctx):
    """The model itself, its defective version, and the arrangements it gives"""
    size = ctx.n((3, 3, 6, 3), (4, 4, 8, 3))
    cases = {}
    for cas in ctx.tlc("QpEval", CFG % (("PROPERTY Ends\n",) + size + ("none", "TRUE", "FALSE")), timeout=880):
        cases[json.dumps(cas)] = cas
    small = list(cases.values())
    ctx.tlc("QpEval", CFG % ("", 2, 2, 4, 2, "sets", "FALSE", "FALSE"), refute=True)
    big = ctx.tlc("QpEval", CFG % ("", 9, 8, 0, 9, "none", "TRUE", "TRUE"), sim=ctx.n(450, 5000), depth=6)
    seen = {json.dumps(c): c for c in big}
    return small, list(seen.values())


class Alone:
    """What single distributions answer to single values"""

    def __init__(self, fam, meta):
        self.fam = fam
        self.meta = meta
        self.ens = {}
        self.vals = {}

    def __call__(self, func, row, val):
        key = (func, row, float(val)) if val == val else (func, row, "nan")
        if key not in self.vals:
            if row not in self.ens:
                self.ens[row] = self.fam.build([row], self.meta)
            got = np.asarray(getattr(self.ens[row], func)(float(val)))
            if got.size != 1:
                raise ValueError("%s of one distribution at a scalar has shape %s" % (func, got.shape))
            self.vals[key] = float(got.ravel()[0])
        return self.vals[key]


def tokens(rng, fam, func, num, away=False):
    """Real values for tokens; the last one is special, and outside of the support if asked for"""
    if away:
        vals = tokens(rng, fam, func, num)
        vals = np.where(np.isfinite(vals), vals, 0.5)
        if func in ("ppf", "isf"):
            vals = np.clip(vals, 0.0, 1.0)
            vals[-1] = rng.choice([-0.2, 1.3, np.nan])
        else:
            vals[-1] = np.nan if fam.label == "spline" else rng.choice([-3.3, 50.0, np.inf, -np.inf, np.nan])
        return vals
    if func in ("ppf", "isf"):
        pool = np.unique(np.concatenate([rng.uniform(0.01, 0.99, num + 2), [0.5, 0.25, 0.9]]))
        vals = rng.choice(pool, size=num, replace=False)
        vals[-1] = rng.choice([0.0, 1.0, vals[-1], -0.2, 1.3, np.nan]) if num > 1 else vals[-1]
        return vals
    pts = fam.points()
    inner = pts[(pts > 0) & (pts < 4.9)]
    if rng.random() < 0.25:  # whole numbers
        pool = np.arange(0.0, 10.0)[:max(num, 4)]
    else:
        pool = np.unique(np.concatenate([inner, rng.uniform(inner.min(), inner.max(), num)]))
    vals = rng.choice(pool, size=num, replace=False)
    if fam.label != "spline" and num > 1:  # a spline has no value outside of its points
        vals[-1] = rng.choice([-3.3, 50.0, vals[-1], np.inf, -np.inf, np.nan])
    return vals


def arrange(rng, cas, vals):
    """The argument of the call, in one of many forms"""
    tok = np.array(cas["v"], int) - 1
    arr = vals[tok]
    whole = np.all(np.isfinite(arr)) and np.all(arr == np.round(arr))
    if whole and rng.random() < 0.5:
        arr = arr.astype(int)
    if cas["arr"] == "scalar":
        val = arr[0, 0]
        return [lambda: val.item(), lambda: val, lambda: np.array(val), lambda: [val]][rng.integers(4)]()
    if cas["arr"] == "line":
        arr = arr[0]
        return [lambda: arr, arr.tolist, lambda: tuple(arr.tolist()), lambda: np.repeat(arr, 2)[::2], lambda: arr[::-1].copy()[::-1]][
            rng.integers(5)
        ]()
    return [lambda: arr, arr.tolist, lambda: np.asfortranarray(arr), lambda: np.repeat(arr, 2, axis=1)[:, ::2]][rng.integers(4)]()


def agree(got, want, func):
    """Elementwise agreement; logarithms of nothing but rounding are not compared"""
    same = (got == want) | (np.isnan(got) & np.isnan(want))
    with np.errstate(all="ignore"):
        same |= np.abs(got - want) <= 1e-9 + 1e-9 * np.abs(want)
        if func.startswith("log"):
            same |= np.abs(np.exp(got) - np.exp(want)) <= 1e-12
    return same


def replay(ctx, cas, fam, meta, alone, ids, func):
    """One arrangement with one function of one representation"""
    rng = ctx.rng
    num = cas["n"]
    rows = ids[:num]
    extra = 0 if cas["gap"] else int(rng.integers(0, 2))
    vals = tokens(rng, fam, func, max(max(r) for r in cas["v"]) + extra, cas["gap"])
    arg = arrange(rng, cas, vals)
    info = dict(representation=fam.label, function=func, case=cas, values=vals, rows=rows, form=type(arg).__name__)
    ctx.traces += 1
    with ctx.case("evaluation of %s" % fam.label, **info):
        want = np.array([[alone(func, rows[i - 1], vals[v - 1]) for i, v in line] for line in cas["want"]])
        ens = fam.build(rows, meta)
        keep = np.array(arg, float, copy=True)
        got = np.asarray(getattr(ens, func)(arg))
        if got.shape != (num, cas["m"]):
            ctx.fail("shape of %s of %s" % (func, fam.label), got=got.shape, want=(num, cas["m"]), **info)
        else:
            ok = agree(got.astype(float), want, func)
            ctx.comparisons += ok.size
            if not ok.all():
                bad = np.argwhere(~ok)[:4].tolist()
                ctx.fail(
                    "value of %s of %s" % (func, fam.label),
                    at=bad,
                    got=[got[tuple(b)] for b in bad],
                    want=[want[tuple(b)] for b in bad],
                    **info
                )
        if not np.array_equal(keep, np.array(arg, float), equal_nan=True):
            ctx.fail("the argument is changed by %s of %s" % (func, fam.label), **info)
    return info


CFG_SHAPE = """SPECIFICATION Spec
INVARIANTS Flattened Covered Common Own
CONSTANTS
MaxSize = %d
MaxDim = %d
MaxM = %d
Emit = %s
MUT = "%s"
"""


def arranged(fam, rows, meta, shape):
    """The ensemble of the rows, arranged in a shape; None if the representation has no such ensembles"""
    if fam.label in ("sparse", "packed_lin", "packed_log"):
        return None
    num = len(rows)
    data = {}
    for key, val in fam.data(rows, meta).items():
        if not isinstance(val, str) and np.ndim(val) >= 2 and np.shape(val)[0] == num:
            val = np.reshape(val, tuple(shape) + np.shape(val)[1:])
        data[key] = val
    return fam.qp.Ensemble(fam.ctor(), data=data)


def shaped(ctx):
    """Ensembles of several dimensions (QpShape.tla)"""
    cases = ctx.tlc("QpShape", CFG_SHAPE % (ctx.n((6, 3, 3), (8, 3, 3)) + ("TRUE", "none")))
    ctx.tlc("QpShape", CFG_SHAPE % (4, 2, 2, "FALSE", "column"), refute=True)
    cases = [c for c in cases if len(c["shape"]) > 1 or c["x"][:-1]]
    rng = ctx.rng
    for num, fam in enumerate(reps.families(ctx.qp)):
        meta = 1 + (num + ctx.seed) % 2 if fam.two else 1
        alone = Alone(fam, meta)
        pool = rng.choice(60, size=14, replace=False).tolist()
        for i, k in enumerate(rng.permutation(len(cases))[: ctx.n(45, 600)]):
            cas = cases[k]
            shape, argshape = tuple(cas["shape"]), tuple(cas["x"])
            size = int(np.prod(shape))
            rows = [int(r) for r in rng.permutation(pool)[:size]]
            funcs = [f for f in FUNCS if f not in SLOW.get(fam.label, ()) or size * argshape[-1] <= 4]
            func = funcs[(i + num) % len(funcs)]
            vals = tokens(rng, fam, func, 5)[rng.integers(0, 5, int(np.prod(argshape)))]
            info = dict(representation=fam.label, function=func, case=cas, values=vals, rows=rows)
            with ctx.case("evaluation of %s in several dimensions" % fam.label, **info):
                ens = arranged(fam, rows, meta, shape)
                if ens is None:
                    break
                ctx.traces += 1
                ctx.check((int(ens.npdf), tuple(ens.shape), int(ens.ndim)) == (size, shape, len(shape)), "shape of an ensemble (%s)" % fam.label, **info)
                want = np.array([alone(func, rows[r - 1], vals[v - 1]) for r, v in cas["want"]]).reshape(shape + argshape[-1:])
                got = np.asarray(getattr(ens, func)(vals.reshape(argshape)))
                if got.shape != want.shape:
                    ctx.fail("shape of %s of %s in several dimensions" % (func, fam.label), got=got.shape, want=want.shape, **info)
                    continue
                ok = agree(got.astype(float), want, func)
                ctx.comparisons += ok.size
                if not ok.all():
                    bad = np.argwhere(~ok)[:4].tolist()
                    ctx.fail("value of %s of %s in several dimensions" % (func, fam.label), at=bad, got=[got[tuple(b)] for b in bad], want=[want[tuple(b)] for b in bad], **info)
                if i % 9 == 0:
                    edges = np.array([0.3, 0.9, 1.4, 2.6])
                    flat = fam.build(rows, meta)
                    bins, got = ens.histogramize(edges)
                    ctx.close(np.asarray(got), np.reshape(flat.histogramize(edges)[1], shape + (3,)), "histogramize in several dimensions (%s)" % fam.label, 1e-9, 1e-9, **info)
                    ctx.close(bins, edges, "bins of histogramize (%s)" % fam.label, **info)
                    for name in ("mean", "median", "std") if fam.label in QUICK_MEAN else ():
                        ctx.close(np.asarray(getattr(ens, name)()), np.reshape(getattr(flat, name)(), shape + (1,)), "%s in several dimensions (%s)" % (name, fam.label), 1e-7, 1e-9, **info)


def run_c01(ctx):
    """Every arrangement of the values"""
    shaped(ctx)
    small, big = model(ctx)
    ctx.detail["arrangements"] = [len(small), len(big)]
    rng = ctx.rng
    fams = reps.families(ctx.qp)
    for num, fam in enumerate(fams):
        meta = 1 + (num + ctx.seed) % 2 if fam.two else 1
        alone = Alone(fam, meta)
        pool = rng.choice(60, size=14, replace=False).tolist()
        part = [small[i] for i in rng.permutation(len(small))[: ctx.n(170, 2200)]]
        grand = [big[i] for i in rng.permutation(len(big))[: ctx.n(110, 1500)]]
        gaps = [c for c in big if c["gap"]]
        gaps = [gaps[i] for i in rng.permutation(len(gaps))[: ctx.n(32, 400)]]
        for i, cas in enumerate(part + grand + gaps):
            ids = [int(pool[k]) for k in rng.permutation(len(pool))]
            if rng.random() < 0.15:
                ids = [ids[k // 2] for k in range(len(ids))]  # the same distribution twice
            funcs = [f for f in FUNCS if f not in SLOW.get(fam.label, ()) or cas["n"] * cas["m"] <= 2]
            func = funcs[(i + num) % len(funcs)]
            info = replay(ctx, cas, fam, meta, alone, ids, func)
            if i == 40:
                ctx.sample(info)
    ctx.assumptions.append("a distribution alone, asked for one value, answers correctly; C09 to C15 decide that")
