"""C21: the registries

QpFactory.tla is the machine of the registry of representations, QpMetricReg.tla the one of the metrics.  Both are
explored exhaustively for small constants; simulated behaviours are replayed with new classes in a fresh registry and
in the global one.  What is registered in the end (every representation, every wrapped distribution of scipy, every
metric) is looked up in all of the ways there are.
"""
import gc
import inspect
import io
import itertools
import os

import numpy as np
from tables_io import io as tabio

import reps

CFG_F = """SPECIFICATION Spec
INVARIANTS OwnName SameAttr OwnMethods Answers
PROPERTIES Kept
CONSTANTS
C = %d
Names = %s
Keys = %s
L = %d
Len0 = %d
Emit = %s
MUT = "%s"
%s
"""
CFG_M = """SPECIFICATION Spec
INVARIANTS OnlyDefined Made AllFound
CONSTANTS
M = %d
Args = {1, 2}
Len0 = %d
Emit = %s
MUT = "%s"
%s
"""
COUNT = itertools.count()
GRID = np.array([0.0, 1.0, 2.0, 4.0])
VALS = np.array([[0.0, 1.0, 2.0, 0.0], [1.0, 0.5, 0.0, 0.0]])


# ---------------------------------------------------------------------------
# new classes of representations: what each function does is adding its own shift to the grid
def shift_of(func):
    """Shift that a function of the model adds"""
    return 0.0 if func["c"] == 0 else 100.0 * func["c"] + 10.0 * func["i"]


def make_class(parent, name, cid, adds):
    """A class of the model"""

    def ctor(idx):
        def build(cls, **kwds):
            kwds = dict(kwds)
            kwds["xvals"] = np.asarray(kwds["xvals"], float) + shift_of(dict(c=cid, i=idx))
            return cls.create(**kwds)

        return build

    def outer(idx):
        def take(source, **kwds):  # pylint: disable=unused-argument
            return dict(xvals=GRID + shift_of(dict(c=cid, i=idx)), yvals=np.array(VALS[: source.npdf]))

        return take

    def reader(idx):
        def read(data):
            out = dict(data)
            out["xvals"] = np.asarray(out["xvals"], float) + shift_of(dict(c=cid, i=idx))
            return out

        return read

    funcs = {}
    for idx, add in enumerate(adds, 1):
        if add["kind"] == "create":
            funcs["ctor_%d" % idx] = classmethod(ctor(idx))

    def add_one(cls, idx):
        add = adds[idx - 1]
        key = None if add["key"] == "none" else add["key"]
        if add["kind"] == "create":
            cls._add_creation_method(getattr(cls, "ctor_%d" % idx), key)
        elif add["kind"] == "extract":
            cls._add_extraction_method(outer(idx), key)
        else:
            cls._add_reader_method(reader(idx), key)

    def add_mappings(cls):
        for idx, add in enumerate(adds, 1):
            if not add["late"]:
                cls.add_one(idx)

    funcs.update(name=name, version=0, add_mappings=classmethod(add_mappings), add_one=classmethod(add_one))
    return type("New_%s_%d" % (name, cid), (parent,), funcs)


def state_of(fac):
    """What the registry shows: the classes by name and by attribute and how many there are"""
    out = {}
    for name in list(fac):
        out[name] = (fac[name], getattr(fac, name + "_gen"), getattr(fac, name).__func__, getattr(fac, name).__self__)
    return out


def replay_factory(ctx, beh, fac, lab):
    """A behaviour of QpFactory with new classes"""
    num = next(COUNT)
    real = {n: "fresh%d%s" % (num, n) for n in ("A", "B", "C")}
    classes = []
    for cid, cls in enumerate(beh["cls"], 1):
        parent = ctx.qp.interp_gen if cls["parent"] == 0 else classes[cls["parent"] - 1]
        classes.append(make_class(parent, real[cls["name"]], cid, cls["adds"]))
    source = ctx.qp.Ensemble(ctx.qp.interp, data=dict(xvals=GRID, yvals=np.array(VALS)))
    plain = lambda: dict(xvals=np.array(GRID), yvals=np.array(VALS))  # noqa: E731
    start = state_of(fac)
    reg = {}
    det = dict(behaviour=beh, registry=lab)
    key_of = lambda op: None if op["key"] == "none" else op["key"]  # noqa: E731

    def judge(ens, cid, shift, clause, **more):
        ctx.check(ens.gen_class is classes[cid - 1], clause + ": class", got=str(ens.gen_class), **more)
        ctx.close(np.ravel(ens.metadata()["xvals"]), GRID + shift, clause + ": method", **more)
        ctx.check(ens.npdf == 2, clause + ": size", **more)

    for step, op in enumerate(beh["ops"]):
        with ctx.case("registry", step=step, op=op, **det):
            if op["op"] == "register":
                if op["ok"]:
                    fac.add_class(classes[op["c"] - 1])
                    reg[beh["cls"][op["c"] - 1]["name"]] = op["c"]
                else:
                    ctx.refused(lambda op=op: fac.add_class(classes[op["c"] - 1]), "used name", step=step, **det)
            elif op["op"] == "add":
                classes[op["c"] - 1].add_one(op["i"])
            elif op["op"] == "attr":
                name = real[op["name"]]
                if op["c"]:
                    judge(ctx.qp.Ensemble(getattr(fac, name), data=plain()), op["c"], 0.0, "attribute", step=step, **det)
                    ctx.check(getattr(fac, name + "_gen") is classes[op["c"] - 1], "attribute of the class", step=step, **det)
                else:
                    ctx.check(not hasattr(fac, name) and not hasattr(fac, name + "_gen"), "attribute of what is not registered", step=step, **det)
            elif op["op"] == "create":
                call = lambda op=op: fac.create(real[op["name"]], plain(), key_of(op))  # noqa: E731
                if op["f"]["c"]:
                    judge(call(), op["c"], shift_of(op["f"]), "create", step=step, **det)
                else:
                    ctx.refused(call, "create", step=step, **det)
            elif op["op"] == "convert":
                call = lambda op=op: fac.convert(source, real[op["name"]], **({} if op["key"] == "none" else dict(method=op["key"])))  # noqa: E731
                if op["x"]["c"] and op["f"]["c"]:
                    judge(call(), op["c"], shift_of(op["x"]) + shift_of(op["f"]), "convert", step=step, **det)
                else:
                    ctx.refused(call, "convert", step=step, **det)
            elif op["op"] == "tables":
                # keys of readers are versions: "none" is what no reader was given for
                version = "other" if op["key"] == "none" else op["key"]
                tabs = dict(
                    meta=dict(pdf_name=np.array([real[op["name"]].encode()]), pdf_version=np.array([version]), xvals=np.array([GRID])),
                    data=dict(yvals=np.array(VALS)),
                )
                call = lambda: fac.from_tables(tabs)  # noqa: E731
                if op["f"]["c"]:
                    judge(call(), op["c"], shift_of(op["x"]) + shift_of(op["f"]), "tables", step=step, **det)
                else:
                    ctx.refused(call, "tables", step=step, **det)
                if step % 2 == 0:
                    # the same from a file, as a whole and in chunks
                    path = os.path.join(ctx.scratch, "versions.hdf5")
                    disk = dict(tabs, meta=dict(tabs["meta"], pdf_version=np.array([version.encode()])))
                    tabio.writeDictsToHdf5(disk, path)
                    call = lambda: fac.read(path)  # noqa: E731,B023
                    parts = lambda: list(fac.iterator(path, chunk_size=1))  # noqa: E731,B023
                    if op["f"]["c"]:
                        judge(call(), op["c"], shift_of(op["x"]) + shift_of(op["f"]), "file", step=step, **det)
                        got = parts()
                        ctx.check([p[:2] for p in got] == [(0, 1), (1, 2)], "chunks of the file", step=step, **det)
                        ens = got[0][2]
                        ens.append(got[1][2])
                        judge(ens, op["c"], shift_of(op["x"]) + shift_of(op["f"]), "chunks of the file", step=step, **det)
                    else:
                        ctx.refused(call, "file", step=step, **det)
                        ctx.refused(parts, "chunks of the file", step=step, **det)
            # nothing else has changed
            now = state_of(fac)
            want = dict(start)
            for name, cid in reg.items():
                want[real[name]] = None
                ctx.check(fac[real[name]] is classes[cid - 1], "registered class", step=step, **det)
            ctx.check(set(now) == set(want), "names in the registry", step=step, more=sorted(set(now) ^ set(want)), **det)
            for name, old in start.items():
                if now.get(name) != old:
                    ctx.fail("another class changed", name=name, step=step, **det)
    with ctx.case("listing", **det):
        text = io.StringIO()
        fac.pretty_print(text)
        text = text.getvalue()
        for name in fac:
            if "\n%s: " % name not in text:
                ctx.fail("listing", name=name, **det)
        ctx.comparisons += 1
    ctx.traces += 1


# ---------------------------------------------------------------------------
# metrics
def replay_metrics(ctx, beh):
    """A behaviour of QpMetricReg with new classes of metrics"""
    from qp.metrics.base_metric_classes import BaseMetric, PointToPointMetric
    from qp.metrics.factory import MetricFactory

    num = next(COUNT)
    MetricFactory.update_metrics()
    base = dict(MetricFactory.metric_dict)
    # the registry knows something from the start, so that looking up does not refresh it by itself
    real = {c: "new%d_%d" % (num, c) for c in range(1, 10)}
    classes = {}
    made = []
    # below any class there is, however deep
    above = [PointToPointMetric] + [base[n] for n in sorted(base)]
    top = above[int(ctx.rng.integers(len(above)))]
    det = dict(behaviour=beh, top=top.__name__)

    def init(self, arg=0, **kwds):
        BaseMetric.__init__(self, **kwds)
        self.arg = arg
        self.lim = kwds["limits"]

    for step, op in enumerate(beh["ops"]):
        with ctx.case("metrics", step=step, op=op, **det):
            if op["op"] == "define":
                parent = classes[op["parent"]] if op["parent"] else top
                body = dict(metric_name=real[op["c"]] if op["named"] else None, __init__=init)
                body["evaluate"] = lambda self, estimate, reference: self.arg
                classes[op["c"]] = type("NewMetric%d" % op["c"], (parent,), body)
            elif op["op"] == "list":
                got = MetricFactory.list_metrics(force_update=op["force"])
                mine = {n for n in got if n.startswith("new%d_" % num)}
                if op["force"]:
                    ctx.check(mine == {real[c] for c in op["found"]}, "listed metrics", got=sorted(mine), step=step, **det)
                else:
                    ctx.check(mine <= {real[c] for c in op["found"]}, "listed metrics", got=sorted(mine), step=step, **det)
                ctx.check(set(base) <= set(got) and len(set(got)) == len(got), "the metrics of qp are listed", got=got, step=step, **det)
            else:
                call = lambda op=op: MetricFactory.create_metric(real[op["c"]], force_update=op["force"], arg=op["arg"], limits=(0.0, float(op["arg"])))  # noqa: E731
                if op["ok"]:
                    obj = call()
                    ctx.check(type(obj) is classes[op["c"]], "metric by name", got=str(type(obj)), step=step, **det)
                    made.append((obj, op["arg"]))
                elif not op["exists"]:
                    ctx.refused(call, "unknown metric", step=step, **det)
            for obj, arg in made:
                ctx.check(obj.evaluate([0.0], [0.0]) == arg and obj.lim == (0.0, float(arg)), "arguments of a metric", want=arg, step=step, **det)
            for name, cls in base.items():
                if MetricFactory.metric_dict.get(name) is not cls:
                    ctx.fail("another metric changed", name=name, step=step, **det)
    ctx.traces += 1
    made.clear()
    classes.clear()
    gc.collect()


ARGS = dict(
    moment=[dict(moment_order=1), dict(moment_order=2, limits=(0.5, 4.0), dx=0.05), dict(moment_order=0, limits=(0.0, 2.0))],
    kld=[dict(), dict(limits=(0.5, 3.5), dx=0.1)],
    rmse=[dict(), dict(limits=(0.5, 3.5), dx=0.1)],
    rbpe=[dict(), dict(limits=(0.2, 3.0))],
    brier=[dict(limits=(0.0, 5.0)), dict(limits=(0.0, 6.0), dx=0.1)],
    outlier=[dict(), dict(cdf_limits=(0.1, 0.8))],
    ad=[dict(num_samples=20, _random_state=3), dict(num_samples=7, _random_state=8)],
    cvm=[dict(num_samples=20, _random_state=3), dict(num_samples=7, _random_state=8)],
    ks=[dict(num_samples=20, _random_state=3), dict(num_samples=7, _random_state=8)],
    pit=[dict(), dict(eval_grid=np.linspace(0, 1, 7)), dict(tdigest_compression=50)],
    cdeloss=[dict(), dict(eval_grid=np.linspace(0.5, 4, 50))],
)


def by_function(name, args):
    """What the metric does, in terms of the functions of qp.metrics"""
    import qp.metrics.metrics as mm
    from qp.metrics.pit import PIT

    lim = args.get("limits", (0.0, 3.0))
    dxx = args.get("dx", 0.01)
    return dict(
        moment=lambda e, r: mm.calculate_moment(e, args["moment_order"], lim, dxx),
        kld=lambda e, r: mm.calculate_kld(e, r, lim, dxx),
        rmse=lambda e, r: mm.calculate_rmse(e, r, lim, dxx),
        rbpe=lambda e, r: mm.calculate_rbpe(e, args.get("limits", (np.inf, np.inf))),
        brier=lambda e, r: mm.calculate_brier(e, r, lim, dxx),
        outlier=lambda e, r: mm.calculate_outlier_rate(e, *args.get("cdf_limits", (0.0001, 0.9999))),
        ad=lambda e, r: mm.calculate_goodness_of_fit(e, r, fit_metric="ad", num_samples=args["num_samples"], _random_state=args["_random_state"]),
        cvm=lambda e, r: mm.calculate_goodness_of_fit(e, r, fit_metric="cvm", num_samples=args["num_samples"], _random_state=args["_random_state"]),
        ks=lambda e, r: mm.calculate_goodness_of_fit(e, r, fit_metric="ks", num_samples=args["num_samples"], _random_state=args["_random_state"]),
        pit=lambda e, r: PIT(e, r, args.get("eval_grid", np.linspace(0, 1, 100))).pit,
    ).get(name)


def declared(ctx):
    """What every metric declares is what it takes and gives, and the arguments reach it"""
    from qp.metrics.base_metric_classes import MetricOutputType
    from qp.metrics.factory import MetricFactory

    gen = ctx.rng
    names = [n for n in MetricFactory.list_metrics(force_update=True) if not n.startswith("new")]
    ctx.check(len(names) >= 16, "metrics of qp", got=names)
    for npdf in (1, 2, 5, 8):
        est = ctx.qp.Ensemble(ctx.qp.stats.norm, data=dict(loc=gen.uniform(1, 2, (npdf, 1)), scale=gen.uniform(0.2, 0.5, (npdf, 1))))
        ref = ctx.qp.Ensemble(ctx.qp.stats.norm, data=dict(loc=gen.uniform(1, 2, (npdf, 1)), scale=gen.uniform(0.2, 0.5, (npdf, 1))))
        truth = gen.uniform(1, 2, npdf)
        points = gen.uniform(1, 2, npdf)
        for name in names:
            for args in ARGS.get(name, [dict()]):
                if name in ("pit",) and npdf < 5:
                    continue  # a quantile distribution needs a few distinct quantiles
                det = dict(metric=name, args=args, npdf=npdf)
                with ctx.case("declared kinds", **det):
                    others = [MetricFactory.create_metric(n) for n in names[:3]]
                    met = MetricFactory.create_metric(name, **args)
                    for other in ARGS.get(name, [dict()]):  # another one with other arguments
                        others.append(MetricFactory.create_metric(name, **other))
                    cls = MetricFactory.metric_dict[name]
                    ctx.check(type(met) is cls and cls.metric_name == name, "class of the metric", **det)
                    flags = (met.uses_distribution_for_estimate(), met.uses_point_for_estimate(), met.uses_distribution_for_reference(), met.uses_point_for_reference())
                    ctx.check(flags[0] != flags[1], "one kind of estimate", flags=flags, **det)
                    ctx.check(not (flags[2] and flags[3]), "at most one kind of reference", flags=flags, **det)
                    put = [est if flags[0] else points]
                    if flags[2] or flags[3]:
                        put.append(ref if flags[2] else truth)
                    need = [p for p in inspect.signature(met.evaluate).parameters.values() if p.default is p.empty]
                    ctx.check(len(need) == len(put), "number of inputs", need=len(need), **det)
                    got = met.evaluate(*put)
                    if met.metric_output_type is MetricOutputType.single_value:
                        ctx.check(np.ndim(got) == 0 and np.size(got) == 1, "single value", got=np.shape(got), **det)
                    elif met.metric_output_type is MetricOutputType.one_value_per_distribution:
                        ctx.check(np.shape(got) == (npdf,), "one value per distribution", got=np.shape(got), **det)
                    elif met.metric_output_type is MetricOutputType.single_distribution:
                        ctx.check(isinstance(got, ctx.qp.Ensemble) and got.npdf == 1, "single distribution", got=str(type(got)), **det)
                    else:
                        ctx.fail("unknown kind of output", **det)
                    direct = cls(**args).evaluate(*put)
                    val = lambda res: res.ppf(np.linspace(0.05, 0.95, 9)) if isinstance(res, ctx.qp.Ensemble) else res  # noqa: E731
                    ctx.close(val(got), val(direct), "by name and by class", rtol=1e-12, atol=1e-12, **det)
                    func = by_function(name, args)
                    if func is not None:
                        want = func(put[0], put[1] if len(put) > 1 else None)
                        ctx.close(np.asarray(val(got)), np.asarray(val(want)), "arguments reach the metric", rtol=1e-12, atol=1e-12, **det)
                ctx.traces += 1
    for bad in ("", "nosuch", "Moment", "kl", "point_bias_", None):
        ctx.refused(lambda bad=bad: MetricFactory.create_metric(bad), "unknown metric", name=bad)
    with ctx.case("printing the metrics"):
        MetricFactory.print_metrics(force_update=True)


# ---------------------------------------------------------------------------
def three_ways(ctx):
    """Every family: by name, by the attributes, by class"""
    qp = ctx.qp
    fac = qp.instance()
    for fam in reps.families(qp):
        rows = [1, 4]
        for meta in (1, 2) if fam.two else (1,):
            with ctx.case("ways of creating", family=fam.label, meta=meta):
                ways = [
                    lambda d: fac.create(fam.name, d),
                    lambda d: qp.create(fam.name, d),
                    lambda d: qp.create(fam.name, data=d, method=None),
                    lambda d: qp.Ensemble(getattr(fac, fam.name), data=d),
                    lambda d: qp.Ensemble(getattr(qp.stats if not hasattr(qp, fam.name) else qp, fam.name), data=d),
                    lambda d: qp.Ensemble(fac[fam.name].create, data=d),
                    lambda d: qp.Ensemble(getattr(fac, fam.name + "_gen").create, data=d),
                    lambda d: fac.create(fam.name, d, "nosuchmethod"),  # there is a default
                ]
                ref = [fam.ref(r, meta) for r in rows]
                for i, way in enumerate(ways):
                    ens = way(fam.data(rows, meta))
                    ctx.check(ens.gen_class is ref[0]["cls"], "class", family=fam.label, way=i)
                    ctx.check(reps.same_meta(reps.plain_meta(ens.metadata()), ref[0]["meta"]), "metadata", family=fam.label, way=i)
                    for func, pts in (("pdf", fam.points()), ("cdf", fam.points()), ("ppf", reps.QS)):
                        ctx.close(getattr(ens, func)(pts), np.stack([r[func] for r in ref]), "ways of creating", family=fam.label, way=i, func=func)
                if fam.alt:
                    for way in (
                        lambda d: fac.create(fam.name, d, "xy"),
                        lambda d: qp.create(fam.name, d, method="xy"),
                        lambda d: qp.Ensemble(fam.ctor(True), data=d),
                        lambda d: qp.Ensemble(fac[fam.name].create_from_xy_vals, data=d),
                    ):
                        ens = way(fam.data(rows, meta, True))
                        ctx.check(ens.gen_class is ref[0]["cls"], "class", family=fam.label, way="xy")
                        for func, pts in (("pdf", fam.points()), ("cdf", fam.points())):
                            ctx.close(getattr(ens, func)(pts), np.stack([r[func] for r in ref]), "alternate constructor", family=fam.label, func=func)
            ctx.traces += 1
    with ctx.case("spline from samples"):
        samples = ctx.rng.normal(1.5, 0.4, (2, 200))
        xvals = np.linspace(0, 3, 25)
        one = qp.create("spline", dict(xvals=xvals, samples=np.array(samples)), "samples")
        two = qp.Ensemble(qp.spline_from_samples, data=dict(xvals=xvals, samples=np.array(samples)))
        pts = np.linspace(0.2, 2.8, 9)
        ctx.close(one.pdf(pts), two.pdf(pts), "alternate constructor", func="samples")
        from scipy.stats import gaussian_kde

        ctx.check(np.max(np.abs(one.pdf(pts) - [gaussian_kde(s)(pts) for s in samples])) < 0.1, "alternate constructor: from samples")
    for bad in ("nosuch", "", "hist_gen", "Hist", None):
        ctx.refused(lambda bad=bad: fac.create(bad, {}), "unknown name", name=bad)
        ctx.refused(lambda bad=bad: qp.convert(qp.Ensemble(qp.stats.norm, data=dict(loc=1.0, scale=1.0)), bad), "unknown name", name=bad)


def wrapped(ctx):
    """Every continuous distribution of scipy is there, and is what scipy has"""
    import scipy.stats as sps
    from scipy.stats._distr_params import distcont

    qp = ctx.qp
    slow = ("levy_stable", "studentized_range", "ksone", "kstwo", "gausshyper", "genhyperbolic", "geninvgauss", "norminvgauss", "vonmises", "recipinvgauss")
    pars = {}
    for name, args in distcont:
        if isinstance(name, str):
            pars.setdefault(name, args)
    for name in sps.__all__:
        dist = getattr(sps, name)
        if not isinstance(dist, sps.rv_continuous):
            continue
        with ctx.case("wrapped distribution", name=name):
            fac = qp.instance()
            ctx.check(name in fac and hasattr(qp.stats, name) and fac[name].name == name, "wrapped distribution registered", name=name)
            if name not in pars or (ctx.quick and name in slow) or name in ("levy_stable", "studentized_range"):
                continue
            args = pars[name]
            keys = [k.strip() for k in dist.shapes.split(",")] if dist.shapes else []
            loc, scale = np.array([[0.0], [1.0], [-0.5]]), np.array([[1.0], [2.0], [0.5]])
            data = lambda: dict({k: np.full((3, 1), v) for k, v in zip(keys, args)}, loc=loc.copy(), scale=scale.copy())  # noqa: E731
            pts = np.array([-3.1, -1.0, -0.2, 0.0, 0.3, 0.7, 1.4, 3.0, 6.0])
            qs = np.array([0.0, 0.2, 0.5, 0.9, 1.0])
            ways = [qp.create(name, data()), qp.Ensemble(getattr(qp.stats, name), data=data()), qp.Ensemble(fac[name].create, data=data())]
            for func, vals in (("pdf", pts), ("cdf", pts), ("ppf", qs)):
                want = np.array([getattr(dist, func)(vals, *args, loc=l, scale=s) for l, s in zip(loc[:, 0], scale[:, 0])])
                for i, ens in enumerate(ways):
                    ctx.close(getattr(ens, func)(vals), want, "wrapped distribution", rtol=1e-8, atol=1e-10, name=name, func=func, way=i)
        ctx.traces += 1


def run_c21(ctx):
    """The registries"""
    qp = ctx.qp
    view = "VIEW View"
    names, keys = '{"A", "B"}', '{"k"}'
    ctx.tlc("QpFactory", CFG_F % (2, names, keys, 1, ctx.n(3, 4), "FALSE", "none", view))
    if not ctx.quick:
        ctx.tlc("QpFactory", CFG_F % (3, names, keys, 1, 3, "FALSE", "none", view), timeout=1500)
    ctx.tlc("QpMetricReg", CFG_M % (3, ctx.n(5, 7), "FALSE", "none", view))
    for mut in ("overwrite", "early", "shared", "nodefault", "anything", "wipe") if not ctx.quick else ("shared", "wipe"):
        ctx.tlc("QpFactory", CFG_F % (2, names, keys, 1, 3, "FALSE", mut, view), refute=True)
    for mut in ("direct", "keepfirst", "sharedargs") if not ctx.quick else ("direct",):
        ctx.tlc("QpMetricReg", CFG_M % (3, 6, "FALSE", mut, view), refute=True)
    # behaviours
    got = ctx.tlc("QpFactory", CFG_F % (4, '{"A", "B", "C"}', '{"k", "l"}', 4, 18, "TRUE", "none", ""), sim=ctx.n(60, 600), depth=24)
    ctx.sample(got[0] if got else {})
    from qp.factory import Factory

    for i, beh in enumerate(got):
        replay_factory(ctx, beh, qp.instance() if i % 6 == 5 else Factory(), "global" if i % 6 == 5 else "fresh")
    got = ctx.tlc("QpMetricReg", CFG_M % (5, 14, "TRUE", "none", ""), sim=ctx.n(60, 600), depth=16)
    for beh in got:
        replay_metrics(ctx, beh)
    declared(ctx)
    three_ways(ctx)
    wrapped(ctx)
    ctx.assumptions += [
        "a metric defined after the registry was filled is found after an update of the registry, not necessarily before",
        "distributions of scipy are compared at the parameters that scipy's own tests use",
    ]
