"""Families of ensembles with every representation of qp, row by row.

A family makes an ensemble from abstract row numbers and one of two variants of the metadata; what it
has to be is given by single-row references made afresh from the same data.
"""
import numpy as np


class Family:
    """One representation"""

    two = True  # there are two variants of the metadata
    alt = False  # there is an alternate constructor
    smooth = False
    whole = True  # some rows have parameters that are whole numbers, given as integers where all of them are

    def __init__(self, qp, name):
        self.qp = qp
        self.name = name
        self.refs = {}

    # ---- to be provided: the constructor and its data
    def ctor(self, alt=False):
        """Constructor function"""
        return getattr(self.qp, self.name)

    def data(self, rows, meta, alt=False):
        """Its data, new arrays every time"""
        raise NotImplementedError

    def objdata(self, rows, meta):
        """Data of the rows as `update_objdata` takes it"""
        full = self.data(rows, meta)
        keys = self.build(rows[:1], meta).objdata()
        return {k: full[k] for k in keys}

    def points(self):
        """Points to evaluate at, inside and outside of the supports"""
        return np.array([-0.7, 0.12, 0.55, 0.93, 1.31, 1.77, 2.23, 2.9, 3.41, 4.2, 4.77, 5.6])

    def switchable(self, other):
        """An ensemble can be turned into one of the other in place"""
        return False

    # ---- common
    def build(self, rows, meta, alt=False):
        """A new ensemble"""
        return self.qp.Ensemble(self.ctor(alt), data=self.data(rows, meta, alt))

    def ref(self, row, meta):
        """What a single row has to be: name of the class, parameters, metadata, functions"""
        key = (int(row), int(meta))
        if key not in self.refs:
            ens = self.build([row], meta)
            pts = self.points()
            self.refs[key] = dict(
                objdata={k: np.asarray(v) for k, v in ens.objdata().items()},
                meta=plain_meta(ens.metadata()),
                cls=ens.gen_class,
                pdf=np.asarray(ens.pdf(pts))[0],
                cdf=np.asarray(ens.cdf(pts))[0],
                ppf=np.asarray(ens.ppf(QS))[0],
            )
        return self.refs[key]

    def bad_data(self, rows, meta, alt=False):
        """Data no constructor can accept"""
        raise NotImplementedError


QS = np.array([0.0, 0.1, 0.25, 0.5, 0.62, 0.9, 0.99])


def plain_meta(meta):
    """Metadata in a form that does not depend on how it was kept"""
    out = {}
    for key, val in meta.items():
        arr = np.squeeze(np.asarray(val))
        if arr.dtype.kind == "S":
            arr = np.char.decode(arr)
        out[key] = arr
    return out


def same_meta(one, two, tol=1e-14):
    """True if the metadata are the same"""
    if set(one) != set(two):
        return False
    for key, val in one.items():
        oth = two[key]
        if val.shape != oth.shape:
            return False
        if val.dtype.kind in "US" or oth.dtype.kind in "US":
            if not np.array_equal(val.astype(str), oth.astype(str)):
                return False
        elif not np.allclose(val.astype(float), oth.astype(float), rtol=tol, atol=0):
            return False
    return True


def rnd(row, salt):
    """Numbers that depend on the row only"""
    return np.random.default_rng([int(row), salt, 11])


def stack(func, rows):
    """Rows of an array"""
    return np.stack([func(r) for r in rows])


class Scipy(Family):
    """Wrapped scipy distributions"""

    two = False

    def __init__(self, qp, name, shapes):
        super().__init__(qp, name)
        self.shapes = shapes

    def ctor(self, alt=False):
        return getattr(self.qp.stats, self.name)

    def loc(self, row):
        """Where a distribution is"""
        return 1 + row % 3 if self.whole and row % 4 == 1 else 0.2 + 0.31 * (row % 7)

    def data(self, rows, meta, alt=False):
        out = dict(
            loc=stack(lambda r: [self.loc(int(r))], rows), scale=stack(lambda r: [0.3 + rnd(r, 1).uniform(0, 0.8)], rows)
        )
        for i, key in enumerate(self.shapes):
            out[key] = stack(lambda r, i=i: [1.2 + rnd(r, 2 + i).uniform(0, 2)], rows)
        return out

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["loc"] = np.ones((len(rows) + 2, 1))
        out["scale"] = np.ones((len(rows) + 3, 1))
        return out


class Hist(Family):
    """Histograms"""

    def edges(self, meta):
        return np.array([0.0, 0.5, 1.0, 2.0, 3.5, 5.0]) if meta == 1 else np.array([0.0, 0.4, 1.2, 2.1, 3.0, 4.5])

    def data(self, rows, meta, alt=False):
        return dict(bins=self.edges(meta), pdfs=stack(lambda r: rnd(r, 3).uniform(0.05, 1, 5), rows))

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["pdfs"] = out["pdfs"][:, :-1]
        return out


class Interp(Family):
    """Interpolated on a common grid"""

    def grid(self, meta):
        return np.array([0.0, 0.4, 1.0, 1.7, 2.6, 3.3, 5.0]) if meta == 1 else np.array([0.0, 0.4, 1.0, 1.704, 2.6, 3.3, 5.0])

    def values(self, row, num):
        out = rnd(row, 4).uniform(0.05, 1, num)
        out[0] = 0.0
        return out

    def data(self, rows, meta, alt=False):
        grid = self.grid(meta)
        return dict(xvals=grid, yvals=stack(lambda r: self.values(r, grid.size), rows))

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["yvals"] = out["yvals"][:, :-1]
        return out


class Irregular(Family):
    """Interpolated on grids of their own"""

    two = False

    def places(self, row):
        """Points of the grid"""
        if self.whole and int(row) % 4 == 1:
            return np.arange(7) - 2 + int(row) % 3
        return np.sort(rnd(row, 5).uniform(0.1 * (int(row) % 3), 3 + 0.5 * (int(row) % 4), 7))

    def data(self, rows, meta, alt=False):
        return dict(
            xvals=stack(self.places, rows),
            yvals=stack(lambda r: rnd(r, 6).uniform(0.05, 1, 7), rows),
        )

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["yvals"] = out["yvals"][:, :-1]
        return out


class Quant(Family):
    """Quantiles"""

    def __init__(self, qp, name, method, asis=False):
        super().__init__(qp, name)
        self.method = method
        self.asis = asis

    def data(self, rows, meta, alt=False):
        quants = np.array([0.0, 0.02, 0.1, 0.3, 0.5, 0.65, 0.8, 0.93, 0.99, 1.0])
        if meta == 2:
            quants = np.array([0.0, 0.05, 0.1, 0.3, 0.45, 0.6, 0.8, 0.9, 0.97, 1.0])
        locs = stack(lambda r: 0.3 * (int(r) % 4) + np.cumsum(rnd(r, 7).uniform(0.2, 0.5, quants.size)), rows)
        out = dict(quants=quants, locs=locs, pdf_constructor_name=self.method)
        return dict(out, check_input=False) if self.asis else out

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["locs"] = out["locs"][:, :-1]
        return out

    def switchable(self, other):
        return isinstance(other, Quant) and other.method != self.method and other.asis == self.asis

    def switch(self, ens):
        """Choose this way of making a density"""
        ens.dist.pdf_constructor_name = self.method


class Mixmod(Family):
    """Gaussian mixtures"""

    two = False

    def means(self, row):
        """Means of the components"""
        out = rnd(row, 8).uniform(0.5, 3.5, 3)
        return out.round().astype(int) if self.whole and int(row) % 4 == 1 else out

    def data(self, rows, meta, alt=False):
        return dict(
            means=stack(self.means, rows),
            stds=stack(lambda r: rnd(r, 9).uniform(0.2, 0.9, 3), rows),
            weights=stack(lambda r: rnd(r, 10).uniform(0.1, 1, 3), rows),
        )

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["weights"] = -out["weights"]
        return out


class Spline(Family):
    """Splines, also from points"""

    two = False
    alt = True

    def points(self):
        return np.array([0.3, 0.55, 0.93, 1.31, 1.77, 2.23, 2.6])

    def ctor(self, alt=False):
        return self.qp.spline_from_xy if alt else self.qp.spline

    def xy(self, row):
        knots = np.concatenate([[0.1], np.sort(rnd(row, 12).uniform(0.3, 2.8, 6)), [3.0]])
        return knots, 0.3 + np.exp(-0.5 * ((knots - 1 - 0.2 * (int(row) % 5)) / 0.8) ** 2)

    def data(self, rows, meta, alt=False):
        xvals = stack(lambda r: self.xy(r)[0], rows)
        yvals = stack(lambda r: self.xy(r)[1], rows)
        if alt:
            return dict(xvals=xvals, yvals=yvals)
        return dict(zip(("splx", "sply", "spln"), self.qp.spline_gen.build_normed_splines(xvals, yvals)))

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta, alt)
        key = "yvals" if alt else "sply"
        out[key] = out[key][:, :-1]
        return out


class Packed(Family):
    """Packed densities"""

    def __init__(self, qp, name, kind):
        super().__init__(qp, name)
        self.kind = kind

    def data(self, rows, meta, alt=False):
        from qp.packing_utils import PackingType

        grid = np.array([0.0, 0.4, 1.0, 1.7, 2.6, 3.3, 5.0]) if meta == 1 else np.array([0.0, 0.5, 1.1, 2.0, 2.6, 3.9, 4.8])
        packed = stack(lambda r: np.concatenate([[0], rnd(r, 13).integers(90, 256, 6)]), rows).astype(np.uint8)
        out = dict(xvals=grid, ypacked=packed, ymax=stack(lambda r: [0.5 + (int(r) % 5)], rows))
        out["log_floor"] = -3.0 if meta == 1 else -2.3
        out["packing_type"] = PackingType.linear_from_rowmax if self.kind == "lin" else PackingType.log_from_rowmax
        return out

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["ypacked"] = out["ypacked"][:, :-1]
        return out


class Sparse(Family):
    """Sparse representation with Voigt profiles"""

    def data(self, rows, meta, alt=False):
        grid = np.linspace(0, 5, 61)
        dims = [12, 4, 3, 32001, 4]
        most = 12 * 4 * 3

        def codes(row):
            gen = rnd(row, 14)
            base = gen.choice(most, size=4, replace=False)
            coef = np.concatenate([[32000], gen.integers(2000, 32000, 3)])
            return (coef << 16) | base

        mu = [0.6, 4.4] if meta == 1 else [0.8, 4.0]
        out = dict(xvals=grid, mu=mu, sig=[0.1, 0.5], dims=dims, sparse_indices=stack(codes, rows).astype(int))
        return out if meta == 1 else dict(out, cut=0.03)

    def bad_data(self, rows, meta, alt=False):
        out = self.data(rows, meta)
        out["sparse_indices"] = out["sparse_indices"] + 65000  # no such basis function
        return out


def families(qp, which=None):
    """All of the families"""
    out = [
        Scipy(qp, "norm", []),
        Scipy(qp, "gamma", ["a"]),
        Scipy(qp, "beta", ["a", "b"]),
        Hist(qp, "hist"),
        Interp(qp, "interp"),
        Irregular(qp, "interp_irregular"),
        Quant(qp, "quant", "piecewise_linear"),
        Quant(qp, "quant", "piecewise_constant"),
        Quant(qp, "quant", "cdf_spline_derivative"),
        Quant(qp, "quant", "dual_spline_average"),
        Quant(qp, "quant", "piecewise_linear", asis=True),
        Mixmod(qp, "mixmod"),
        Spline(qp, "spline"),
        Packed(qp, "packed_interp", "lin"),
        Packed(qp, "packed_interp", "log"),
        Sparse(qp, "sparse"),
    ]
    labels = [
        "norm", "gamma", "beta", "hist", "interp", "interp_irregular", "quant", "quant_const", "quant_cdf", "quant_dual", "quant_asis",
        "mixmod", "spline", "packed_lin", "packed_log", "sparse",
    ]
    for fam, label in zip(out, labels):
        fam.label = label
    return [f for f in out if which is None or f.label in which]
