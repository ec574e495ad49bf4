"""C13, C14: the integer codecs

QpCode.tla defines the codecs over the integers, MCCode.tla checks that they lose no more than they may, and
TLC gives the bytes that are right for every value of seeded densities.  QpSparse.tla is the encoder of a set
of densities with one dictionary, QpPursuit.tla the way of one density through pursuit, code and decoding; their
behaviours are replayed into the code with real dictionaries.
"""
import json
import os

import numpy as np
from scipy.special import voigt_profile

from common import rats, snapshot, unchanged

SPARSE = """SPECIFICATION Spec
INVARIANTS Permuted Own Intact
CONSTANTS
NAtoms = %d
NRows = %d
NTerms = %d
MUT = "%s"
Emit = %s
Rand = %s
"""

PURSUIT = """SPECIFICATION Spec
INVARIANTS Sized Distinct InRange Faithful
CONSTANTS
NAtoms = %d
NTerms = %d
NW = 3
Levels = %d
NCodes = %d
Twin = %d
MUT = "%s"
Emit = %s
Rand = %s
"""


def own_interp(xs, ys, pts):
    """The normalised interpolated densities, by their definition"""
    area = np.sum(0.5 * (ys[:, 1:] + ys[:, :-1]) * np.diff(xs), axis=1)
    out = np.stack([np.interp(pts, xs, row, left=0.0, right=0.0) for row in ys])
    return out / area[:, None], area


def own_cdf(xs, ys):
    """Integral up to every grid point"""
    cells = 0.5 * (ys[:, 1:] + ys[:, :-1]) * np.diff(xs)
    cum = np.concatenate([np.zeros((len(ys), 1)), np.cumsum(cells, axis=1)], axis=1)
    return cum / cum[:, -1:]


def packed_forms(qp):
    """The two packings"""
    from qp.packing_utils import PackingType

    return {"lin": PackingType.linear_from_rowmax, "log": PackingType.log_from_rowmax}


def check_packing(ctx, kind, cas, want, floor, maxima, info):
    """Packing and unpacking of one set of rows; gives the bytes"""
    from qp import packing_utils as pack

    form = packed_forms(ctx.qp)[kind]
    if kind == "lin":
        rel = cas["v"] / np.max(cas["v"], axis=1, keepdims=True)
        more = {}
    else:
        rel = np.where(cas["j"] < 0, 0.0, 10.0 ** (-cas["j"] * floor / (255.0 * 8)))
        more = dict(log_floor=-floor)
    vals = rel * maxima[:, None]
    keep = vals.copy()
    got, ymax = pack.pack_array(form, vals, **more)
    got = np.asarray(got)
    ctx.same(vals, keep, "packing leaves its input as it is", **info)
    ctx.check(got.dtype == np.uint8, "packed to bytes", got=str(got.dtype), **info)
    if not ctx.check(got.shape == vals.shape and np.size(ymax) == len(vals), "shape of what is packed", **info):
        return None, None, None
    ctx.same(np.ravel(ymax), vals.max(axis=1), "maximum of the row is kept", **info)
    bad = [
        (r, i, int(got[r, i]), want[r][i]) for r in range(len(vals)) for i in range(vals.shape[1]) if int(got[r, i]) not in want[r][i]
    ]
    ctx.check(not bad, "bytes within half a step", wrong=bad[:4], **info)
    for row in range(len(vals)):
        order = np.argsort(vals[row], kind="stable")
        ctx.check(np.all(np.diff(got[row][order].astype(int)) >= 0), "order within a row is kept", row=row, **info)
        one, top = pack.pack_array(form, vals[row : row + 1].copy(), **more)
        ctx.same(one[0], got[row], "each row is packed independently", row=row, **info)
        ctx.check(float(np.ravel(top)[0]) == vals[row].max(), "maximum of a row packed alone", row=row, **info)
    back = np.asarray(pack.unpack_array(form, got, row_max=ymax, **more))
    tops = maxima[:, None] * rel.max(axis=1, keepdims=True)
    if kind == "lin":
        ctx.within(back / tops, rel - 0.5 / 255, rel + 0.5 / 255, "unpacked within half a step", tol=1e-12, **info)
    else:
        half = 10.0 ** (floor / 510.0) * (1 + 1e-9)
        above = rel >= 10.0 ** (-floor * 254 / 255.0)
        ok = ~above | ((back / tops <= rel * half) & (back / tops >= rel / half))
        ctx.check(np.all(ok), "unpacked within half a relative step", where=np.argwhere(~ok)[:4].tolist(), **info)
        low = rel < 10.0 ** (-floor * 256 / 255.0)
        ctx.check(np.all(back[low] == 0), "far below the floor is nothing", **info)
    ctx.check(np.all(back[vals == 0] == 0), "zeros stay zeros", **info)
    ctx.close(back.max(axis=1) / vals.max(axis=1), np.ones(len(vals)), "maximum unpacked", rtol=1e-12, **info)
    return got, np.asarray(ymax), back


def check_packed(ctx, kind, grid, got, ymax, back, floor, pts, info):
    """The ensemble of what is packed"""
    qp = ctx.qp
    form = packed_forms(qp)[kind]
    data = dict(xvals=grid, ypacked=got, ymax=ymax, packing_type=form, log_floor=-floor)
    keep = snapshot(data)
    ens = qp.Ensemble(qp.packed_interp, data=data)
    want, _ = own_interp(grid, back, pts)
    span = grid[-1] - grid[0]
    ctx.close(ens.pdf(pts) * span, want * span, "pdf of the unpacked values", **info)
    zero = back[:, 0] == 0
    if zero.any():  # otherwise see the finding first-cell of C10
        ctx.close(np.asarray(ens.cdf(grid))[zero], own_cdf(grid, back)[zero], "cdf of the unpacked values", **info)
    ref = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=back.copy()))
    quants = np.array([0.0, 0.07, 0.5, 0.91, 1.0])
    ctx.close(ens.cdf(pts), np.asarray(ref.cdf(pts)), "cdf of the interpolated density", **info)
    ctx.close(np.asarray(ens.ppf(quants)) / span, np.asarray(ref.ppf(quants)) / span, "ppf of the interpolated density", **info)
    ctx.close(np.ravel(ens.mean()) / span, np.ravel(ref.mean()) / span, "mean of the interpolated density", **info)
    ctx.close(np.ravel(ens.moment(2)) / span**2, np.ravel(ref.moment(2)) / span**2, "second moment", **info)
    ctx.check(unchanged(data, keep), "data of the caller are as they were", **info)
    return ens, want


def lin_case(rng, rows, size):
    """Whole numbers, the largest first or last now and then"""
    top = int(rng.choice([1, 2, 7, 255, 256, 509, 510, 1000, 65535]))
    vals = rng.integers(0, top + 1, size=(rows, size))
    vals = vals * (rng.random((rows, size)) < 0.8)
    if rng.random() < 0.3:
        vals[:, 0] = 0
    for row in vals:
        row[int(rng.integers(1, size))] = int(rng.integers(1, top + 1)) if rng.random() < 0.5 else top
    return dict(op="packlin", v=vals)


def log_case(rng, rows, size):
    """Places on the logarithmic scale, in eighths of a step, no ties; -1 is a zero"""
    js = rng.integers(0, 8 * 300, size=(rows, size))
    if rng.random() < 0.5:
        js = rng.integers(0, 60, size=(rows, size)) * 8 + rng.integers(-3, 4, size=(rows, size))
    near = rng.random((rows, size)) < 0.2
    js[near] = rng.integers(8 * 250, 8 * 258, size=int(near.sum()))
    js = np.maximum(js, 0)
    js[js % 8 == 4] += 1
    js[rng.random((rows, size)) < 0.15] = -1
    if rng.random() < 0.3:
        js[:, 0] = -1
    for row in js:
        row[int(rng.integers(1, size))] = 0
    return dict(op="packlog", j=js)


def run_c13(ctx):
    """Packing"""
    ctx.tlc("MCCode")
    rng, qp = ctx.rng, ctx.qp
    cases, extra = [], []
    for i in range(ctx.n(160, 4000)):
        rows, size = int(rng.choice([1, 2, 3, 6])), int(rng.integers(3, 12))
        cases.append(lin_case(rng, rows, size) if i % 2 else log_case(rng, rows, size))
        floor = float(rng.choice([1.0, 2.0, 3.0, 4.0, 5.0, 2.5, 8.0, 12.5, 20.0]))
        extra.append((floor, 10.0 ** rng.uniform(-8, 8, rows) if i % 3 else np.ones(rows)))
    for i, (cas, (floor, maxima), want) in enumerate(zip(cases, extra, ctx.oracle(cases))):
        kind = "lin" if cas["op"] == "packlin" else "log"
        info = dict(case=cas, floor=floor, maxima=maxima)
        ctx.sample(dict(info, want=want))
        size = (cas["v"] if kind == "lin" else cas["j"]).shape[1]
        grid = np.cumsum(rng.uniform(0.1, 1, size)) * float(rng.choice([1.0, 1e-3, 250.0]))
        pts = np.concatenate([grid, 0.5 * (grid[1:] + grid[:-1]), [grid[0] - 0.01, grid[-1] * 1.01]])
        with ctx.case("packing", **info):
            got, ymax, back = check_packing(ctx, kind, cas, want, floor, maxima, info)
            if got is None:
                continue
            ens, pdf = check_packed(ctx, kind, grid, got, ymax, back, floor, pts, info)
            if i % 4 == 0:
                for ext in ("hdf5", "fits", "pq")[: ctx.n(2, 3)]:
                    name = os.path.join(ctx.scratch, "packed%d.%s" % (i, ext))
                    ens.write_to(name)
                    again = qp.read(name)
                    ctx.close(again.pdf(pts), pdf, "pdf after writing and reading (%s)" % ext, rtol=1e-6, **info)
                    ctx.same(again.objdata()["ypacked"], got, "bytes after writing and reading (%s)" % ext, **info)
            if i % 4 == 1:
                # converting a density packs its values on the grid
                src = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=np.maximum(back, 0)))
                more = dict(log_floor=-floor) if kind == "log" else {}
                conv = src.convert_to(qp.packed_interp_gen, xvals=grid, packing_type=packed_forms(qp)[kind], **more)
                vals = np.asarray(src.pdf(grid))
                ctx.check(conv.gen_class is qp.packed_interp_gen, "converted to packed", **info)
                ctx.close(np.ravel(conv.objdata()["ymax"]), vals.max(axis=1), "maxima of a conversion", **info)
                diff = np.abs(conv.objdata()["ypacked"].astype(int) - got.astype(int)).max()
                ctx.check(diff <= 1, "bytes of a conversion", diff=diff, **info)
                ctx.close(conv.pdf(pts) * (grid[-1] - grid[0]), pdf * (grid[-1] - grid[0]), "pdf of a conversion", rtol=0.03, atol=0.03, **info)


# ---------------------------------------------------------------------------
def atom(grid, mean, sig, gam, cut=1e-5):
    """A basis function: a Voigt profile, cut and of unit length"""
    out = voigt_profile(grid - mean, sig, gam)
    out = np.where(out >= cut, out, 0.0)
    return out / np.sqrt(np.sum(out**2))


class Dictionary:
    """A dictionary by its definition"""

    def __init__(self, grid, mu, sig, num):
        self.grid, self.mu, self.sig, self.num = grid, mu, sig, num
        self.means = np.linspace(mu[0], mu[1], num[0])
        self.sigs = np.linspace(sig[0], sig[1], num[1])
        self.gams = np.linspace(0, 0.5, num[2])

    def shape(self, pos):
        """Parameters at a position (indices of mean, width, shape)"""
        return self.means[pos[0]], self.sigs[pos[1]], self.gams[pos[2]]

    def atom(self, pos):
        """Basis function at a position"""
        return atom(self.grid, *self.shape(pos))

    def matrix(self):
        """All of them"""
        cols = [self.atom((i, j, k)) for i in range(self.num[0]) for j in range(self.num[1]) for k in range(self.num[2])]
        return np.stack(cols, axis=1)

    def dims(self, terms):
        """As the metadata have it"""
        return [self.num[0], self.num[1], self.num[2], 32001, terms]


def decoding(ctx):
    """Codes of all kinds decode to what they say"""
    from qp import sparse_rep

    rng, qp = ctx.rng, ctx.qp
    cases, dicts, shapes = [], [], []
    for _ in range(ctx.n(60, 1500)):
        num = [int(rng.integers(2, 14)), int(rng.integers(1, 6)), int(rng.integers(1, 5))]
        grid = np.linspace(0, float(rng.choice([1.0, 5.0])), int(rng.integers(40, 90)))
        if rng.random() < 0.3:
            grid = np.sort(rng.uniform(0, 5, 70))
        dic = Dictionary(grid, [grid[0] + 0.1 * grid[-1], 0.9 * grid[-1]], [0.03 * grid[-1], 0.12 * grid[-1]], num)
        total = num[0] * num[1] * num[2]
        rows, terms = int(rng.integers(1, 5)), int(rng.integers(1, 7))
        base = rng.integers(0, total, size=(rows, terms))
        if rng.random() < 0.3:
            base[:, -1] = total - 1
        coef = rng.integers(1, 32001, size=(rows, terms))
        coef[:, 1:] = np.where(rng.random((rows, terms - 1)) < 0.2, -(coef[:, 1:] // 40), coef[:, 1:])
        coef[:, 0] = rng.choice([32000, 17, 32767], size=rows)
        cases.append(dict(op="sparse", cb=np.stack([coef.ravel(), base.ravel()], axis=1), nsig=num[1], nv=num[2]))
        dicts.append(dic)
        shapes.append((rows, terms))
    for cas, dic, (rows, terms), want in zip(cases, dicts, shapes, ctx.oracle(cases)):
        info = dict(case=cas, dictionary=dict(num=dic.num, mu=dic.mu, sig=dic.sig, points=len(dic.grid)))
        ctx.sample(info)
        codes = np.array([w["n"] for w in want]).reshape(rows, terms)
        pos = [[want[r * terms + t]["f"] for t in range(terms)] for r in range(rows)]
        weights = np.array([w["c"] for w in want], float).reshape(rows, terms) / 32000.0
        weights[:, 0] = 1.0
        with ctx.case("decoding", **info):
            mine = [[sparse_rep.combine_int(int(c), int(b)) for c, b in cas["cb"][r * terms : (r + 1) * terms]] for r in range(rows)]
            ctx.same(np.array(mine), codes, "coefficient and index in one integer", **info)
            parts = [sparse_rep.get_N(int(n)) for n in codes.ravel()]
            ctx.same(np.array(parts), np.array([[w["c"], w["b"]] for w in want]), "pair from one integer", **info)
            parts = sparse_rep.get_N(codes)
            ctx.same(np.stack([np.ravel(p) for p in parts], axis=1), np.array([[w["c"], w["b"]] for w in want]), "pairs from an array", **info)
            ind, vals = sparse_rep.decode_sparse_indices(codes)
            ctx.same(ind, np.array([w["b"] for w in want]).reshape(rows, terms), "indices of the basis", **info)
            ctx.close(vals, weights, "weights", rtol=1e-12, atol=1e-12, **info)
            meta = dict(xvals=dic.grid, mu=dic.mu, sig=dic.sig, dims=dic.dims(terms))
            got = sparse_rep.indices2shapes(codes, meta)
            shp = np.array([[dic.shape(p) for p in row] for row in pos])
            ctx.close(got[0], weights, "weights of the shapes", **info)
            for part in range(3):
                ctx.close(got[part + 1], shp[..., part], ["means", "widths", "shapes"][part] + " of the basis functions", **info)
            mat = np.asarray(sparse_rep.create_basis(meta))
            ctx.close(mat, dic.matrix(), "dictionary of basis functions", **info)
            dens = np.stack([sum(w * dic.atom(p) for w, p in zip(weights[r], pos[r])) for r in range(rows)])
            area = np.sum(0.5 * (dens[:, 1:] + dens[:, :-1]) * np.diff(dic.grid), axis=1)
            good = (area > 0.02) & (dens.min(axis=1) > -0.5)
            if not good.all():
                continue
            want_pdf = dens / area[:, None]
            data = dict(xvals=dic.grid, mu=dic.mu, sig=dic.sig, dims=dic.dims(terms), sparse_indices=codes)
            keep = snapshot(data)
            ens = ctx.qp.Ensemble(qp.sparse, data=data)
            ctx.close(ens.pdf(dic.grid), want_pdf, "decoded density is the weighted sum", rtol=1e-8, atol=1e-8, **info)
            mid = 0.5 * (dic.grid[1:] + dic.grid[:-1])
            ctx.close(ens.pdf(mid), 0.5 * (want_pdf[:, 1:] + want_pdf[:, :-1]), "decoded density between the points", rtol=1e-8, atol=1e-8, **info)
            if dens.min() >= 0:
                alt = np.asarray(sparse_rep.pdf_from_sparse(codes, mat, dic.grid, cut=0.0))
                ctx.close(alt.T if alt.shape != want_pdf.shape else alt, want_pdf, "pdf_from_sparse", rtol=1e-8, atol=1e-8, **info)
                for row in range(rows):
                    pdf = sparse_rep.shapes2pdf(*[part[row] for part in got], meta)
                    ctx.close(pdf, want_pdf[row], "density from the shapes", rtol=1e-3, atol=1e-3 * want_pdf[row].max(), row=row, **info)
            ctx.check(unchanged(data, keep), "data of the caller are as they were", **info)


EDGES = [0, 1, 2, 255, 256, 4095, 4096, 32766, 32767, 32768, 32769, 40000, 49152, 65534, 65535]


def edges(ctx):
    """Indices of the basis up to the largest that fit, with and without a dictionary"""
    from qp import sparse_rep

    rng, qp = ctx.rng, ctx.qp
    coefs = [1, 2, 17, 255, 16384, 31999, 32000, 32767, -1, -2, -300, -32000]
    pairs = [(c, b) for c in coefs for b in EDGES] + [(int(c), int(b)) for c, b in zip(rng.integers(-32000, 32001, 60), rng.integers(0, 65536, 60))]
    sizes = [(60, 40, 27), (400, 9, 18), (257, 15, 17), (1000, 13, 5)][: ctx.n(3, 4)]
    cases = [dict(op="sparse", cb=[list(p) for p in pairs], nsig=7, nv=5)]
    big = []
    for num in sizes:
        total = int(np.prod(num))
        base = [b for b in EDGES if b < total] + [total - 1] + rng.integers(32768, total, 3).tolist()
        rows = [[(32000, base[i]), (int(rng.integers(1, 32000)), base[(i + 3) % len(base)])] for i in range(len(base))]
        big.append(rows)
        cases.append(dict(op="sparse", cb=np.array(rows).reshape(-1, 2).tolist(), nsig=num[1], nv=num[2]))
    out = ctx.oracle(cases)
    with ctx.case("codes at the edges"):
        codes = np.array([w["n"] for w in out[0]])
        want = np.array([[w["c"], w["b"]] for w in out[0]])
        ctx.same(np.array([sparse_rep.combine_int(c, b) for c, b in pairs]), codes, "coefficient and index in one integer")
        ctx.same(np.array([sparse_rep.get_N(int(n)) for n in codes]), want, "pair from one integer")
        for kind in ("i8", "i4"):
            got = sparse_rep.get_N(codes.astype(kind))
            ctx.same(np.stack(got, axis=1), want, "pairs from an array (%s)" % kind)
        ind, vals = sparse_rep.decode_sparse_indices(np.stack([codes, codes[::-1]], axis=1))
        ctx.same(ind, np.stack([want[:, 1], want[::-1, 1]], axis=1), "indices of the basis")
        ctx.close(vals[:, 1], want[::-1, 0] / 32000.0, "weights", rtol=1e-12, atol=1e-12)
    for num, rows, have in zip(sizes, big, out[1:]):
        grid = np.linspace(0, 3, 31)
        dic = Dictionary(grid, [0.3, 2.7], [0.1, 0.4], num)
        codes = np.array([w["n"] for w in have]).reshape(-1, 2)
        pos = [[have[2 * r + t]["f"] for t in range(2)] for r in range(len(codes))]
        weights = np.array([w["c"] for w in have], float).reshape(-1, 2) / 32000.0
        info = dict(num=num, rows=rows)
        with ctx.case("large dictionaries", **info):
            meta = dict(xvals=grid, mu=dic.mu, sig=dic.sig, dims=dic.dims(2))
            got = sparse_rep.indices2shapes(codes, meta)
            shp = np.array([[dic.shape(p) for p in row] for row in pos])
            for part in range(3):
                ctx.close(got[part + 1], shp[..., part], ["means", "widths", "shapes"][part] + " of the basis functions", **info)
            dens = np.stack([sum(w * dic.atom(p) for w, p in zip(weights[r], pos[r])) for r in range(len(codes))])
            area = np.sum(0.5 * (dens[:, 1:] + dens[:, :-1]) * np.diff(grid), axis=1)
            ens = qp.Ensemble(qp.sparse, data=dict(meta, sparse_indices=codes))
            ctx.close(ens.pdf(grid), dens / area[:, None], "decoded density is the weighted sum", rtol=1e-8, atol=1e-8, **info)
            name = os.path.join(ctx.scratch, "large.hdf5")
            ens.write_to(name)
            ctx.same(qp.read(name).objdata()["sparse_indices"], codes, "codes after writing and reading", **info)
            ctx.traces += 1
        if ctx.quick:
            continue
        with ctx.case("encoding with large dictionaries", **info):
            place = [p[0] for p in pos[-4:]]
            dens = np.stack([dic.atom(p) for p in place])
            args = dict(mu=dic.mu, Nmu=num[0], sig=dic.sig, Nsig=num[1], Nv=num[2], Nsparse=2, verbose=False)
            made, _, _ = sparse_rep.build_sparse_representation(grid, dens.copy(), **args)
            flat = [(p[0] * num[1] + p[1]) * num[2] + p[2] for p in place]
            ctx.same(np.asarray(made)[:, 0] & 0xFFFF, np.array(flat), "basis function of a density that is one", **info)


def encoding(ctx):
    """Sets of densities are encoded as on their own"""
    from qp import sparse_rep

    rng, qp = ctx.rng, ctx.qp
    ctx.tlc("QpSparse", SPARSE % ((4, 2, 3) + ("none", "FALSE", "FALSE")))
    if not ctx.quick:
        ctx.tlc("QpSparse", SPARSE % ((4, 3, 3) + ("none", "FALSE", "FALSE")))
    ctx.tlc("QpSparse", SPARSE % ((4, 2, 3) + ("swapped", "FALSE", "FALSE")), refute=True)
    runs = ctx.tlc("QpSparse", SPARSE % ((6, 5, 4) + ("none", "TRUE", "TRUE")), sim=ctx.n(40, 600), depth=40)
    runs = list({json.dumps(r): r for r in runs}.values())
    for run in runs:
        ctx.traces += 1
        # six atoms far apart: narrow Gaussians at means that differ by much more than their widths
        grid = np.linspace(0, 6, int(rng.choice([181, 200, 241])))
        num = [int(rng.choice([12, 18, 24])), int(rng.integers(1, 4)), int(rng.integers(1, 4))]
        dic = Dictionary(grid, [0.3, 5.7], [0.07, 0.1], num)
        step = num[0] // 6
        place = [(a * step + int(rng.integers(0, max(1, step // 2))), int(rng.integers(0, num[1])), 0) for a in range(6)]
        place = [place[i] for i in rng.permutation(6)]
        coefs = [1.0, 0.6, 0.35, 0.2]
        rows = run["rows"]
        dens = np.stack([sum(c * dic.atom(place[a - 1]) for c, a in zip(coefs, row)) for row in rows])
        scale = rng.uniform(0.5, 2.0, len(rows))
        dens = dens * scale[:, None]
        most = max(len(r) for r in rows)
        terms = most + int(rng.integers(0, 3))
        info = dict(behaviour=run, places=place, num=num, terms=terms)
        with ctx.case("encoding", **info):
            given = dens.copy()
            args = dict(mu=dic.mu, Nmu=num[0], sig=dic.sig, Nsig=num[1], Nv=num[2], Nsparse=terms, verbose=False)
            codes, meta, mat = sparse_rep.build_sparse_representation(grid, given, **args)
            codes = np.asarray(codes)
            ctx.same(given, dens, "densities are as they were", **info)
            ctx.close(mat, dic.matrix(), "dictionary is as it was", **info)
            if not ctx.check(codes.shape == (len(rows), terms), "shape of the codes", got=codes.shape, **info):
                continue
            flat = lambda p: (p[0] * num[1] + p[1]) * num[2] + p[2]  # noqa: E731
            for row, atoms in enumerate(run["code"]):
                want = [flat(place[a - 1]) for a in atoms]
                got = (codes[row] & 0xFFFF)[: len(want)].tolist()
                ctx.check(got == want, "basis functions in the code of a density", row=row, got=got, want=want, **info)
                alone, _, _ = sparse_rep.build_sparse_representation(grid, dens[row : row + 1].copy(), **args)
                ctx.same(np.asarray(alone)[0], codes[row], "the code is the one of the density on its own", row=row, **info)
            again, _, _ = sparse_rep.build_sparse_representation(grid, dens[::-1].copy(), **args)
            ctx.same(np.asarray(again)[::-1], codes, "codes go with their densities in any order", **info)
            one, two = sparse_rep.sparse_basis(mat, dens[0], terms, tolerance=1e-10)
            ctx.check(len(one) <= terms and len(two) == len(one), "number of terms", **info)
            ctx.close(mat, dic.matrix(), "dictionary after encoding one density", **info)
            data = dict(xvals=meta["xvals"], mu=meta["mu"], sig=meta["sig"], dims=meta["dims"], sparse_indices=codes)
            ctx.check(list(np.ravel(meta["dims"]))[:3] == num and int(meta["dims"][4]) == terms, "dimensions in the metadata", **info)
            ens = qp.Ensemble(qp.sparse, data=data)
            area = np.sum(0.5 * (dens[:, 1:] + dens[:, :-1]) * np.diff(grid), axis=1)
            ctx.close(ens.pdf(grid), dens / area[:, None], "decoded is what was encoded", rtol=1e-2, atol=2e-3, **info)


def areas(grid, dens):
    """Integrals of the densities on a grid"""
    return np.sum(0.5 * (dens[:, 1:] + dens[:, :-1]) * np.diff(grid), axis=1)


def decoded(ctx, codes, meta):
    """Densities of what was encoded, at the points of the grid"""
    data = dict(xvals=meta["xvals"], mu=meta["mu"], sig=meta["sig"], dims=meta["dims"], sparse_indices=np.asarray(codes))
    return np.asarray(ctx.qp.Ensemble(ctx.qp.sparse, data=data).pdf(meta["xvals"]))


def pursuit(ctx):
    """What is decoded is what the pursuit found, whatever is selected first"""
    from qp import sparse_rep

    rng = ctx.rng
    for args in [(4, 3, 8, 4, 0), (4, 4, 8, 4, 4), (5, 3, 8, 4, 0)][ctx.n(1, 0) :]:
        ctx.tlc("QpPursuit", PURSUIT % (args + ("none", "FALSE", "FALSE")))
    for args in [(4, 3, 8, 4, 0, "first"), (4, 3, 8, 4, 4, "counted"), (5, 3, 8, 4, 0, "wrapped")][: ctx.n(1, 3)]:
        ctx.tlc("QpPursuit", PURSUIT % (args + ("FALSE", "FALSE")), refute=True)
    runs = ctx.tlc("QpPursuit", PURSUIT % (6, 6, 32000, 6, 0, "none", "TRUE", "TRUE"), sim=ctx.n(150, 2500), depth=20)
    runs = list({json.dumps(r["row"]): r for r in runs}.values())
    for run in runs:
        ctx.traces += 1
        # six atoms that overlap: the broad one between two others is often selected first
        num = [[6, 1, 1], [3, 2, 1], [2, 3, 1], [3, 1, 2], [2, 1, 3]][int(rng.integers(0, 5))]
        grid = np.linspace(0, 3, int(rng.choice([61, 100])))
        wide = float(rng.uniform(0.2, 0.3))
        dic = Dictionary(grid, [1.0, 2.0], [wide, 2.2 * wide] if num[1] > 1 else [wide, wide], num)
        mat = dic.matrix()
        steps = np.zeros(6)
        for term, word in enumerate(run["code"]):
            steps[word["b"] - 1] = word["c"] if term else 32000
        weights = np.array(run["row"], float)
        info = dict(behaviour=run, num=num, sig=dic.sig, points=len(grid))
        ctx.sample(info)
        with ctx.case("pursuit", **info):
            dens = (mat @ weights)[None]
            dens = dens / areas(grid, dens)[:, None]
            want = (mat @ steps)[None]
            want = want / areas(grid, want)[:, None]
            args = dict(mu=dic.mu, Nmu=num[0], sig=dic.sig, Nsig=num[1], Nv=num[2], verbose=False)
            codes, meta, _ = sparse_rep.build_sparse_representation(grid, dens.copy(), Nsparse=6, tol=1e-14, **args)
            ctx.check(np.asarray(codes).shape == (1, 6), "shape of the codes", **info)
            ctx.close(decoded(ctx, codes, meta), want, "decoded is what the weights say", rtol=3e-4, atol=3e-4, **info)
            ctx.close(want, dens, "steps of the weights", rtol=3e-4, atol=3e-4, **info)
    for _ in range(ctx.n(120, 2500)):
        num = [int(rng.integers(2, 30)), int(rng.integers(1, 7)), int(rng.integers(1, 4))]
        grid = np.linspace(0, 3, int(rng.choice([20, 40, 90])))
        low = float(rng.uniform(0.1, 0.4))
        sig = [low, low + float(rng.choice([0.0, 0.01, 0.3]))]
        dic = Dictionary(grid, [0.0, 3.0], sig, num)
        mat = dic.matrix()
        rows = []
        for _row in range(2):
            many = int(rng.integers(1, 5))
            means, sigs, wts = rng.uniform(0.8, 2.2, many), rng.uniform(0.12, 0.3, many), rng.uniform(0.3, 1, many)
            rows.append(sum(w / s * np.exp(-0.5 * ((grid - m) / s) ** 2) for w, s, m in zip(wts, sigs, means)))
        if rng.random() < 0.3:
            rows[0] = dic.atom([int(rng.integers(0, n)) for n in num])
        dens = np.stack(rows)
        dens = dens / areas(grid, dens)[:, None]
        terms, tol = int(rng.choice([1, 2, 4, 8, 20, 60])), float(rng.choice([1e-10, 1e-4, 1e-14]))
        info = dict(num=num, grid=len(grid), sig=sig, densities=dens, terms=terms, tol=tol)
        with ctx.case("pursuit of any density", **info):
            fits, last = [], None
            for row in dens:
                for most in sorted({1, max(1, terms // 2), terms}):
                    ind, val = sparse_rep.sparse_basis(mat.copy(), row.copy(), most, tolerance=tol)
                    ind, val = np.asarray(ind), np.asarray(val)
                    ctx.check(len(ind) == len(val) <= most, "as many weights as terms, no more than asked for", most=most, **info)
                    ctx.check(len(set(ind.tolist())) == len(ind), "no basis function twice", **info)
                    left = row - mat[:, ind] @ val
                    size = np.linalg.norm(row)
                    good = np.linalg.cond(mat[:, ind]) < 1e5
                    if good:
                        ctx.check(np.abs(mat[:, ind].T @ left).max() <= 1e-6 * size, "weights are the best for what was selected", **info)
                    if most == 1:
                        over = np.abs(mat.T @ row)
                        ctx.check(over[ind[0]] >= over.max() * (1 - 1e-9), "the one that overlaps most comes first", **info)
                        last = np.linalg.norm(left)
                    if good:
                        ctx.check(np.linalg.norm(left) <= last + 1e-6 * size, "more terms leave less", most=most, **info)
                        last = np.linalg.norm(left)
                fits.append((mat[:, ind] @ val, val, ind, good))
            args = dict(mu=dic.mu, Nmu=num[0], sig=sig, Nsig=num[1], Nv=num[2], Nsparse=terms, tol=tol, verbose=False)
            codes, meta, _ = sparse_rep.build_sparse_representation(grid, dens.copy(), **args)
            got = decoded(ctx, codes, meta)
            for row, (fit, val, ind, good) in enumerate(fits):
                area = areas(grid, fit[None])[0]
                step = np.abs(mat[:, ind]).sum(axis=1) * val.max() / 64000.0
                if not good or area < 0.3:
                    continue
                # half a step of every term, on the density and on its integral
                slack = 1.1 * (step + np.abs(fit) * areas(grid, step[None])[0] / area) / area + 1e-6 * np.abs(fit).max()
                ctx.check(np.all(np.abs(got[row] - fit / area) <= slack), "decoded is what the pursuit found", row=row, got=got[row], want=fit / area, **info)


def building(ctx):
    """Dictionaries that are left to the encoder, and those that are too large for the code"""
    from qp import conversion_funcs, sparse_rep

    rng, qp = ctx.rng, ctx.qp
    for _ in range(ctx.n(6, 40)):
        points = int(rng.choice([30, 45, 60]))
        grid = np.linspace(float(rng.choice([0.0, -2.0, 10.0])), 20.0, points)
        span, step = grid[-1] - grid[0], grid[1] - grid[0]
        means = grid[0] + span * rng.uniform(0.25, 0.75, (3, 2))
        sigs = rng.uniform(2.5 * step, span / 13, (3, 2)) if 2.5 * step < span / 13 else np.full((3, 2), 2.5 * step)
        dens = sum(np.exp(-0.5 * ((grid - means[:, [i]]) / sigs[:, [i]]) ** 2) for i in range(2))
        dens = dens / areas(grid, dens)[:, None]
        tops = dens.max(axis=1)[:, None]
        some = dict(
            mu=[float(grid[0]), float(grid[-1])], Nmu=points, sig=[float(step), float(span / 10)], Nsig=int(rng.integers(4, 9)), Nv=int(rng.integers(1, 4))
        )
        given = {k: v for k, v in some.items() if rng.random() < 0.5}
        info = dict(points=points, given=given, means=means, sigs=sigs)
        ctx.sample(info)
        with ctx.case("defaults", **info):
            codes, meta, mat = sparse_rep.build_sparse_representation(grid, dens.copy(), verbose=bool(rng.random() < 0.3), **given)
            dims = [int(d) for d in meta["dims"]]
            ctx.check(np.asarray(codes).shape == (3, dims[4]) and dims[4] == 20, "number of terms", got=dims, **info)
            ctx.check(dims[3] == 32001 and dims[0] * dims[1] * dims[2] == mat.shape[1], "size of the dictionary", got=dims, **info)
            for pos, key in enumerate(("Nmu", "Nsig", "Nv")):
                ctx.check(key not in given or dims[pos] == given[key], "sizes that were given", key=key, got=dims, **info)
            for key in ("mu", "sig"):
                ctx.check(key not in given or np.allclose(meta[key], given[key]), "ranges that were given", key=key, **info)
            dic = Dictionary(grid, meta["mu"], meta["sig"], dims[:3])
            ctx.close(mat, dic.matrix(), "dictionary that the metadata describe", **info)
            got = decoded(ctx, codes, meta)
            ctx.within(got / tops, dens / tops - 0.06, dens / tops + 0.06, "decoded is near what was encoded", **info)
        with ctx.case("conversion functions", **info):
            src = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=dens))
            made = conversion_funcs.extract_voigt_xy_sparse(src, nz=points)
            meta = made["metadata"]
            want = np.asarray(src.pdf(meta["xvals"]))
            got = decoded(ctx, made["indices"], meta)
            ctx.within(got / tops, want / tops - 0.06, want / tops + 0.06, "density of the sparse indices", **info)
            shapes = conversion_funcs.extract_voigt_xy(src, nz=points)
            for row in range(3):
                pdf = sparse_rep.shapes2pdf(*[shapes[k][row] for k in ("weights", "means", "stds", "gammas")], meta)
                ctx.within(pdf / tops[row], want[row] / tops[row] - 0.08, want[row] / tops[row] + 0.08, "density of the shapes", row=row, **info)
            made = conversion_funcs.extract_xy_sparse(src, nvals=points)
            want = np.asarray(src.pdf(made["xvals"]))
            ctx.within(made["yvals"] / tops, want / tops - 0.06, want / tops + 0.06, "values of the sparse density", **info)
            conv = src.convert_to(qp.sparse_gen, nvals=points)
            ctx.close(conv.pdf(made["xvals"]), made["yvals"], "conversion gives the same values", rtol=1e-6, atol=1e-6 * float(tops.max()), **info)
    sizes = [(5000, None, 3), (4096, 8, 2), (4097, 8, 2), (21845, 1, 3), (300, 110, 2)][: ctx.n(4, 5)]
    for nmu, nsig, nv in sizes:
        grid = np.linspace(0, 3, 31)
        info = dict(Nmu=nmu, Nsig=nsig, Nv=nv)
        with ctx.case("as many basis functions as there are codes", **info):
            dens = np.exp(-0.5 * ((grid - np.array([[0.4], [1.9], [2.8]])) / 0.3) ** 2)
            dens = dens / areas(grid, dens)[:, None]
            more = dict(Nsig=nsig) if nsig else {}
            fits = nsig is None or nmu * nsig * nv <= 65536
            try:
                codes, meta, _ = sparse_rep.build_sparse_representation(grid, dens, mu=[0, 3], Nmu=nmu, sig=[0.3, 0.8], Nv=nv, Nsparse=3, verbose=False, **more)
            except ValueError:
                ctx.check(not fits, "basis functions that fit are not refused", **info)
                continue
            got = decoded(ctx, codes, meta)
            ctx.within(got, dens - 0.02, dens + 0.02, "decoded with many basis functions", **info)
    if not ctx.quick:
        grid = np.linspace(0, 3, 40)
        dens = np.exp(-0.5 * ((grid - np.array([[1.0], [2.7]])) / 0.2) ** 2)
        src = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=dens))
        for nvals in (300, 400, 600):
            with ctx.case("conversion with many values", nvals=nvals):
                want = np.asarray(src.pdf(grid))
                ctx.within(src.convert_to(qp.sparse_gen, nvals=nvals).pdf(grid), want - 0.06, want + 0.06, "density", nvals=nvals)


def run_c14(ctx):
    """Sparse representations"""
    ctx.tlc("MCCode")
    decoding(ctx)
    edges(ctx)
    encoding(ctx)
    pursuit(ctx)
    building(ctx)
