From 309375d48d9914de1c49a4645e2f88ea2c92d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 01/57] fix: evaluate every row at its own x values, in the
 order given

get_eval_case treated any flattened (x, row) pair with as many values as
unique(x) * unique(row) as the product of a sorted grid and the rows, so an
unsorted grid, or a different grid for each row, was evaluated at the wrong
values.
---
 src/qp/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..c7231a6 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,15 +204,16 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
-        rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+    # x and row factorize only if x is the flattened product of one grid and one set of rows,
+    # i.e., if every row is evaluated at the same values, in the same order.
+    n_rows = np.size(np.unique(row))
+    if np.size(x) % n_rows != 0 or np.size(row) not in [n_rows, np.size(x)]:
         return CASE_FLAT, x, row
-    return CASE_FACTOR, xx, np.expand_dims(rr, -1)
+    x_2d = np.reshape(x, (n_rows, -1))
+    row_2d = np.reshape(row, (n_rows, -1))
+    if np.any(x_2d != x_2d[0]) or np.any(row_2d != row_2d[:, :1]):
+        return CASE_FLAT, x, row
+    return CASE_FACTOR, x_2d[0], row_2d[:, :1]
 
 
 def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
-- 
2.43.0


From 94f8c68210c8bbce9f43e63c7b698795370b4ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 02/57] fix: weight each histogram bin by its own width in the
 moments

The width of the first bin was used for all the bins, so mean, variance and
moments were wrong for any non-uniform binning.
---
 src/qp/hist_pdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..13d868d 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -140,9 +140,8 @@ class hist_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._hbins[1] - self._hbins[0]
         xv = 0.5 * (self._hbins[1:] + self._hbins[:-1])
-        return np.sum(xv**m * self._hpdfs, axis=1) * dx
+        return np.sum(xv**m * self._hpdfs * self._hbin_widths, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 02229d585a8674fdcea0e4b9d9434f6529c5816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 03/57] fix: use the real grid spacing in the moments of
 interpolated pdfs

The spacing of the first two grid points was used for the whole grid, so the
moments were wrong for any non-uniform grid (and the end points were counted
twice). Use the trapezoid rule, as for the normalization.
---
 src/qp/interp_pdf.py        | 3 +--
 src/qp/packed_interp_pdf.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..6f16a28 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -154,8 +154,7 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..467da49 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -213,10 +213,9 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
         if self._yvals is None:  # pragma: no cover
             self._unpack()
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 6e416c00f3620fc01aed0c95b74c828782e9372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 04/57] fix: integrate irregularly interpolated pdfs with the
 trapezoid rule

The pdf is linear between the grid points, but its normalization and its cdf
only used the value at the right edge of each cell, so that the pdf did not
integrate to one (and was NaN if only the first value was not zero).
---
 src/qp/interp_pdf.py | 5 +++--
 src/qp/utils.py      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 6f16a28..3abcd95 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -290,8 +290,9 @@ class interp_irregular_gen(Pdf_rows_gen):
         self._ycumul = np.ndarray(copy_shape)
         self._ycumul[:, 0] = 0.0
         self._ycumul[:, 1:] = np.cumsum(
-            self._xvals[:, 1:] * self._yvals[:, 1:]
-            - self._xvals[:, :-1] * self._yvals[:, 1:],
+            (self._xvals[:, 1:] - self._xvals[:, :-1])
+            * 0.5
+            * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
 
diff --git a/src/qp/utils.py b/src/qp/utils.py
index c7231a6..2734a93 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -117,7 +117,7 @@ def normalize_interp1d(xvals, yvals):
     # vv = np.vectorize(row_integral)
     # integrals = vv(np.arange(xvals.shape[0]))
     integrals = np.sum(
-        xvals[:, 1:] * yvals[:, 1:] - xvals[:, :-1] * yvals[:, 1:], axis=1
+        0.5 * (xvals[:, 1:] - xvals[:, :-1]) * (yvals[:, 1:] + yvals[:, :-1]), axis=1
     )
     return (yvals.T / integrals).T
 
-- 
2.43.0


From 730febc39b2b2f799b055e19f6ae9da1f66b1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 05/57] fix: leave the ensemble unchanged when an update is
 rejected

update() replaced the distributions before checking the shapes of the ancillary
data, so that a rejected update left the new distributions with the old
ancillary data and the old cached pdf values.
---
 src/qp/ensemble.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..6d2c859 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,9 +170,14 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        self._frozen = self._gen_func(**data)
+        self._replace(self._gen_func(**data), ancil)
+
+    def _replace(self, frozen, ancil):
+        """Replace the distributions and the ancillary data, or neither of them"""
+        check_array_shapes(ancil, frozen.npdf)
+        self._frozen = frozen
         self._gen_obj = self._frozen.dist
-        self.set_ancil(ancil)
+        self._ancil = ancil
         self._gridded = None
         self._samples = None
 
-- 
2.43.0


From 9476c98c838857ab76f5152f5871e798ab1a490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 06/57] fix: append and concatenate ensembles built with an
 alternate constructor

The object data are the arguments of the default constructor of the class, but
they were passed to the function that the ensemble was created with, e.g.,
spline_from_xy, which takes other arguments.
---
 src/qp/ensemble.py | 2 +-
 src/qp/factory.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 6d2c859..92df19e 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -196,7 +196,7 @@ class Ensemble:
             new_data[k] = np.squeeze(v)
         new_data.update(self.objdata())
         new_data.update(data)
-        self.update(new_data, ancil)
+        self._replace(self._gen_obj.create(**new_data), ancil)
 
     def metadata(self):
         """Return the metadata for this ensemble
diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..8c3e9c7 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -337,7 +337,7 @@ class Factory(OrderedDict):
             metadata_list.append(ensemble.metadata())
             objdata_list.append(ensemble.objdata())
             if gen_func is None:
-                gen_func = ensemble.gen_func
+                gen_func = ensemble.gen_obj.create
             if ancil_list is not None:
                 if ensemble.ancil is None:
                     ancil_list = None
-- 
2.43.0


From 255d76363ffaf05fc3e8f357c0eb38f25680ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 07/57] fix: copy the grid that the cached pdf values belong to

The cache kept a reference to the grid, so when the caller changed the grid in
place the pdf values at the old grid were returned for the new one.
---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 92df19e..d694924 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -343,7 +343,7 @@ class Ensemble:
         the cached value
         """
         if self._gridded is None or not np.array_equal(self._gridded[0], grid):
-            self._gridded = (grid, self.pdf(grid))
+            self._gridded = (np.array(grid), self.pdf(grid))
         return self._gridded
 
     def write_to(self, filename):
-- 
2.43.0


From 50faaac251a6e5a714dfc0054b5ade102a9bee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 08/57] fix: add_to_ancil for an ensemble without ancillary
 data

It raised an AttributeError. Also stop changing the dictionary given by the
caller, which other ensembles may be using.
---
 src/qp/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index d694924..07fa4a7 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -267,7 +267,9 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
-        self._ancil.update(to_add)
+        ancil = {} if self._ancil is None else dict(self._ancil)
+        ancil.update(to_add)
+        self._ancil = ancil
 
     def append(self, other_ens):
         """Append another other_ens to this one
-- 
2.43.0


From 044f68b490e32b1cad58e05f358e13622c99e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 09/57] fix: keep the leading dimension of the ancillary data
 of a single pdf

ens[i] failed if any of the ancillary arrays had more than one dimension, and
otherwise had scalars as ancillary data, which could not be appended or written.
---
 src/qp/ensemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 07fa4a7..13fc5d5 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -70,6 +70,8 @@ class Ensemble:
                 red_data[k] = v
         if self._ancil is not None:
             ancil = slice_dict(self._ancil, key)
+            if isinstance(key, (int, np.integer)):
+                ancil = {k: np.expand_dims(v, 0) for k, v in ancil.items()}
         else:
             ancil = None
         return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
-- 
2.43.0


From 3b82a5fba051f6fcb5f3139b7f1673404b1b42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 10/57] fix: give every ensemble from the iterator its own
 ancillary data

All of them shared one dictionary, so the ancillary data of an ensemble changed
to those of the next chunk. Without ancillary data in the file it is None.
---
 src/qp/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 8c3e9c7..225717a 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -257,11 +257,12 @@ class Factory(OrderedDict):
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
         data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
         for start, end in ranges:
             for key, val in f.items():
                 data[key] = io.readHdf5DatasetToArray(val, start, end)
+            ancil_data = None
             if ancil_f is not None:
+                ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
                     ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
             yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-- 
2.43.0


From 8bb51955236894c49da7b574bc0cf3fc6c6f1c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 11/57] fix: overwrite all of the earlier contents when writing
 pq and h5 files

Writing an ensemble without ancillary data over one that had some left the old
ancillary table in place, and reading gave it back with the new pdfs. Also
write to the file that was asked for if its name has more than one dot.
---
 src/qp/ensemble.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 13fc5d5..2780568 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -366,7 +366,15 @@ class Ensemble:
         """
         basename, ext = os.path.splitext(filename)
         tables = self.build_tables()
-        io.write(tables, basename, ext[1:])
+        # Some of the formats would keep tables from a file we are overwriting
+        stale = None
+        if ext == ".pq" and self.ancil is None:
+            stale = basename + "ancil" + ext
+        elif ext == ".h5":
+            stale = filename
+        if stale is not None and os.path.isfile(stale):
+            os.remove(stale)
+        io.write(tables, filename, ext[1:])
 
     def pdf(self, x):
         """
-- 
2.43.0


From 1c219b019e174050b4f30d930a0efb1d4df91e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 12/57] fix: write the name of the quantile pdf constructor to
 hdf5 files

The metadata of quantile ensembles has a str array, which hdf5 can not store:
write_to and write_dict dropped it with a warning, so the pdf of the ensemble
that was read back could differ, and finalizeHdf5Write failed.
---
 src/qp/ensemble.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 2780568..bc0d71c 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -17,6 +17,14 @@ from qp.metrics import quick_moment
 # import timeit
 
 
+def _encode_strings(in_dict):
+    """Encode the `str` arrays in a dictionary to `bytes`, since hdf5 can not store `str` arrays"""
+    return {
+        key: np.char.encode(val) if np.asarray(val).dtype.kind == "U" else val
+        for key, val in in_dict.items()
+    }
+
+
 class Ensemble:
     """An object comprised of many qp.PDF objects to efficiently perform operations on all of them"""
 
@@ -303,7 +311,7 @@ class Ensemble:
         data : `dict`
             Table with the object data
         """
-        dd = dict(meta=self.metadata(), data=self.objdata())
+        dd = dict(meta=_encode_strings(self.metadata()), data=self.objdata())
         if self.ancil is not None:
             dd["ancil"] = self.ancil
         return dd
@@ -700,7 +708,7 @@ class Ensemble:
         filename : h5py `File object`
             file or group
         """
-        mdata = self.metadata()
+        mdata = _encode_strings(self.metadata())
         io.finalizeHdf5Write(filename, "meta", **mdata)
 
     # def stack(self, loc, using, vb=True):
-- 
2.43.0


From 4db3ec5c5d83481e9660fa6d5d65e5caf4741c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 13/57] fix: calculate the Brier score of an ensemble with a
 single pdf

Squeezing the truth array changed its shape for a single pdf, e.g., for a last
chunk with one pdf, and the calculation failed.
---
 src/qp/metrics/metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
-- 
2.43.0


From af0028e1a4647361bfa7421bd70130a372c5b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 14/57] fix: gather the PIT samples of small chunks

PITMetric.accumulate built the full PIT ensemble of every chunk only to gather
its samples, which fails for small chunks, and a single sample was squeezed
to a scalar.
---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 src/qp/metrics/pit.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..ec13832 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,7 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From 7be30193cdab252e84d6d432182c9f66f855fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 15/57] fix: use all of the chunks in eval_from_iterator

Only the centroids of the last chunk were passed to finalize.
---
 src/qp/metrics/base_metric_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..ecfe048 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,8 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
-        for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+        centroids = [self.accumulate(est, ref) for est, ref in zip(estimate, reference)]
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From 1b8870dcf91013d17c0972cdf2b9bbb746cd986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 16/57] fix: histogram samples whatever the number of pdfs,
 samples and bins

The signature named the dimensions after their sizes, with the number of pdfs
for the number of samples, so the conversion failed if the number of pdfs was
equal to the number of bins.
---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..f04df78 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -143,7 +143,7 @@ def extract_hist_samples(in_dist, **kwargs):
         return np.histogram(sample, bins=bins)[0]
 
     vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
+        hist_helper, signature="(nsamples)->(nbins)"
     )
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
-- 
2.43.0


From 4b2ffb1ee9347e10b6c54d2bb2b591f0bb659623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 17/57] fix: recognize non-uniform bins whatever their scale

The absolute tolerance of np.allclose made any bins narrower than 1e-8 uniform.
---
 src/qp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 2734a93..0aefbed 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -85,7 +85,7 @@ def get_bin_indices(bins, x):
     """
     widths = bin_widths(bins)
     n_bins = np.size(bins) - 1
-    if np.allclose(widths, widths[0]):
+    if np.allclose(widths, widths[0], atol=0.0):
         idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
     else:
         idx = np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
-- 
2.43.0


From db90c8eb72b370851f23853967e0372add556e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 18/57] fix: use the spacing of the grid in moment_partial

The grid has D points, so its spacing is not the dx that was asked for.
---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index bc0d71c..764384e 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -628,7 +628,7 @@ class Ensemble:
         """Return the nth moments for this over a particular range"""
         D = int((limits[-1] - limits[0]) / dx)
         grid = np.linspace(limits[0], limits[1], D)
-        # dx = (limits[-1] - limits[0]) / (D - 1)
+        dx = (limits[-1] - limits[0]) / (D - 1)
 
         P_eval = self.gridded(grid)[1]
         grid_to_n = grid**n
-- 
2.43.0


From 110ee2e7bf587bb8204cc526dea66e7faa1b5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 19/57] fix: normalize each spline over its own range

The integral was over the range of all of the splines in the ensemble, and so
included the extrapolation of those with a smaller range.
---
 src/qp/spline_pdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b31830d..2338646 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -42,7 +42,10 @@ def normalize_spline(xvals, yvals, limits, **kwargs):
         def spl(xv):
             return splev(xv, splrep(xvals[irow], yvals[irow]))
 
-        return quad(spl, limits[0], limits[1], **kwargs)[0]
+        # do not extrapolate beyond the range of this spline
+        low = max(limits[0], np.min(xvals[irow]))
+        high = min(limits[1], np.max(xvals[irow]))
+        return quad(spl, low, high, **kwargs)[0]
 
     vv = np.vectorize(row_integral)
     with errstate(all="ignore"):
-- 
2.43.0


From 6e4dac7318aa3e4d660fc71360c5a7b8fe5446de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 20/57] fix: evaluate the quantile pdf constructors at the
 requested rows

cdf_spline_derivative and dual_spline_average return one row of values for each
distribution, so the first values of that array, i.e., the pdf of the first
distribution, were returned for all of the distributions of an ensemble.
---
 src/qp/quant_pdf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..1fa884f 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -213,7 +213,18 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # normalization function.
         # See qp issue #147
         row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        if not isinstance(
+            self._pdf_constructor, (CdfSplineDerivative, DualSplineAverage)
+        ):
+            return self._pdf_constructor.construct_pdf(x, row)
+
+        # These return the values of all of the requested rows on the whole grid
+        x, row = np.broadcast_arrays(x, row)
+        pdf_vals = np.zeros(x.shape)
+        for irow in np.unique(row):
+            mask = row == irow
+            pdf_vals[mask] = self._pdf_constructor.construct_pdf(x[mask], irow)[0]
+        return pdf_vals.ravel()
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 186811e8f7be016e79dc69a8156245153a38ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 21/57] fix: invert the cdf of each row of a gaussian mixture
 on its own grid

mixmod._ppf used one grid for all of the rows, so the values of a row depended
on the other rows of the ensemble and were inaccurate for rows narrower than
that grid. It also matched values to the wrong rows, or failed, unless the same
quantiles were requested for every row, which broke rvs().
---
 src/qp/mixmod_pdf.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..b2fd1c4 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_multi_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -119,21 +119,16 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-        min_val = np.min(self._means - 6 * self._stds)
-        max_val = np.max(self._means + 6 * self._stds)
-        grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
-        return interpolate_multi_x_y(
-            x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
-        ).ravel()
+        # Invert the cdf of each row on a grid of its own
+        grid = np.linspace(
+            np.min(self._means - 6 * self._stds, axis=1),
+            np.max(self._means + 6 * self._stds, axis=1),
+            201,
+            axis=-1,
+        )
+        cdf_vals = self.cdf(grid, np.expand_dims(np.arange(grid.shape[0]), -1))
+        x = np.clip(x, cdf_vals[row, 0], cdf_vals[row, -1])
+        return interpolate_multi_x_multi_y(x, row, cdf_vals, grid).ravel()
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 2fc029ff24421adfeef443f96e2a951ca43d0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 22/57] fix: support of the distributions defined on a finite
 range

The support was always infinite, so ppf(0) and ppf(1) were -inf and inf, instead
of the ends of the bins, grid or quantile locations.
---
 src/qp/hist_pdf.py          | 4 ++++
 src/qp/interp_pdf.py        | 8 ++++++++
 src/qp/packed_interp_pdf.py | 4 ++++
 src/qp/quant_pdf.py         | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 13d868d..2f1dc04 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -104,6 +104,10 @@ class hist_gen(Pdf_rows_gen):
         """Return the histogram bin values"""
         return self._hpdfs
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         return evaluate_hist_x_multi_y(x, row, self._hbins, self._hpdfs).ravel()
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 3abcd95..97037be 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -115,6 +115,10 @@ class interp_gen(Pdf_rows_gen):
         """Return the y-valus used to do the interpolation"""
         return self._yvals
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         return interpolate_x_multi_y(
@@ -306,6 +310,10 @@ class interp_irregular_gen(Pdf_rows_gen):
         """Return the y-valus used to do the interpolation"""
         return self._yvals
 
+    def _get_support(self, row):
+        # pylint: disable=arguments-differ
+        return self._xvals[row, 0], self._xvals[row, -1]
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         return interpolate_multi_x_multi_y(
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 467da49..d17a4e9 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -172,6 +172,10 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         """Return the y-valus used to do the interpolation"""
         return self._yvals
 
+    def _get_support(self, *args):
+        # pylint: disable=arguments-differ
+        return self._xmin, self._xmax
+
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
         if self._yvals is None:  # pragma: no cover
diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 1fa884f..a2709ec 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -206,6 +206,10 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
             self._quants, self._locs
         )
 
+    def _get_support(self, row):
+        # pylint: disable=arguments-differ
+        return self._locs[row, 0], self._locs[row, -1]
+
     def _pdf(self, x, *args):
         # We're not requiring that the output be normalized!
         # `util.normalize_interp1d` addresses _one_ of the ways that a reconstruction
-- 
2.43.0


From a995b58f70375f32ddcad497d5b3b5d11979e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 23/57] fix: keep the dictionary of the sparse representation
 in order

The columns that were swapped to the front for one pdf were not put back, so
part of the dictionary was lost and the representation of a pdf depended on the
pdfs that came before it.
---
 src/qp/sparse_rep.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 008cd8e..c4e3a8f 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -99,6 +99,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
     idxs = np.arange(dictionary.shape[1])  # keeping track of swapping
     L = np.zeros((n_basis, n_basis), dtype=dictionary.dtype)
     L[0, 0] = 1.0
+    swaps = []
     for n_active in range(n_basis):
         lam = np.argmax(abs(np.dot(dictionary.T, res)))
         if lam < n_active or alpha[lam] ** 2 < machine_eps:  # pragma: no cover
@@ -121,6 +122,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
                 break
             L[n_active, n_active] = np.sqrt(1 - v)
         dictionary[:, [n_active, lam]] = dictionary[:, [lam, n_active]]
+        swaps.append((n_active, lam))
         alpha[[n_active, lam]] = alpha[[lam, n_active]]
         idxs[[n_active, lam]] = idxs[[lam, n_active]]
         # solves LL'x = query_vec as a composition of two triangular systems
@@ -133,6 +135,9 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
         if tolerance is not None and sla.norm(res) ** 2 <= tolerance:
             break
     a_n[idxs[: n_active + 1]] = gamma
+    # put the columns of the dictionary back in order
+    for i, j in reversed(swaps):
+        dictionary[:, [i, j]] = dictionary[:, [j, i]]
     del dictionary
     # return a_n
     return idxs[: n_active + 1], gamma
@@ -287,8 +292,6 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sparse_ind = np.array(list(map(combine_int, index, Dind)))
         Sparse_Array[k, 0 : len(sparse_ind)] = sparse_ind
 
-        # swap back columns
-        A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
 
     if verbose:
         print("done")
-- 
2.43.0


From 40e932cad44c3cd084a4fa587335c231c7211687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 24/57] fix: draw a single sample by default

Ensemble.rvs() failed with its default arguments.
---
 src/qp/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 764384e..df80beb 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -510,7 +510,8 @@ class Ensemble:
         -------
         """
         return self._frozen.rvs(
-            size=(self._frozen.npdf, size), random_state=random_state
+            size=(self._frozen.npdf, 1 if size is None else size),
+            random_state=random_state,
         )
 
     def stats(self, moments="mv"):
-- 
2.43.0


From 90d26747ce21bb203dfc4d4563c4d8f9e3e40546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 25/57] fix: floor of the logarithmic packing relative to the
 maximum of the row

---
 src/qp/packing_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index e58ebb5..dd15a86 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -75,7 +75,7 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
     return (
         np.round(
             255
-            * (np.log10((input_array + epsilon) / row_max) + neg_log_floor)
+            * (np.log10(input_array / row_max + epsilon) + neg_log_floor)
             / neg_log_floor
         )
         .clip(0.0, 255.0)
-- 
2.43.0


From 4651ab4d2732c8cc46e992a12eef32fa181e877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 26/57] fix: compare metadata with a tolerance that follows its
 scale

---
 src/qp/dict_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/dict_utils.py b/src/qp/dict_utils.py
index 189767c..d6b3963 100644
--- a/src/qp/dict_utils.py
+++ b/src/qp/dict_utils.py
@@ -203,7 +203,8 @@ def compare_two_dicts(d1, d2):
             if v != vv:  # pragma: no cover
                 return False
         except ValueError:
-            if not np.allclose(v, vv):  # pragma: no cover
+            # the tolerance follows the scale of the values
+            if not np.allclose(v, vv, atol=1e-8 * np.max(np.abs(v))):  # pragma: no cover
                 return False
     return True
 
-- 
2.43.0


From 3f903cd513c5c413131863caf08838bbddff26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 27/57] fix: second derivative of the piecewise constant
 reconstruction per unit of location

---
 src/qp/quantile_pdf_constructors/piecewise_constant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/quantile_pdf_constructors/piecewise_constant.py b/src/qp/quantile_pdf_constructors/piecewise_constant.py
index 9b85dc2..0a90f59 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_constant.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_constant.py
@@ -40,13 +40,15 @@ class PiecewiseConstant(AbstractQuantilePdfConstructor):
 
         self._cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
-        self._cdf_2nd_derivatives[:,0:-1] = self._cdf_derivatives[:,1:]  - self._cdf_derivatives[:,0:-1]
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
         # This offset is necessary to correctly place the _cdf_derivs because we are using a
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        self._cdf_2nd_derivatives[:,0:-2] = np.diff(self._cdf_derivatives[:,0:-1])/\
+          np.diff(self._adjusted_locations)
+
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
-- 
2.43.0


From fc38a120f0b99e336f629758b968e02a47db2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 28/57] fix: allocate spline columns for the number of
 distributions asked for

---
 src/qp/spline_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 2338646..5cb14ea 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -297,8 +297,8 @@ class spline_gen(Pdf_rows_gen):
         if "splx" not in kwargs:  # pragma: no cover
             raise ValueError("required argument splx not included in kwargs")
 
-        shape = np.shape(kwargs["splx"])
-        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((shape[0], 1), "i4"))
+        shape = (npdf, np.shape(kwargs["splx"])[-1])
+        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((npdf, 1), "i4"))
 
     @classmethod
     def plot_native(cls, pdf, **kwargs):
-- 
2.43.0


From b4ac293a02e7b5f41e379b1cb3032ec73d5e3b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 29/57] fix: support of the wrapped scipy distributions

---
 src/qp/factory.py | 10 +++++++---
 src/qp/pdf_gen.py |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 225717a..5bec8a0 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -54,14 +54,18 @@ class Factory(OrderedDict):
                 data_dict[col] = col_data
         return data_dict
 
-    def _make_scipy_wrapped_class(self, class_name, scipy_class):
-        """Build a qp class from a scipy class"""
+    def _make_scipy_wrapped_class(self, class_name, scipy_dist):
+        """Build a qp class from a scipy distribution"""
         # pylint: disable=protected-access
+        scipy_class = type(scipy_dist)
         override_dict = dict(
             name=class_name,
             version=0,
             freeze=Pdf_gen_wrap._my_freeze,
             _other_init=scipy_class.__init__,
+            _ctor_defaults=dict(
+                a=scipy_dist.a, b=scipy_dist.b, momtype=scipy_dist.moment_type
+            ),
         )
         the_class = type(class_name, (Pdf_gen_wrap, scipy_class), override_dict)
         self.add_class(the_class)
@@ -72,7 +76,7 @@ class Factory(OrderedDict):
         for name in names:
             attr = getattr(sps, name)
             if isinstance(attr, sps.rv_continuous):
-                self._make_scipy_wrapped_class(name, type(attr))
+                self._make_scipy_wrapped_class(name, attr)
 
     def add_class(self, the_class):
         """Add a class to the factory
diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 80dfbbf..bf4abfa 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -389,9 +389,14 @@ class Pdf_gen_wrap(Pdf_gen):
 
     """
 
+    # The support is not part of the scipy class, but given to it in the c'tor
+    _ctor_defaults = {}
+
     def __init__(self, *args, **kwargs):
         """C'tor"""
         # pylint: disable=no-member,protected-access
+        for key, val in self._ctor_defaults.items():
+            kwargs.setdefault(key, val)
         super().__init__(*args, **kwargs)
         self._other_init(*args, **kwargs)
 
-- 
2.43.0


From 3e76abd343a15f09303d285ab6598bdad85ae212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:12 +0000
Subject: [PATCH 30/57] fix: draw samples from an ensemble with a single
 quantile distribution

---
 src/qp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 0aefbed..8479896 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -195,7 +195,7 @@ def get_eval_case(x, row):
     # if nd_x > 2 or nd_row > 2:  #pragma: no cover
     #    raise ValueError("Too many dimensions: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
     if nd_x >= 2 and nd_row != 1:
-        return CASE_2D, x, row
+        return CASE_2D, x, np.atleast_2d(row)
     if nd_x >= 2 and nd_row == 1:  # pragma: no cover
         raise ValueError(
             "Dimension mismatch: x(%s), row(%s)" % (np.shape(x), np.shape(row))
-- 
2.43.0


From 57bd5fe61e95bc4d35d0a833ee42b172d9f10bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 31/57] fix: logarithms of the cdf and sf when all values lie
 on one side of the median

---
 src/qp/pdf_gen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index bf4abfa..3f7121b 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -317,6 +317,15 @@ class Pdf_rows_gen(rv_continuous, Pdf_gen):
             return Y
         return Y.reshape(size)
 
+    def _logcdf(self, x, *args):
+        # The default goes by the side of the median, which can leave no values at all on the other side
+        with np.errstate(divide="ignore"):
+            return np.log(self._cdf(x, *args))
+
+    def _logsf(self, x, *args):
+        with np.errstate(divide="ignore"):
+            return np.log(self._sf(x, *args))
+
     def _argcheck(self, *args):
         """Default check for correct values on args and keywords.
         Returns condition array of 1's where arguments are correct and
-- 
2.43.0


From c43f592f64ba600430a6be0546aee769dccb026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 32/57] fix: mixture with a single distribution evaluated where
 some values have no answer

---
 src/qp/mixmod_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index b2fd1c4..0f69bbc 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -103,7 +103,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).pdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
@@ -115,7 +115,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).cdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From f5cb4fe5d6d48c3b680961990b86acff42422924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 33/57] fix: logarithmic packing of values close to the floor

---
 src/qp/packing_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index dd15a86..aa4736b 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -75,7 +75,7 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
     return (
         np.round(
             255
-            * (np.log10(input_array / row_max + epsilon) + neg_log_floor)
+            * (np.log10(np.maximum(input_array / row_max, epsilon)) + neg_log_floor)
             / neg_log_floor
         )
         .clip(0.0, 255.0)
-- 
2.43.0


From 68699ef976aff8117f91e6d879c23223c434fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 34/57] fix: conversion to a histogram with bins of different
 widths

---
 src/qp/conversion_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index f04df78..19af560 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -110,7 +110,8 @@ def extract_hist_values(in_dist, **kwargs):
     if bins is None:  # pragma: no cover
         raise ValueError("To convert using extract_hist_samples you must specify bins")
     bins, pdfs = in_dist.histogramize(bins)
-    return dict(bins=bins, pdfs=pdfs)
+    # the contents of a histogram are densities
+    return dict(bins=bins, pdfs=pdfs / np.diff(bins))
 
 
 def extract_hist_samples(in_dist, **kwargs):
@@ -146,7 +147,8 @@ def extract_hist_samples(in_dist, **kwargs):
         hist_helper, signature="(nsamples)->(nbins)"
     )
     pdfs = vv(samples)
-    return dict(bins=bins, pdfs=pdfs)
+    # the contents of a histogram are densities
+    return dict(bins=bins, pdfs=pdfs / np.diff(bins))
 
 
 def extract_quantiles(in_dist, **kwargs):
-- 
2.43.0


From dfb8e1061c89d301e11ecd1acb119e84df53906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 35/57] fix: goodness of fit with a single sample

---
 src/qp/metrics/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index ff9a99e..cc8866c 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -457,7 +457,7 @@ def calculate_goodness_of_fit(
 
     return goodness_of_fit_metrics[fit_metric](
         reference,
-        np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)),
+        estimate.rvs(size=num_samples, random_state=_random_state),
     )
 
 
-- 
2.43.0


From 134049eb83ac01da4cfd828ddb26fe4e4496a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 36/57] fix: PIT on an evaluation grid that is not an array

---
 src/qp/metrics/pit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index ec13832..b12f960 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -193,7 +193,7 @@ class PIT:
         # Remove duplicates values as well as values outside the range (0,1)
         _, unique_indices = np.unique(data_quants, return_index=True)
         unique_data_quants = data_quants[unique_indices]
-        unique_eval_grid = eval_grid[unique_indices]
+        unique_eval_grid = np.asarray(eval_grid)[unique_indices]
         quant_mask = cls._create_quant_mask(unique_data_quants)
 
         return qp.Ensemble(
-- 
2.43.0


From 7fcd2473b3544d52b40d475b482c20f922e229de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 37/57] fix: MAD width from digests with heavy ends

---
 src/qp/metrics/point_estimate_metric_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qp/metrics/point_estimate_metric_classes.py b/src/qp/metrics/point_estimate_metric_classes.py
index c22dbbc..0f9aabb 100644
--- a/src/qp/metrics/point_estimate_metric_classes.py
+++ b/src/qp/metrics/point_estimate_metric_classes.py
@@ -273,6 +273,9 @@ class PointSigmaMAD(PointToPointMetricDigester):
         bins = np.linspace(this_min, this_max, self._num_bins)
         bin_cents = (bins[0:-1] + bins[1:]) / 2.0
         this_pdf = digest.cdf(bins[1:]) - digest.cdf(bins[0:-1]) # len(this_pdf) = lots_of_bins - 1
+        # the values at the ends of the range belong to the first and the last bin
+        this_pdf[0] += digest.cdf(this_min)
+        this_pdf[-1] += 1.0 - digest.cdf(this_max)
         bin_dist = np.fabs(bin_cents - this_median) # get the distance to the center for each bin in the hist
 
         sorted_bins_dist_idx = np.argsort(bin_dist) # sort the bins by dist to median
-- 
2.43.0


From 56dd5ba84735a4e380aa1e13fcae7c5e943c9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 38/57] fix: entropy of Gaussian mixtures

The entropy is integrated with a single point and row at a time, which the pdf did not accept.
---
 src/qp/mixmod_pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 0f69bbc..5542783 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -95,6 +95,7 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
+        row = np.atleast_1d(row)
         if np.ndim(x) > 1:  # pragma: no cover
             x = np.expand_dims(x, -2)
         return (
@@ -107,6 +108,7 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
+        row = np.atleast_1d(row)
         if np.ndim(x) > 1:  # pragma: no cover
             x = np.expand_dims(x, -2)
         return (
-- 
2.43.0


From c0ff35e0000f13c76eb643d9ed9fadae9bf636f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 39/57] fix: read fits files in native byte order, so that they
 can be written in any format

---
 src/qp/factory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 5bec8a0..9fde8c3 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -214,6 +214,14 @@ class Factory(OrderedDict):
             filename, NUMPY_DICT, keys=keys, allow_missing_keys=allow_missing_keys
         )  # pylint: disable=no-member
 
+        # fits columns are big-endian, and not all of the other formats can store those
+        tables = {
+            name: {
+                col: np.asarray(val, dtype=val.dtype.newbyteorder("="))
+                for col, val in table.items()
+            }
+            for name, table in tables.items()
+        }
         return self.from_tables(tables)
 
     def data_length(self, filename):
-- 
2.43.0


From 739c23f670c807304c1f5ebdedcb442a0fdffeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 40/57] fix: moments of interpolated pdfs on integer grids do
 not overflow

---
 src/qp/interp_pdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 97037be..4d53856 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -158,7 +158,9 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
+        return np.trapz(
+            self._xvals.astype(float) ** m * self._yvals, x=self._xvals, axis=1
+        )
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 519c7f0fc6013dc8a616d8d643c8fb752e4216bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 41/57] fix: extend quantiles with locations that are unsigned
 integers

---
 src/qp/quant_pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index a2709ec..9f6fd1a 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -59,6 +59,8 @@ def pad_quantiles(quants, locs):
     locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
     quants_out[offset_lo : n_vals + offset_lo] = quants
     locs_out[:, offset_lo : n_vals + offset_lo] = locs
+    # the differences of unsigned integers can not be negative
+    locs = np.asarray(locs, dtype=float)
     if pad_lo:
         locs_out[:, 0] = locs[:, 0] - quants[0] * (locs[:, 1] - locs[:, 0]) / (
             quants[1] - quants[0]
-- 
2.43.0


From b4f6f200197f4cb2e64d4ebe805297e48a3a7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 42/57] fix: ppf of Gaussian mixtures with means and widths
 that are unsigned integers

---
 src/qp/mixmod_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 5542783..c0aaa44 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -123,8 +123,8 @@ class mixmod_gen(Pdf_rows_gen):
         # pylint: disable=arguments-differ
         # Invert the cdf of each row on a grid of its own
         grid = np.linspace(
-            np.min(self._means - 6 * self._stds, axis=1),
-            np.max(self._means + 6 * self._stds, axis=1),
+            np.min(self._means - 6.0 * self._stds, axis=1),
+            np.max(self._means + 6.0 * self._stds, axis=1),
             201,
             axis=-1,
         )
-- 
2.43.0


From 45f81d456c3d0d87a09ccf6ae3624c147650a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 43/57] fix: values on a grid follow a change of the pdf
 constructor

---
 src/qp/ensemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index df80beb..9ac6a68 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -49,6 +49,7 @@ class Ensemble:
         self.set_ancil(ancil)
 
         self._gridded = None
+        self._gridded_constructor = None
         self._samples = None
 
     def __getitem__(self, key):
@@ -354,6 +355,10 @@ class Ensemble:
         This first comparse grid to the cached value, if they match it returns
         the cached value
         """
+        constructor = getattr(self.dist, "pdf_constructor_name", None)
+        if constructor != self._gridded_constructor:
+            self._gridded = None
+            self._gridded_constructor = constructor
         if self._gridded is None or not np.array_equal(self._gridded[0], grid):
             self._gridded = (np.array(grid), self.pdf(grid))
         return self._gridded
-- 
2.43.0


From acadbd6b7fe0dcf48efb4953f8f3405f7d5b630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:32 +0000
Subject: [PATCH 44/57] fix: evaluate a single value given as a matrix for part
 of the rows

---
 src/qp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 8479896..72dd536 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -192,6 +192,9 @@ def get_eval_case(x, row):
     """
     nd_x = np.ndim(x)
     nd_row = np.ndim(row)
+    if nd_x >= 2 and nd_row == 1 and np.size(x) == 1:
+        # a single value for some of the rows
+        x, nd_x = np.ravel(x), 1
     # if nd_x > 2 or nd_row > 2:  #pragma: no cover
     #    raise ValueError("Too many dimensions: x(%s), row(%s)" % (np.shape(x), np.shape(row)))
     if nd_x >= 2 and nd_row != 1:
-- 
2.43.0


From e8570baf022c3b31722d7934b758eed0e8f8d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:38 +0000
Subject: [PATCH 45/57] fix: plot several pdfs at once

---
 src/qp/plotting.py   | 25 +++++++++++++++----------
 src/qp/spline_pdf.py |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 0bff493..1f7234a 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -105,7 +105,8 @@ def plot_pdf_on_axes(axes, pdf, xvals, **kwargs):
     axes : The axes the data are plotted on
     """
     yvals = pdf.pdf(xvals)
-    axes.plot(np.squeeze(xvals), np.squeeze(yvals), **kwargs)
+    # matplotlib expects the curves of several pdfs as columns
+    axes.plot(np.squeeze(xvals).T, np.squeeze(yvals).T, **kwargs)
     return axes
 
 
@@ -181,7 +182,10 @@ def plot_pdf_quantiles_on_axes(axes, xvals, yvals, quantiles, **kwargs):
         **kwargs,
     )
     kwargs.setdefault("label", "Quantile Interpolated PDF")
-    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["quantiles"], **kwargs)
+    # matplotlib expects the curves of several pdfs as columns
+    axes.plot(
+        xvals, np.transpose(yvals), lw=2.0, alpha=1.0, linestyle=STYLES["quantiles"], **kwargs
+    )
     return axes
 
 
@@ -218,14 +222,15 @@ def plot_pdf_histogram_on_axes(axes, hist, **kwargs):
     )
     bin_centers = (hist[0][0:-1] + hist[0][1:]) / 2.0
     kwargs.setdefault("label", "Histogram Interpolated PDF")
-    axes.hist(
-        bin_centers,
-        bins=hist[0],
-        weights=np.squeeze(hist[1]),
-        lw=None,
-        alpha=1.0,
-        **kwargs,
-    )
+    for weights in np.reshape(hist[1], (-1, bin_centers.size)):
+        axes.hist(
+            bin_centers,
+            bins=hist[0],
+            weights=weights,
+            lw=None,
+            alpha=1.0,
+            **kwargs,
+        )
     return axes
 
 
diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 5cb14ea..b9608b3 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -307,7 +307,7 @@ class spline_gen(Pdf_rows_gen):
         For a spline this shows the spline knots
         """
         axes, _, kw = get_axes_and_xlims(**kwargs)
-        xvals = pdf.dist.splx[pdf.kwds["row"]]
+        xvals = pdf.dist.splx[np.ravel(pdf.kwds["row"])]
         return plot_pdf_on_axes(axes, pdf, xvals, **kw)
 
     @classmethod
-- 
2.43.0


From d7be14e5267317bea22ddcf0a9d1c93ae003b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:38 +0000
Subject: [PATCH 46/57] fix: labels of the axes of a new plot

---
 src/qp/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 1f7234a..6d511f6 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -75,7 +75,8 @@ def get_axes_and_xlims(**kwargs):
     if axes is None:
         if xlim is None:  # pragma: no cover
             raise ValueError("Either xlim or axes must be provided")
-        _, axes = make_figure_axes(xlim, **kwargs)
+        labels = {k: kwargs.pop(k) for k in ("xlabel", "ylabel") if k in kwargs}
+        _, axes = make_figure_axes(xlim, **labels)
     else:
         if xlim is not None:  # pragma: no cover
             raise ValueError("Only one of xlim and axes should be provided")
-- 
2.43.0


From b152f3a326a01637e22f746f9edb083ed3e42bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 47/57] fix: plot the curve of the samples on the axes that
 were given

---
 src/qp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 6d511f6..80d22c9 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -265,7 +265,7 @@ def plot_pdf_samples_on_axes(axes, pdf, samples, **kwargs):
     xvals = np.linspace(xlim[0], xlim[1], npoints)
     yvals = np.squeeze(pdf.pdf(xvals))
     kwargs.setdefault("label", "Samples Interpolated PDF")
-    plt.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
+    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
     return axes
 
 
-- 
2.43.0


From 386576651fd69706d06900f042687e96e8f2354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:12 +0000
Subject: [PATCH 48/57] fix: bins of almost the same width

Bins whose widths agree to 1e-5 were taken as equally wide, so that values close to
the edges of later bins were put into the neighbouring bin.  Compare the edges.
---
 src/qp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 72dd536..712b9b4 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -85,7 +85,8 @@ def get_bin_indices(bins, x):
     """
     widths = bin_widths(bins)
     n_bins = np.size(bins) - 1
-    if np.allclose(widths, widths[0], atol=0.0):
+    even = bins[0] + widths[0] * np.arange(np.size(bins))
+    if np.allclose(bins, even, rtol=0.0, atol=1e-8 * np.abs(widths[0])):
         idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
     else:
         idx = np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
-- 
2.43.0


From a19fcc846adcdf33353b09ed86c17f89a3af9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:39 +0000
Subject: [PATCH 49/57] fix: keep the cut of a sparse representation

The cut of the basis functions was neither passed on to the frozen distributions nor kept
in the metadata, so that selecting, joining or writing an ensemble changed its pdfs.
---
 src/qp/sparse_pdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/sparse_pdf.py b/src/qp/sparse_pdf.py
index be40cfe..e11615a 100644
--- a/src/qp/sparse_pdf.py
+++ b/src/qp/sparse_pdf.py
@@ -37,10 +37,10 @@ class sparse_gen(interp_gen):
         self.mu = mu
         self.sig = sig
         self.dims = dims
-        cut = kwargs.pop("cut", 1.0e-5)
+        self.cut = kwargs.pop("cut", 1.0e-5)
         # recreate the basis array from the metadata
         sparse_meta = dict(xvals=xvals, mu=mu, sig=sig, dims=dims)
-        A = sparse_rep.create_basis(sparse_meta, cut=cut)
+        A = sparse_rep.create_basis(sparse_meta, cut=self.cut)
         # decode the sparse indices into basis indices and weights
         basis_indices, weights = sparse_rep.decode_sparse_indices(sparse_indices)
         # retrieve the weighted array of basis functions for each object
@@ -59,6 +59,7 @@ class sparse_gen(interp_gen):
         self._addmetadata("mu", self.mu)
         self._addmetadata("sig", self.sig)
         self._addmetadata("dims", self.dims)
+        self._addmetadata("cut", self.cut)
         self._addobjdata("sparse_indices", self.sparse_indices)
 
     def _updated_ctor_param(self):
@@ -71,6 +72,7 @@ class sparse_gen(interp_gen):
         dct["mu"] = self.mu
         dct["sig"] = self.sig
         dct["dims"] = self.dims
+        dct["cut"] = self.cut
         return dct
 
     @classmethod
-- 
2.43.0


From 8ebd510e44f84ceb529099c942c21171b142b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:43 +0000
Subject: [PATCH 50/57] fix: number of widths for a given range of widths

build_sparse_representation(x, P, sig=[...]) without Nsig failed with an UnboundLocalError.
---
 src/qp/sparse_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index c4e3a8f..25bf4b4 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -246,7 +246,7 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         min_sig = dx / 6.0
         sig = [min_sig, max_sig]
     if Nsig is None:
-        Nsig = int(np.ceil(2.0 * (max_sig - min_sig) / dx))
+        Nsig = max(1, int(np.ceil(2.0 * (sig[1] - sig[0]) / dx)))
 
     if verbose:
         print("dx = ", dx)
-- 
2.43.0


From 0fd4a6c2c3c4856a848823831246eb832c37766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:43 +0000
Subject: [PATCH 51/57] fix: no more basis functions than can be encoded

The index of a basis function has 16 bits of the code.  With more than 65536 of them, as for a conversion with nvals=400,
densities were encoded with the wrong basis functions.
---
 src/qp/sparse_rep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 25bf4b4..7624092 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -247,6 +247,13 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sig = [min_sig, max_sig]
     if Nsig is None:
         Nsig = max(1, int(np.ceil(2.0 * (sig[1] - sig[0]) / dx)))
+        # the index of a basis has to fit in 16 bits
+        Nsig = max(1, min(Nsig, 2**16 // (Nmu * Nv)))
+    if Nmu * Nsig * Nv > 2**16:
+        raise ValueError(
+            "%i bases are more than the %i that can be encoded"
+            % (Nmu * Nsig * Nv, 2**16)
+        )
 
     if verbose:
         print("dx = ", dx)
-- 
2.43.0


From 8c0f0bad56fa64d266948991fbca7e5ef05682b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:43 +0000
Subject: [PATCH 52/57] fix: sparse representations whose first term is not the
 largest

Weights are encoded relative to the largest, and decoding takes the first as the largest.  If the basis function that was
selected first ends up with a smaller weight than another one, the decoded density was wrong.
---
 src/qp/sparse_rep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 7624092..cd6b573 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -288,6 +288,10 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
             continue
         # bigD[k]['sparse'] = [Dind, Dval]
         if max(Dval) > 0:
+            # the decoding takes the first weight as the largest one
+            imax = np.argmax(Dval)
+            Dind[[0, imax]] = Dind[[imax, 0]]
+            Dval[[0, imax]] = Dval[[imax, 0]]
             dval0 = Dval[0]
             Dvalm = Dval / np.max(Dval)
             index = np.array(list(map(round, (Dvalm / Da))), dtype="int")
-- 
2.43.0


From dca45db2ef1896884dc0e3c50ec47bc64d3c28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:43 +0000
Subject: [PATCH 53/57] fix: extract_xy_sparse failed for the name of the grid
 in the metadata

---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 19af560..b5fa70b 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -410,7 +410,7 @@ def extract_xy_sparse(in_dist, **kwargs):  # pragma: no cover
     # retrieve the weighted array of basis functions for each object
     pdf_y = A[:, basis_indices] * weights
     # normalize and sum the weighted pdfs
-    x = sparse_meta["z"]
+    x = sparse_meta["xvals"]
     y = pdf_y.sum(axis=-1)
     norms = sciint.trapezoid(y.T, x)
     y /= norms
-- 
2.43.0


From 4aa212f2d77e7044b348fb8e962a16c80d72499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:32 +0000
Subject: [PATCH 54/57] fix: stop the pursuit at a basis function that depends
 on those selected

sparse_basis failed with a shape mismatch, as the one not taken was counted.
---
 src/qp/sparse_rep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index cd6b573..ae3c716 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -119,6 +119,7 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
             v = sla.norm(L[n_active, :n_active]) ** 2
             if 1 - v <= machine_eps:
                 print("Selected basis are dependent or normed are not unity")
+                n_active -= 1
                 break
             L[n_active, n_active] = np.sqrt(1 - v)
         dictionary[:, [n_active, lam]] = dictionary[:, [lam, n_active]]
-- 
2.43.0


From 477cf7de5e464dace06f99e15ee798508fe19bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:57 +0000
Subject: [PATCH 55/57] fix: chunks of flat columns

A file whose columns have one dimension was read as one distribution for each row as a whole, but not in chunks.
---
 src/qp/factory.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 9fde8c3..29ea93d 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -270,8 +270,11 @@ class Factory(OrderedDict):
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
         data = self._build_data_dict(metadata, {})
         for start, end in ranges:
-            for key, val in f.items():
-                data[key] = io.readHdf5DatasetToArray(val, start, end)
+            chunk = {
+                key: io.readHdf5DatasetToArray(val, start, end)
+                for key, val in f.items()
+            }
+            data.update(self._build_data_dict({}, chunk))
             ancil_data = None
             if ancil_f is not None:
                 ancil_data = OrderedDict()
-- 
2.43.0


From ed29608da1e6e3258dfeae0cfdf5109b81b07623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:57 +0000
Subject: [PATCH 56/57] fix: convert the data of older versions when reading in
 chunks

Reading a file as a whole converts data with the reader method of their version, reading it in chunks did not.
---
 src/qp/factory.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 29ea93d..f255703 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -252,13 +252,13 @@ class Factory(OrderedDict):
         if extension not in [".hdf5"]:  # pragma: no cover
             raise TypeError("Can only use qp.iterator on hdf5 files")
 
-        metadata = io.readHdf5ToDict(filename, "meta")
-        pdf_name = metadata.pop("pdf_name")[0].decode()
-        _pdf_version = metadata.pop("pdf_version")[0]
+        metadata = self._build_data_dict(io.readHdf5ToDict(filename, "meta"), {})
+        pdf_name = metadata.pop("pdf_name")
+        pdf_version = metadata.pop("pdf_version")
         if pdf_name not in self:  # pragma: no cover
             raise KeyError("Class nameed %s is not in factory" % pdf_name)
         the_class = self[pdf_name]
-        # reader_convert = the_class.reader_method(pdf_version)
+        reader_convert = the_class.reader_method(pdf_version)
         ctor_func = the_class.creation_method(None)
 
         f, infp = io.readHdf5Group(filename, "data")
@@ -268,13 +268,14 @@ class Factory(OrderedDict):
             ancil_f, ancil_infp = (None, None)
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
-        data = self._build_data_dict(metadata, {})
         for start, end in ranges:
             chunk = {
                 key: io.readHdf5DatasetToArray(val, start, end)
                 for key, val in f.items()
             }
-            data.update(self._build_data_dict({}, chunk))
+            data = dict(metadata, **self._build_data_dict({}, chunk))
+            if reader_convert is not None:
+                data = reader_convert(data)
             ancil_data = None
             if ancil_f is not None:
                 ancil_data = OrderedDict()
-- 
2.43.0


From 7239a900ee897e4556841becfa8895ca96644234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:51 +0000
Subject: [PATCH 57/57] fix: the number of points of the curve of
 plot_pdf_samples_on_axes was passed on to the marks, which do not know it

---
 src/qp/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 80d22c9..ac7d446 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -257,10 +257,10 @@ def plot_pdf_samples_on_axes(axes, pdf, samples, **kwargs):
     """
     kwargs.setdefault("label", "Samples")
     kwargs.setdefault("color", COLORS["samples"])
+    npoints = kwargs.pop("npoints", 101)
     axes.scatter(
         samples, np.zeros(np.shape(samples)), marker="|", s=100, alpha=0.75, **kwargs
     )
-    npoints = kwargs.pop("npoints", 101)
     xlim = axes.get_xlim()
     xvals = np.linspace(xlim[0], xlim[1], npoints)
     yvals = np.squeeze(pdf.pdf(xvals))
-- 
2.43.0

