From 6263717fb950286c257c28e05b7e7f113155320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 01/40] fix: copy=False means copy only if needed (NumPy 2
 raises otherwise)

---
 src/pyhipp/core/abc.py                   | 2 +-
 src/pyhipp/core/arrays/array.py          | 2 +-
 src/pyhipp/core/containers/data_table.py | 6 +++---
 src/pyhipp/core/dataproc/data_structs.py | 2 +-
 src/pyhipp/core/dataproc/mask.py         | 2 +-
 src/pyhipp/stats/binning.py              | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index 849b008..7fc3f09 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -120,7 +120,7 @@ class HasValue:
     def __init__(self, value: np.ndarray, copy=True, **kw) -> None:
         super().__init__(**kw)
 
-        self.value = np.array(value, copy=copy)
+        self.value = np.array(value, copy=copy or None)
 
     def set_value(self, value: np.ndarray) -> None:
         self.value[...] = value
diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 2ab0730..15fffff 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -22,7 +22,7 @@ class Array(HasDictRepr):
         if isinstance(data, Array):
             data = data._impl
             
-        self._impl = np.array(data, dtype=dtype, copy=copy)
+        self._impl = np.array(data, dtype=dtype, copy=copy or None)
         
     @classmethod
     def zeros(cls, shape: Shape, dtype: DType = None, **kw) -> Array:
diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index c1d3ded..e68846d 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -52,7 +52,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         assert isinstance(data, Mapping)
 
         self._data = OrderedDict({
-            k: np.array(v, copy=copy) for k, v in data.items()
+            k: np.array(v, copy=copy or None) for k, v in data.items()
         })
 
     def __getitem__(self, key: KeyOrKeys) -> ValueOrValues:
@@ -127,7 +127,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     def update(self, other: Mapping[Key, Value], copy=True) -> None:
         self._data.update({
-            k: np.array(v, copy=copy) for k, v in other.items()
+            k: np.array(v, copy=copy or None) for k, v in other.items()
         })
 
     def clear(self) -> None:
@@ -176,7 +176,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return cls(**init_kw)
 
     def to_dict(self, copy=True) -> dict[str, np.ndarray]:
-        return {k: np.array(v, copy=copy) for k, v in self.items()}
+        return {k: np.array(v, copy=copy or None) for k, v in self.items()}
 
     def to_dict_of_list(self) -> dict[str, list]:
         return {k: v.tolist() for k, v in self.items()}
diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 6909bf5..5f9c15a 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -44,7 +44,7 @@ class Array:
     def __as_array_one(x, copy):
         if x is None:
             return None
-        return np.array(x, copy=copy)
+        return np.array(x, copy=copy or None)
 
     
     @staticmethod
diff --git a/src/pyhipp/core/dataproc/mask.py b/src/pyhipp/core/dataproc/mask.py
index f5bc15a..3e747d7 100644
--- a/src/pyhipp/core/dataproc/mask.py
+++ b/src/pyhipp/core/dataproc/mask.py
@@ -47,7 +47,7 @@ class Mask:
     
     @staticmethod
     def on_array(mask: Any, a: np.ndarray, copy: bool = False):
-        return np.array(a[mask], copy=copy)
+        return np.array(a[mask], copy=copy or None)
         
     @staticmethod
     def on_arrays(mask: Any, 
diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index f2b3bb7..1da0c97 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -71,13 +71,13 @@ class Bin:
     
     @staticmethod
     def edges_to_centers(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return .5 * ( lo + hi )
     
     @staticmethod
     def edges_to_widths(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return hi - lo
     
-- 
2.43.0


From 12da89c245a4df288db6682409f17e3256763971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 02/40] fix: DataTable can be pickled and deep-copied without
 infinite recursion

---
 src/pyhipp/core/containers/data_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index e68846d..ab53306 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -135,6 +135,9 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     # For attribute access
     def __getattr__(self, key: Key) -> Value:
+        if key == '_data':
+            # Not initialized yet, e.g., being unpickled or deep-copied.
+            raise AttributeError(f'Attribute {key} not found')
         try:
             return self[key]
         except KeyError:
-- 
2.43.0


From 266090cc0846e7cbf29ca6a644c4581092cdb42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 03/40] fix: DataTable.row_stacked uses vstack, row_stack is
 gone in NumPy 2

---
 src/pyhipp/core/containers/data_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index ab53306..626123a 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -188,7 +188,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return np.column_stack(list(self.values()))
 
     def row_stacked(self) -> np.ndarray:
-        return np.row_stack(list(self.values()))
+        return np.vstack(list(self.values()))
 
     def concat(self, *other: Mapping[Key, Value]) -> DataTable:
         '''
-- 
2.43.0


From c128ff0f87b9971e143f23ff35dae81f5cc4caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 04/40] fix: pass the index array and its size to
 FlatIndexArray in order, check IndexArray shape

---
 src/pyhipp/core/arrays/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 15fffff..863127d 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -49,7 +49,7 @@ class Array(HasDictRepr):
             -> Union[FlatIndexArray, IntArray]:
         out = self._impl.argsort(axis=axis, kind=kind)
         if axis is None:
-            out = FlatIndexArray(out, self.size, copy=False)
+            out = FlatIndexArray(self.size, out, copy=False)
         else:
             out = IntArray(out, copy=False)
         return out
@@ -126,5 +126,5 @@ class IndexArray(IntArray):
         self.shape_indexed = Shape(shape_indexed)
         
         assert self.n_dims == 2
-        assert self.shape[-1] == len(self.shape_indexed)
+        assert self._impl.shape[-1] == len(self.shape_indexed)
 
-- 
2.43.0


From c365fae96178769d4ad3c6be2e9e34fbdd7f2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 05/40] fix: Num.bound keeps floating-point bounds on integer
 arrays

---
 src/pyhipp/core/dataproc/num.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/num.py b/src/pyhipp/core/dataproc/num.py
index 2d50d81..ce78fcd 100644
--- a/src/pyhipp/core/dataproc/num.py
+++ b/src/pyhipp/core/dataproc/num.py
@@ -32,7 +32,12 @@ class Num:
         '''
         x = np.asarray(x)
         if copy:
-            x = x.copy() 
+            dtype = x.dtype
+            if dtype.kind in 'biu':
+                # so that a floating-point bound is not truncated
+                dtype = np.result_type(
+                    dtype, *(b for b in (lo, hi) if b is not None))
+            x = x.astype(dtype)
         if lo is not None:
             sel = x < lo
             x[sel] = lo
-- 
2.43.0


From e4c5af4553356339fcf52f7a696880174d513230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 06/40] fix: count_to_offset returns integers for unsigned and
 empty counts

---
 src/pyhipp/core/dataproc/data_structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 5f9c15a..aad2c6a 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -56,7 +56,7 @@ class Array:
         i.e., sum(count).
         '''
         
-        off = np.concatenate(( (0,), np.cumsum(count) ))
+        off = np.concatenate(( (0,), np.cumsum(count, dtype=np.int64) ))
         if not has_end:
             off = off[:-1]
         return off
-- 
2.43.0


From 966b089e42dbe23a18b5934d7179e93f16d08444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 07/40] fix: EqualSpaceBins.locate puts infinite and huge
 values into the upper overflow bin

---
 src/pyhipp/stats/binning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 1da0c97..ebf7dfb 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -189,9 +189,9 @@ class EqualSpaceBins(Bins):
         
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
-        ids = np.floor((x - b) / x_step).astype(np.int64)
-        np.clip(ids, -1, n_bins, out=ids)
-        return ids
+        # clip before the cast: far out-of-range values do not fit in an int
+        ids = np.clip(np.floor((x - b) / x_step), -1, n_bins)
+        return ids.astype(np.int64)
         
     def to_simple_repr(self) -> dict:
         return {
-- 
2.43.0


From 0aac07e8ff1fdf24df534950e1dc22049c29c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 08/40] fix: from_overlapped_bins returns the sub-bin histogram
 as sub_h

---
 src/pyhipp/stats/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index ebf7dfb..0b7fd6f 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -116,7 +116,7 @@ class Hist1D:
         h = Bin.combine_adjacent_bins(_h, sub_bins)
         
         return DataDict({'x': x, 'dx': dx, 'h': h, 
-                         'sub_e': _e, 'sub_h': h}) 
+                         'sub_e': _e, 'sub_h': _h}) 
 
         
 class Bins(abc.HasSimpleRepr, abc.IsImmutable):
-- 
2.43.0


From fcd7787189f2c4614eefacb9224126b402b7d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 09/40] fix: masked-out non-finite values do not contribute to
 Sum, Mean and StdDev

---
 src/pyhipp/stats/reduction.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 5501a2e..f1f14ba 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -119,13 +119,14 @@ class Sum(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        if weight is None:
-            w_tot = mask
-        else:
-            w_tot = weight if mask is None else weight * mask
+        if mask is not None:
+            # Masked-out values, even if not finite, do not contribute.
+            x = np.where(mask, x, 0)
+            if weight is not None:
+                weight = np.where(mask, weight, 0)
 
-        if w_tot is not None:
-            x = x * w_tot
+        if weight is not None:
+            x = x * weight
 
         out = x.sum(-1)
         return np.asarray(out)
-- 
2.43.0


From 07b1361fd306115dfe230964808a6e82b57c76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 10/40] fix: StdDev of an empty selection is its empty_fill

---
 src/pyhipp/stats/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index f1f14ba..07f3b8a 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -169,7 +169,9 @@ class StdDev(Reduce):
         if x.ndim == 2:
             x_mean = x_mean[:, None]
         dx = x - x_mean
-        return np.sqrt(mean(dx * dx, weight, mask))
+        out = np.asarray(np.sqrt(Mean(0.)(dx * dx, weight, mask)))
+        out[Count()(x, mask=mask) < 1] = self.empty_fill
+        return out
 
 
 class Quantile(Reduce):
-- 
2.43.0


From cf0f49a750b1077c23490be08741a0820e5846a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 11/40] fix: Tophat.volume without max_radius uses the kernel
 radius

---
 src/pyhipp/stats/kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/kernel.py b/src/pyhipp/stats/kernel.py
index b5fce49..644ef9d 100644
--- a/src/pyhipp/stats/kernel.py
+++ b/src/pyhipp/stats/kernel.py
@@ -51,9 +51,10 @@ class Tophat(Kernal):
         return out
     
     def volume(self, n_dims: int, max_radius: float) -> float:
+        radius = self.radius
         if max_radius is not None:
-            max_radius = min(max_radius, self.radius)
-        return self._ball_volume(n_dims, max_radius)
+            radius = min(max_radius, radius)
+        return self._ball_volume(n_dims, radius)
     
     @staticmethod
     def _ball_volume(n_dims: int, radius: float) -> float:
-- 
2.43.0


From 6092e0f19cc321bdad530e1d96b05bf3013b2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 12/40] fix: Linear checks that its nodes are in ascending
 order

---
 src/pyhipp/numerical/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/numerical/interpolate.py b/src/pyhipp/numerical/interpolate.py
index 1ce3518..27086d1 100644
--- a/src/pyhipp/numerical/interpolate.py
+++ b/src/pyhipp/numerical/interpolate.py
@@ -139,7 +139,7 @@ class Linear:
             n = len(x_nodes)
             assert x_nodes.shape == (n,)
             assert y_nodes.shape == (n,)
-            assert (x_nodes[1:] - x_nodes[:-1]).all()
+            assert (x_nodes[1:] > x_nodes[:-1]).all()
         assert len(x_nodes) >= 2
 
         self._x_nodes = x_nodes
-- 
2.43.0


From 936b5356bf33660bbf52301b74306d5472016487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 13/40] fix: a parameter replaced in a ParamList is not found
 under its old name

---
 src/pyhipp/astro/cosmology/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/param.py b/src/pyhipp/astro/cosmology/param.py
index eea7d33..4ed3f7f 100644
--- a/src/pyhipp/astro/cosmology/param.py
+++ b/src/pyhipp/astro/cosmology/param.py
@@ -29,7 +29,7 @@ class ParamList(HasName, HasSimpleRepr):
     
     def __setitem__(self, idx: int, param: Param) -> None:
         self._params[idx] = param
-        self._name2idx[param.name] = idx
+        self._name2idx = {p.name: i for i, p in enumerate(self._params)}
     
     def __len__(self) -> int:
         return len(self._params)
-- 
2.43.0


From dc8d0d7327144ff0f6c902d60e846a08afa1723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 14/40] fix: BinaryFile.skip_rec accepts every dtype that
 load_rec accepts

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 9db155d..f816fcb 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -63,4 +63,4 @@ class BinaryFile(HasDictRepr):
         '''
         if n is None:
             n = 1
-        return dtype.itemsize * n
+        return np.dtype(dtype).itemsize * n
-- 
2.43.0


From 926749b1aa4ad8a2d493054895e308b2d64386d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 15/40] fix: repr of BinaryFile refers to attributes that exist

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index f816fcb..54c9b14 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -12,7 +12,7 @@ import numpy as np
 
 class BinaryFile(HasDictRepr):
 
-    repr_attr_keys = ('file', 'file_path', 'mode', 'open_kw')
+    repr_attr_keys = ('_file', '_file_path', '_mode', '_open_kw')
 
     def __init__(self, file_path: Path, mode='rb', open_kw={}):
 
-- 
2.43.0


From 6697bf6c366952631646d46063cac1afd938631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 16/40] fix: txt_to_h5 honours d_flag for a file name

---
 src/pyhipp/io/h5/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/shortcuts.py b/src/pyhipp/io/h5/shortcuts.py
index 939c99e..b260109 100644
--- a/src/pyhipp/io/h5/shortcuts.py
+++ b/src/pyhipp/io/h5/shortcuts.py
@@ -16,7 +16,7 @@ def txt_to_h5(f_in: str, f_out: str | Group, dtype: np.ndarray,
     '''
     if isinstance(f_out, (str, Path)):
         with File(f_out, f_flag) as _f_out:
-            txt_to_h5(f_in, _f_out, dtype)
+            txt_to_h5(f_in, _f_out, dtype, d_flag=d_flag)
         return
     assert isinstance(f_out, Group)
     dsets = np.loadtxt(f_in, dtype=dtype)
-- 
2.43.0


From 296052f43502280e5132432667eec83350b0b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 17/40] fix: Excel.load_file(as_datatables=True) builds the
 tables

---
 src/pyhipp/io/excel/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/io/excel/__init__.py b/src/pyhipp/io/excel/__init__.py
index c368271..1b8cd56 100644
--- a/src/pyhipp/io/excel/__init__.py
+++ b/src/pyhipp/io/excel/__init__.py
@@ -74,8 +74,9 @@ class Excel:
                   reorder=True):
         d_in = pd.read_excel(file, sheet_name=None)
         if as_datatables:
-            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.to_dict(
-                orient='series', index=False)}, copy=False) for k, v in d_in.items()}
+            d_in = {k: DataTable({
+                k1: v1.to_numpy() for k1, v1 in v.items()
+            }, copy=False) for k, v in d_in.items()}
         if reorder:
             d_out = Excel.__reorder_input(d_in)
         else:
-- 
2.43.0


From 415f5b9dfd5882beba7c7613efe2a5caff4c5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 18/40] fix: DatasetManager.what/ls does not need a length that
 the manager lacks

---
 src/pyhipp/io/h5/named_objs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c09126d..091da33 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -231,9 +231,10 @@ class DatasetManager(Obj):
         return f'DatasetManager(keys={self.keys()})'
 
     def what(self) -> str:
-        if len(self) == 0:
+        keys = self.keys()
+        if len(keys) == 0:
             return ''
-        return '[' + ', '.join(self.__keys()) + ']'
+        return '[' + ', '.join(keys) + ']'
 
     def __keys(self) -> Iterable[str]:
         return (k for k, _ in self.__items())
-- 
2.43.0


From 60aa5c0d55a6fbdcdc9e60f7d38afbf02ca77cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 19/40] fix: AttrManager.create_empty gives h5py the data it
 requires

---
 src/pyhipp/io/h5/named_objs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index 091da33..4bd4c95 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -82,7 +82,7 @@ class AttrManager(Obj):
             if flag == 'x':
                 raise ValueError(f'Redundant key {key}')
         else:
-            self._raw.create(key, shape=shape, dtype=dtype)
+            self._raw.create(key, data=np.zeros(shape, dtype=dtype))
 
     def keys(self) -> KeyList:
         return KeyList(self.__keys())
-- 
2.43.0


From 22cf57b0050740e66de19b501ec20c2e027ad1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 20/40] fix: Count of unmasked 2-D data has one count per row

---
 src/pyhipp/stats/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 07f3b8a..ff25d92 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -107,7 +107,8 @@ class Count(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        out = x.shape[-1] if mask is None else mask.sum(-1)
+        out = np.full(x.shape[:-1], x.shape[-1]) if mask is None \
+            else mask.sum(-1)
         return np.asarray(out)
 
 
-- 
2.43.0


From 8dc1d5c6122f11501468221067e6354162abe9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 21/40] fix: Standardize keeps the sd_lb that its repr shows

---
 src/pyhipp/stats/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyhipp/stats/preprocessing.py b/src/pyhipp/stats/preprocessing.py
index 143e059..cf447cb 100644
--- a/src/pyhipp/stats/preprocessing.py
+++ b/src/pyhipp/stats/preprocessing.py
@@ -39,6 +39,7 @@ class Standardize(Preprocess):
         
         self.mean = mean
         self.sd = sd
+        self.sd_lb = float(sd_lb)
         
     def _impl_forward(self, x: np.ndarray) -> np.ndarray:
         return (x - self.mean) / self.sd
-- 
2.43.0


From 6c97ce86ef1c81f0259a7504a5d3cbe5f0f2af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 22/40] fix: len() of a point group counts its operations

---
 src/pyhipp/group_theory/point_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/group_theory/point_group.py b/src/pyhipp/group_theory/point_group.py
index 919da09..ad382a6 100644
--- a/src/pyhipp/group_theory/point_group.py
+++ b/src/pyhipp/group_theory/point_group.py
@@ -90,7 +90,7 @@ class Group(abc.HasName, abc.HasSimpleRepr):
         return iter(self.ops)
     
     def __len__(self) -> int:
-        return len(self.opts)
+        return len(self.ops)
     
     def __getitem__(self, idx) -> Op:
         return self.ops[idx]
-- 
2.43.0


From 584d3f6566fd3ee2be200b11abc01b1e5013efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 23/40] fix: smoothing and tidal fields keep the shape of
 meshes with an odd number of grids

---
 src/pyhipp/field/cubic_box/gravity.py   | 3 ++-
 src/pyhipp/field/cubic_box/smoothing.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/gravity.py b/src/pyhipp/field/cubic_box/gravity.py
index b1ee677..ce8d9b5 100644
--- a/src/pyhipp/field/cubic_box/gravity.py
+++ b/src/pyhipp/field/cubic_box/gravity.py
@@ -91,7 +91,8 @@ class TidalField:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         sm = _Gaussian(self._r_sm, mesh)
         S = _LinearShapeFn(mesh) if self._correct_shape == 'cic' \
             else _NoneShapeFn()
diff --git a/src/pyhipp/field/cubic_box/smoothing.py b/src/pyhipp/field/cubic_box/smoothing.py
index ca5a7be..cb0b897 100644
--- a/src/pyhipp/field/cubic_box/smoothing.py
+++ b/src/pyhipp/field/cubic_box/smoothing.py
@@ -90,7 +90,8 @@ class FFTSmoothing:
 
     def run(self, field: Field):
         data, mesh = field.data, field.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=data.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
@@ -157,7 +158,8 @@ class FourierSpaceSmoothing:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers,
+                        norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
-- 
2.43.0


From f2d56c29e4521e39d0afadfb8a7d2f6c209c9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 24/40] fix: kd_mesh query delivers each neighbor once when it
 wraps around the box

---
 src/pyhipp/field/neighbor/kd_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/field/neighbor/kd_mesh.py b/src/pyhipp/field/neighbor/kd_mesh.py
index 19ea9bc..a8c4f68 100644
--- a/src/pyhipp/field/neighbor/kd_mesh.py
+++ b/src/pyhipp/field/neighbor/kd_mesh.py
@@ -87,6 +87,8 @@ class _PE3:
 
         lb0, lb1, lb2 = mesh.x2xi_3(x_dst - r_dst)
         ub0, ub1, ub2 = mesh.x2xi_3(x_dst + r_dst) + 1
+        # a query wider than the box must not visit a periodic cell twice
+        ub0, ub1, ub2 = min(ub0, lb0+n), min(ub1, lb1+n), min(ub2, lb2+n)
         for i0 in range(lb0, ub0):
             i0_p = i0 % n
             for i1 in range(lb1, ub1):
-- 
2.43.0


From 347eb7260986282406ba94d30889a36179ceb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 25/40] fix: rt_to_cart accepts integer positions

---
 src/pyhipp/core/dataproc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 3e4090b..9cabc63 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -30,7 +30,7 @@ class Polar:
         @x: (n,3) array-like, spatial position.
         @v: (n,3) array-like, vector to be transformed.
         '''
-        vnew_z = np.array(x)
+        vnew_z = np.array(x, dtype=float)
         vold_z = np.array([0,0,1])
         vnew_x = np.cross(vold_z, vnew_z)
         vnew_y = np.cross(vnew_z, vnew_x)
-- 
2.43.0


From 3ad2693ac10d4e93b7ff89fa07b6d1b277c84230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 26/40] fix: the sign of a sexagesimal angle applies to its
 minutes and seconds

---
 src/pyhipp/astro/coords/cvt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyhipp/astro/coords/cvt.py b/src/pyhipp/astro/coords/cvt.py
index 5d6b833..7c20557 100644
--- a/src/pyhipp/astro/coords/cvt.py
+++ b/src/pyhipp/astro/coords/cvt.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import math
 import typing
 from typing import Self
 
@@ -6,6 +7,8 @@ def dms_to_deg(dms: str| tuple[float,float,float]) -> float:
     if isinstance(dms, str):
         dms = tuple(float(v) for v in dms.split(':'))
     d, m, s = dms
+    if math.copysign(1., d) < 0.:       # the sign covers minutes and seconds
+        m, s = -abs(m), -abs(s)
     deg = d + m / 60. + s / 3600.
     return deg
 
@@ -13,5 +16,7 @@ def hms_to_deg(hms: str| tuple[float,float,float]) -> float:
     if isinstance(hms, str):
         hms = tuple(float(v) for v in hms.split(':'))
     h, m, s = hms
+    if math.copysign(1., h) < 0.:
+        m, s = -abs(m), -abs(s)
     deg = (h + m / 60. + s / 3600.)*15.
     return deg
\ No newline at end of file
-- 
2.43.0


From ea51f596f838a7e2fdde912a00cd10c7fe9384da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 27/40] fix: a kpc is a thousandth of a Mpc

---
 src/pyhipp/astro/quantity/unit_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/quantity/unit_system.py b/src/pyhipp/astro/quantity/unit_system.py
index 28c4ca5..716823d 100644
--- a/src/pyhipp/astro/quantity/unit_system.py
+++ b/src/pyhipp/astro/quantity/unit_system.py
@@ -28,7 +28,7 @@ class _Constants:
     def __init__(self) -> None:
 
         self.mpc_to_m = 3.085677581491367e+22
-        self.kpc_to_m = self.mpc_to_m * 1.0e3
+        self.kpc_to_m = self.mpc_to_m / 1.0e3
         self.pc_to_m = self.mpc_to_m / 1.0e6
         self.gyr_to_s = 3.15576e+16
         self.myr_to_s = self.gyr_to_s / 1.0e3
-- 
2.43.0


From f751f496f7ed3bd172fcaaba99742491c42cd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 28/40] fix: add_secondary_identical_axis passes two functions

---
 src/pyhipp/astro/plot/shortcuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/astro/plot/shortcuts.py b/src/pyhipp/astro/plot/shortcuts.py
index 06a82fb..de8271c 100644
--- a/src/pyhipp/astro/plot/shortcuts.py
+++ b/src/pyhipp/astro/plot/shortcuts.py
@@ -53,9 +53,9 @@ class Axes:
     def add_secondary_identical_axis(
             self, location='top', ticks=None, label=None, hide_first_ticks=True,
             **mpl_axes_kw):
-        def fn(x): return x, lambda x: x
+        def fn(x): return x
         return self.add_secondary_axis(
-            *fn, location=location, ticks=ticks, label=label,
+            fn, fn, location=location, ticks=ticks, label=label,
             hide_first_ticks=hide_first_ticks, **mpl_axes_kw)
 
     def add_secondary_axis_interp(
-- 
2.43.0


From c45d91a139358c79f6b0622206a8b125e10c28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 29/40] fix: a mass definition does not change the options
 given to mass_function

---
 src/pyhipp/astro/cosmology/halo_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/halo_theory.py b/src/pyhipp/astro/cosmology/halo_theory.py
index f3177a8..7137862 100644
--- a/src/pyhipp/astro/cosmology/halo_theory.py
+++ b/src/pyhipp/astro/cosmology/halo_theory.py
@@ -179,7 +179,7 @@ class HaloTheory(HasSimpleRepr, IsImmutable):
             raise ValueError(f'Unknown mass_def: {mass_def}')
         
         from hmf import MassFunction
-        impl_kw |= {
+        impl_kw = impl_kw | {
             'Mmin': lgM_min + 10.0,                     # lg M, [Msun/h]
             'Mmax': lgM_max + 10.0 + dlgM * 0.001,
             'dlog10m': dlgM,
-- 
2.43.0


From 0006f9ca3ded23a49f80961ac756afe8aedf0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 30/40] fix: legends can be put at the center left and center
 right

---
 src/pyhipp/plot/axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 2fa6016..a4ec8fe 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -405,7 +405,7 @@ class Axes(MplObj[mpl_axes.Axes]):
             'r': 'right',
             'lr': 'lower right', 'll': 'lower left', 'cl': 'center left',
             'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center',
-            'center left': 'cl', 'center right': 'cr', 'c': 'center',
+            'cr': 'center right', 'c': 'center',
         }
         loc = loc_map.get(loc, loc)
 
-- 
2.43.0


From 5bacbae21c412041a6a334ad636ff4ea86099c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 31/40] fix: errorfill accepts the yerr=None that it documents

---
 src/pyhipp/plot/axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index a4ec8fe..b70ae00 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -301,7 +301,7 @@ class Axes(MplObj[mpl_axes.Axes]):
             passed to plot() and fill_between(), respectively.
         '''
         if yerr is None:
-            ylo = yhi = None
+            ylo = yhi = 0.
         elif np.isscalar(yerr):
             ylo = yhi = yerr
         else:
-- 
2.43.0


From 2c52d8b24276b4d02e4e3f00e2785a794aab455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 32/40] fix: a frame setting does not undo settings made since
 by other calls

---
 src/pyhipp/plot/artist_formatter.py | 34 +++++++++++++++++++++--------
 src/pyhipp/plot/axes.py             |  2 +-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/pyhipp/plot/artist_formatter.py b/src/pyhipp/plot/artist_formatter.py
index c1cff7d..b2f7124 100644
--- a/src/pyhipp/plot/artist_formatter.py
+++ b/src/pyhipp/plot/artist_formatter.py
@@ -167,29 +167,45 @@ class FrameFormatter(ArtistFormatter):
             ticks=ticks, ticklabels=ticklabels, tick_params=tick_params, 
             label_outer=label_outer)
         
-    def apply(self, ax: Axes):
-        lim = self['lim']
-        if lim is not None:
-            self.__apply_lim(ax, lim)
+    def apply(self, ax: Axes, keys=None):
+        '''
+        @keys: settings to apply, default to all of them. The others are kept 
+        as they are on `ax`, except that the ticks have to be set again with a 
+        new scale, and the inner labels have to be hidden again.
+        '''
+        if keys is None:
+            keys = self._fmt_dict.keys()
             
         label = self['label']
-        if label is not None:
+        if 'label' in keys and label is not None:
             self.__apply_label(ax, label)
             
         scale = self['scale']
-        if scale is not None:
+        new_scale = 'scale' in keys and scale is not None
+        if new_scale:
             self.__apply_scale(ax, scale)
             
+        # ticks may extend the limits
+        lim = self['lim']
+        if 'lim' not in keys:
+            lim = None
+            if new_scale and 'ticks' not in keys:
+                lim = {'x': ax._raw.get_xlim(), 'y': ax._raw.get_ylim(), 
+                       'auto': None}
+            
         ticks = self['ticks']
-        if ticks is not None:
+        if (new_scale or 'ticks' in keys) and ticks is not None:
             self.__apply_ticks(ax, ticks)
             
         ticklabels = self['ticklabels']
-        if ticklabels is not None:
+        if (new_scale or 'ticklabels' in keys) and ticklabels is not None:
             self.__apply_ticklabels(ax, ticklabels)
             
+        if lim is not None:
+            self.__apply_lim(ax, lim)
+            
         tick_params = self['tick_params']
-        if tick_params is not None:
+        if 'tick_params' in keys and tick_params is not None:
             self.__apply_tick_params(ax, tick_params)
             
         label_outer = self['label_outer']
diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index b70ae00..ee5861d 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -131,7 +131,7 @@ class Axes(MplObj[mpl_axes.Axes]):
     def fmt_frame(self, **kw) -> Axes:
         fmt = self._frame_fmt
         fmt.update(kw)
-        fmt.apply(self)
+        fmt.apply(self, kw)
         return self
 
     def fmt_marker(self, style=None, c=None, a=None, **kw) -> Axes:
-- 
2.43.0


From 769052ce7c4bf53a32c82f71ed08e24f1768cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 33/40] fix: Histogram2D.on evaluates the bin in which a point
 was counted

---
 src/pyhipp/plot/two_dim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/two_dim.py b/src/pyhipp/plot/two_dim.py
index 30fc479..f4f4b4a 100644
--- a/src/pyhipp/plot/two_dim.py
+++ b/src/pyhipp/plot/two_dim.py
@@ -83,8 +83,10 @@ class Histogram2D(DensityEstimator2D):
     def on(self, x: np.ndarray, y: np.ndarray) -> np.ndarray:
         x_e, y_e = self.x_e, self.y_e
         n_x, n_y = len(x_e) - 1, len(y_e) - 1
-        x_id = np.searchsorted(self.x_e, x) - 1
-        y_id = np.searchsorted(self.y_e, y) - 1
+        # bins are closed at left, and the last one also at right
+        x, y = np.asarray(x), np.asarray(y)
+        x_id = np.searchsorted(x_e, x, side='right') - 1 - (x == x_e[-1])
+        y_id = np.searchsorted(y_e, y, side='right') - 1 - (y == y_e[-1])
         _x_id, _y_id = np.clip(x_id, 0, n_x-1), np.clip(y_id, 0, n_y-1)
         z = self.z[_x_id, _y_id]
         if self.out_of_range == 'zero':
-- 
2.43.0


From 88431136856c27eb9c8eb45d97c0ec73d4e233d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 34/40] fix: grid() does not need a line style, width and color

---
 src/pyhipp/plot/axes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index ee5861d..066ee18 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -62,8 +62,10 @@ class Axes(MplObj[mpl_axes.Axes]):
     def grid(self, visible=True, which='major', axis='both',
              lw=None, ls=None, c=None, **mpl_grid_kw):
 
+        style = dict(lw=lw, ls=ls, c=c)
+        style = {k: v for k, v in style.items() if v is not None}
         kw = dict(which=which, axis=axis, visible=visible,
-                  lw=lw, ls=ls, c=c, **mpl_grid_kw
+                  **style, **mpl_grid_kw
                   )
         self._raw.grid(**kw)
 
-- 
2.43.0


From 63ab948f1b78303943c7b22d57366490b863a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 35/40] fix: resampled_call accepts iterators of data sets and
 of sizes

---
 src/pyhipp/stats/sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyhipp/stats/sampling.py b/src/pyhipp/stats/sampling.py
index dff2bc7..2843a31 100644
--- a/src/pyhipp/stats/sampling.py
+++ b/src/pyhipp/stats/sampling.py
@@ -23,6 +23,10 @@ class Bootstrap:
     ) -> DataDict:
 
         rng = Rng(rng)
+        # may be iterators, but are needed in each resample
+        dsets_in = list(dsets_in)
+        if dsets_max_sizes is not None:
+            dsets_max_sizes = list(dsets_max_sizes)
 
         dsets_out: List[Mapping] = []
         for _ in range(n_resample):
-- 
2.43.0


From e77797feea6e0c343059c7f33b2d34ef978ffc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 36/40] fix: by_local_kernel accepts an iterator of reductions

---
 src/pyhipp/stats/regression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/regression.py b/src/pyhipp/stats/regression.py
index e7a553d..da508b1 100644
--- a/src/pyhipp/stats/regression.py
+++ b/src/pyhipp/stats/regression.py
@@ -114,8 +114,9 @@ class _LocalKernelRegression(_Regression):
         std is the standard deviation of x, computed along every axes and then 
         averaged.
         '''
-        r_names = tuple(n for n, _ in m_reduction.predefined.iter(reduce))
-        r_calls = tuple(c for _, c in m_reduction.predefined.iter(reduce))
+        reduce = tuple(m_reduction.predefined.iter(reduce))
+        r_names = tuple(n for n, _ in reduce)
+        r_calls = tuple(c for _, c in reduce)
         n_rs = len(r_names)
         if kernel is not None:
             kernel = m_kernel.predefined.create(kernel)[1]
-- 
2.43.0


From 7f2c661f5120139e8d2e0db43e6219db597dadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 37/40] fix: a one-row text table gives one-row datasets

---
 src/pyhipp/io/h5/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/shortcuts.py b/src/pyhipp/io/h5/shortcuts.py
index b260109..da4ca6f 100644
--- a/src/pyhipp/io/h5/shortcuts.py
+++ b/src/pyhipp/io/h5/shortcuts.py
@@ -19,6 +19,6 @@ def txt_to_h5(f_in: str, f_out: str | Group, dtype: np.ndarray,
             txt_to_h5(f_in, _f_out, dtype, d_flag=d_flag)
         return
     assert isinstance(f_out, Group)
-    dsets = np.loadtxt(f_in, dtype=dtype)
+    dsets = np.loadtxt(f_in, dtype=dtype, ndmin=1)
     for k in dsets.dtype.names:
         f_out.datasets.create(k, data=dsets[k], flag=d_flag)
-- 
2.43.0


From 41134f6f78e73b6c16e732a6845513709f43bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 38/40] fix: EqualSpaceBins.locate agrees with its edges to the
 last digit

---
 src/pyhipp/stats/binning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 0b7fd6f..349d09a 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -190,8 +190,12 @@ class EqualSpaceBins(Bins):
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
         # clip before the cast: far out-of-range values do not fit in an int
-        ids = np.clip(np.floor((x - b) / x_step), -1, n_bins)
-        return ids.astype(np.int64)
+        ids = np.clip(np.floor((x - b) / x_step), -1, n_bins).astype(np.int64)
+        # rounding may put x into the bin next to the one that its edges imply
+        e = self.x_edges
+        ids = ids - ((ids >= 0) & (x < e[np.clip(ids, 0, n_bins)]))
+        ids = ids + ((ids < n_bins) & (x >= e[np.clip(ids + 1, 0, n_bins)]))
+        return ids
         
     def to_simple_repr(self) -> dict:
         return {
-- 
2.43.0


From 669b41c67a3d43b2f1324f2de94df6b21633b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 39/40] fix: Quantile accepts integer ps with a fractional
 result

---
 src/pyhipp/stats/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index ff25d92..0a30c95 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -198,7 +198,7 @@ class Quantile(Reduce):
             ps = self.ps_map[ps]
         ps = np.array(ps)
 
-        _empty_fill = np.empty_like(ps)
+        _empty_fill = np.empty_like(ps, dtype=float)
         _empty_fill[...] = empty_fill
 
         super().__init__(_empty_fill, **base_kw)
-- 
2.43.0


From 4841bba9ee3df8d1370eab949e77132b9d1c44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 40/40] fix: a new scale keeps all explicit ticks of the axis

---
 src/pyhipp/plot/artist_formatter.py | 59 ++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/pyhipp/plot/artist_formatter.py b/src/pyhipp/plot/artist_formatter.py
index b2f7124..18143c1 100644
--- a/src/pyhipp/plot/artist_formatter.py
+++ b/src/pyhipp/plot/artist_formatter.py
@@ -4,6 +4,8 @@ from ..core import DataDict
 import typing
 import numpy as np
 from collections.abc import Mapping
+from matplotlib.axis import Axis
+from matplotlib.ticker import FixedFormatter, FixedLocator, FuncFormatter
 if typing.TYPE_CHECKING:
     from .axes import Axes
 
@@ -158,6 +160,34 @@ class TextFormatter(ArtistFormatter):
         return Color(*self['c', 'a'])
     
     
+class _KeptTicks:
+    '''
+    Keep the explicit ticks and tick labels of an axis, which a new scale 
+    replaces with its default ones.
+    '''
+    def __init__(self, axis: Axis) -> None:
+        self.axis = axis
+        
+    def __enter__(self):
+        axis = self.axis
+        self.major = axis.get_major_locator(), axis.get_major_formatter()
+        self.minor = axis.get_minor_locator(), axis.get_minor_formatter()
+        
+    def __exit__(self, *args):
+        axis, explicit_labels = self.axis, (FuncFormatter, FixedFormatter)
+        
+        locator, formatter = self.major
+        if isinstance(locator, FixedLocator):
+            axis.set_major_locator(locator)
+            if isinstance(formatter, explicit_labels):
+                axis.set_major_formatter(formatter)
+                
+        locator, formatter = self.minor
+        if isinstance(locator, FixedLocator):
+            axis.set_minor_locator(locator)
+            if isinstance(formatter, explicit_labels):
+                axis.set_minor_formatter(formatter)
+    
 class FrameFormatter(ArtistFormatter):
     def __init__(self, lim = None, label = None, scale = None, 
             ticks = None, ticklabels = None, tick_params = None,
@@ -170,8 +200,8 @@ class FrameFormatter(ArtistFormatter):
     def apply(self, ax: Axes, keys=None):
         '''
         @keys: settings to apply, default to all of them. The others are kept 
-        as they are on `ax`, except that the ticks have to be set again with a 
-        new scale, and the inner labels have to be hidden again.
+        as they are on `ax`, including the ticks with a new scale, except that 
+        the inner labels have to be hidden again.
         '''
         if keys is None:
             keys = self._fmt_dict.keys()
@@ -181,27 +211,20 @@ class FrameFormatter(ArtistFormatter):
             self.__apply_label(ax, label)
             
         scale = self['scale']
-        new_scale = 'scale' in keys and scale is not None
-        if new_scale:
+        if 'scale' in keys and scale is not None:
             self.__apply_scale(ax, scale)
             
-        # ticks may extend the limits
-        lim = self['lim']
-        if 'lim' not in keys:
-            lim = None
-            if new_scale and 'ticks' not in keys:
-                lim = {'x': ax._raw.get_xlim(), 'y': ax._raw.get_ylim(), 
-                       'auto': None}
-            
         ticks = self['ticks']
-        if (new_scale or 'ticks' in keys) and ticks is not None:
+        if 'ticks' in keys and ticks is not None:
             self.__apply_ticks(ax, ticks)
             
         ticklabels = self['ticklabels']
-        if (new_scale or 'ticklabels' in keys) and ticklabels is not None:
+        if 'ticklabels' in keys and ticklabels is not None:
             self.__apply_ticklabels(ax, ticklabels)
             
-        if lim is not None:
+        # ticks may extend the limits
+        lim = self['lim']
+        if 'lim' in keys and lim is not None:
             self.__apply_lim(ax, lim)
             
         tick_params = self['tick_params']
@@ -257,9 +280,11 @@ class FrameFormatter(ArtistFormatter):
 
         mpl_ax = ax._raw
         if x is not None:
-            mpl_ax.set_xscale(x, **kw)
+            with _KeptTicks(mpl_ax.xaxis):
+                mpl_ax.set_xscale(x, **kw)
         if y is not None:
-            mpl_ax.set_yscale(y, **kw)
+            with _KeptTicks(mpl_ax.yaxis):
+                mpl_ax.set_yscale(y, **kw)
             
     def __apply_ticks(self, ax: Axes, ticks):
         if isinstance(ticks, Mapping):
-- 
2.43.0

