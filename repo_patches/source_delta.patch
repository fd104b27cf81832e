From f5b1cb4f86916d8d65f78cb2dd01bf3f394220c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 001/121] fix: remove_rep collapses repetition axes that are
 not adjacent

---
 hftools/dataset/arrayobj.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..572ef10 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -277,16 +277,14 @@ def remove_rep(data, newdimname="AllReps"):
         dims = list(zip(*order))[1]
 
         newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
         shapes = [data.shape[i] for i, _ in order]
         repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
+        first = order[0][0]
+        a = np.array(newdata, order="C")
+        a.shape = (newdata.shape[:first] + (repsize,) +
+                   newdata.shape[first + len(order):])
+        dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
+                newdata.dims[first + len(order):])
     else:
         dims = data.dims
         a = data
-- 
2.43.0


From 4b45bf6bf5a082287a0a6ed1c6e3209e1654e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 002/121] fix: hfarray.std and hfarray.var honour ddof

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 572ef10..4790af3 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -818,7 +818,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -838,7 +839,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From 677ebb74840602795cdc81182464afe3c97afe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:11 +0000
Subject: [PATCH 003/121] fix: reductions and squeeze accept negative axis
 numbers

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 4790af3..3bd73d5 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -970,7 +970,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(ax + a.ndim if ax < 0 else ax)
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From ae1e01e5acae1e8b87cc684fceca266e17137977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:31 +0000
Subject: [PATCH 004/121] fix: conversion between S, Z and Y works for any
 number of ports

---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..b47314b 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    n = a.shape[-1]
+    tau1 = P[..., :n, :n]
+    sigma1 = P[..., :n, n:]
+    tau2 = P[..., n:, :n]
+    sigma2 = P[..., n:, n:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From e0bd2284cc40f0991be347521719a9f827d457b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:31 +0000
Subject: [PATCH 005/121] fix: views of and arithmetic on Z, Y, H, G, ABCD and
 T arrays

---
 hftools/networks/multiports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index b47314b..519d789 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -156,7 +156,8 @@ class _MultiPortArray(_hfarray):
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            x._attrfuns = self._attrfuns
+            return x
         else:
             return np.ndarray.view(self, dtype=self.dtype, type=type)
 
-- 
2.43.0


From 1d5effe7e3e45215950016ee46a2f0bfe71cfad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:50 +0000
Subject: [PATCH 006/121] fix: reference impedance is honoured for plain data
 and survives copies, views and slices

---
 hftools/networks/multiports.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 519d789..bafa731 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -99,8 +99,8 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
-            pass
+        if isinstance(data, self.__class__) and Z0 in (None, data.Z0):
+            self.Z0 = data.Z0
         elif isinstance(data, _MultiPortArray):
             if Z0 is None:
                 self.Z0 = getattr(data, "Z0", None)
@@ -115,6 +115,8 @@ class _MultiPortArray(_hfarray):
                        "elements of a %s matrix")
                 msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                 raise ValueError(msg)
+        elif Z0 is not None:
+            self.Z0 = Z0
 
     @property
     def Z0(self):
@@ -171,8 +173,8 @@ class _MultiPortArray(_hfarray):
 
         Converts *self* and *other* to S-parameters first if necessary.
         """
-        a = SArray(self)
-        b = SArray(other)
+        a = SArray(self, Z0=50.)
+        b = SArray(other, Z0=50.)
         return self.__class__(cascadeS(a, b))
 
     def deembed(self, left=None, right=None):
@@ -184,15 +186,15 @@ class _MultiPortArray(_hfarray):
         if left is None and right is None:
             return self
         elif left is None:
-            return self.__class__(deembedright(SArray(self),
-                                               SArray(right)))
+            return self.__class__(deembedright(SArray(self, Z0=50.),
+                                               SArray(right, Z0=50.)))
         elif right is None:
-            return self.__class__(deembedleft(SArray(left),
-                                              SArray(self)))
+            return self.__class__(deembedleft(SArray(left, Z0=50.),
+                                              SArray(self, Z0=50.)))
         else:
-            return self.__class__(deembed(SArray(left),
-                                          SArray(self),
-                                          SArray(right)))
+            return self.__class__(deembed(SArray(left, Z0=50.),
+                                          SArray(self, Z0=50.),
+                                          SArray(right, Z0=50.)))
 
     def __getattr__(self, key):
         try:
@@ -212,7 +214,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
@@ -331,7 +335,9 @@ This model may be of any dimension.
 """
     shortname = "S"
 
-    def __init__(self, data, dims=None, copy=True, Z0=50., info=None, unit=None):
+    def __init__(self, data, dims=None, copy=True, Z0=None, info=None, unit=None):
+        if Z0 is None and not isinstance(data, SArray):
+            Z0 = 50.
         _MultiPortArray.__init__(self, data, dims, copy=copy, Z0=Z0, info=info, unit=unit)
 
     @property
-- 
2.43.0


From a52320fa8242e9c8725d8c01f2e76e279d41d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:08 +0000
Subject: [PATCH 007/121] fix: dimensions that compare equal have equal hashes

---
 hftools/dataset/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..3631b63 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -145,8 +145,9 @@ class DimBase(object):
                                      self.data.shape)
 
     def __hash__(self):
+        # the output format does not take part in comparisons
         return hash((self.sortprio, self.name, self.__class__, self._data,
-                     self._unit, self._outputformat))
+                     self._unit, None))
 
     def __getitem__(self, index):
         if isinstance(index, slice) and (index == slice(None, None, None)):
-- 
2.43.0


From ef1174fb75f7217e4f9a5e8b298415d332e7f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:22 +0000
Subject: [PATCH 008/121] fix: noise resistance of a chain-matrix description
 is not doubled

---
 hftools/networks/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..fa64c22 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -87,14 +87,14 @@ class NoisyTwoport(object):
         db = DataBlock()
         db.S = SArray(self.N)
         if isinstance(self.N, ABCDArray):
-            CA = self.C / (2 * k * 290)
+            CA = self.C / (4 * k * 290)
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
             Rn = CA11.real
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
-            Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
+            Fmin = 1 + 2 * (CA12 + CA11 * Yopt.conj()).real
             if partial:
                 db.CA = CA
             db.Rn = Rn
-- 
2.43.0


From f0e71cc42cc7e3a0c57f1f0f392eee897bd3ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:22 +0000
Subject: [PATCH 009/121] fix: lstsq works for operands with different outer
 dimensions

---
 hftools/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..a4d775e 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -432,8 +432,8 @@ def lstsq(A, b, squeeze=True):
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
     xresult = hfarray(xempty, dims=xdims)
 
-    for a, b, rx in broadcast_matrices((A, b, xresult)):
-        rx[...], _, _, _ = lstsq(a, b)
+    for index, (a, b) in zip(np.ndindex(*res.outershape), res):
+        xresult[index], _, _, _ = lstsq(a, b)
     return xresult
 
 
-- 
2.43.0


From f9be8276234750055c446c35d70d819d02ee275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:22 +0000
Subject: [PATCH 010/121] fix: make_passive_svd multiplies plain matrices

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..e0185ce 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -124,7 +124,7 @@ def make_passive_svd(S, delta=1e-6):
         s = abs(s) - 1
         s[s < 0] = 0
         s = np.diag(s)
-        delta = matrix_multiply(matrix_multiply(u, s), v)
+        delta = np.dot(np.dot(u, s), v)
         out.append(ss - delta)
     return S.__class__(out, dims=S.dims)
 
-- 
2.43.0


From b724ab0db3e758c9160de0ed3b31ffb90e783489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:22 +0000
Subject: [PATCH 011/121] fix: make_reciprocal picks the root between S12 and
 S21

---
 hftools/networks/spar_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index e0185ce..c62e4dc 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -150,7 +150,7 @@ def make_reciprocal(S):
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-    A12 = np.where(np.angle(S12 / s12) < 1, S12, -S12)
+    A12 = np.where(abs(np.angle(S12 / s12)) <= np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
     S[..., 1, 0] = A12
     return S
-- 
2.43.0


From 535412d937e997e4bc901ec9de097a166fd430a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:30 +0000
Subject: [PATCH 012/121] fix: DataBlock.filter selects the given values of a
 dimension

---
 hftools/dataset/dataset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..e487e5c 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -418,12 +418,9 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            wanted = set(boolarray.flat)
+            boolarray = hfarray(array([x in wanted for x in localdim.data],
+                                      dtype=bool), dims=(localdim,))
 
         out = DataBlock()
         out.blockname = self.blockname
-- 
2.43.0


From 5900929c0c32c1d78b8a9d180b2980a7af7a2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:30 +0000
Subject: [PATCH 013/121] fix: selecting existing x-values keeps their order
 and axis

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index e487e5c..f2ead2d 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -738,13 +738,9 @@ def interpolate(newx, y, defaultmode=None):
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
         bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        if not bools.any(axis=1).all():
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        data = np.array(y, copy=False).take(bools.argmax(axis=1), axis=dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From b1df68b721e4018a4fff515a1e56edbd90a2f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:30 +0000
Subject: [PATCH 014/121] fix: hyper orders the data like the labels of the new
 dimensions

---
 hftools/dataset/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index f2ead2d..82945e3 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -670,10 +670,11 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            values = stable_uniq(self[x])
+            dims.append(DimSweep(newname, values,
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
-            sortdata.append(self[x])
+            sortdata.append([values.index(v) for v in self[x]])
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
 
-- 
2.43.0


From 8510825fb0315be62f96adeddd587acd1ea499f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:30 +0000
Subject: [PATCH 015/121] fix: renaming a key to its own name keeps its
 position

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 82945e3..41befa2 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -139,6 +139,8 @@ class DataDict(dict):
 
     def rename(self, oldname, newname):
         vdata = self[oldname]
+        if newname == oldname:
+            return
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 7da0b2a357c04d47d8909d02901c02412575b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:30 +0000
Subject: [PATCH 016/121] fix: the key order of a DataDict follows every way of
 changing it

---
 hftools/dataset/dataset.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 41befa2..475afff 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -137,6 +137,26 @@ class DataDict(dict):
             self.order.append(key)
         return a
 
+    def update(self, *k, **kw):
+        for key, value in dict(*k, **kw).items():
+            self[key] = value
+
+    def pop(self, key, *default):
+        value = dict.pop(self, key, *default)
+        if key in self.order:
+            self.order.remove(key)
+        return value
+
+    def popitem(self):
+        if not self:
+            raise KeyError("popitem(): dictionary is empty")
+        key = self.keys()[-1]
+        return key, self.pop(key)
+
+    def clear(self):
+        dict.clear(self)
+        del self.order[:]
+
     def rename(self, oldname, newname):
         vdata = self[oldname]
         if newname == oldname:
-- 
2.43.0


From d2e6c3ca0a2e4d11d240a0c06b8db0a87b215c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:07 +0000
Subject: [PATCH 017/121] fix: a block can be sorted by an axis of length one

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 475afff..38ad63c 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -476,7 +476,9 @@ class DataBlock(object):
         return out
 
     def sort(self, dim):
-        dim = hfarray(dim, copy=False).squeeze()
+        dim = hfarray(dim, copy=False)
+        if dim.ndim > 1:
+            dim = dim.squeeze()
         if dim.ndim > 1:
             msg = "sort can only get sort direction from array with"\
                   " one dimension"
-- 
2.43.0


From c86dec9a5484fb845050720537ee4243b0b42c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:20 +0000
Subject: [PATCH 018/121] fix: Touchstone files with a single frequency can be
 read

---
 hftools/file_formats/touchstone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..cf185e2 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,9 +80,9 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    max_N = int(sqrt(max(sum(map(len, data)) - 1, 0) / 2.))
     n = 1  # number of ports
-    for n in range(1, max_N):
+    for n in range(1, max_N + 1):
         N = 2 * n ** 2 + 1  # number of data points per frequency
         output, noise = _process_data(data, N)
         if output:
-- 
2.43.0


From 69a03afd8b44d896827f3fde6e9ece5717c95b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:37 +0000
Subject: [PATCH 019/121] fix: save_touchstone works for blocks without
 comments

---
 hftools/file_formats/touchstone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index cf185e2..307b7e4 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -228,9 +228,10 @@ def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
     with open(filename, "w") as fil:
-        for comment in db.comments.fullcomments:
-            fil.write("!" + comment)
-            fil.write("\n")
+        if db.comments:
+            for comment in db.comments.fullcomments:
+                fil.write("!" + comment)
+                fil.write("\n")
         for k, v in db.vardata.items():
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
-- 
2.43.0


From 13f5bea732068b5aaa51d5877c29d8fcb1235226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:31 +0000
Subject: [PATCH 020/121] fix: Touchstone files of three and more ports are
 written row by row

---
 hftools/file_formats/touchstone.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 307b7e4..88624a4 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -23,7 +23,7 @@ from numpy import iscomplexobj, sqrt
 from hftools.math import dB_angle_to_complex, mag_angle_to_complex,\
     re_im_to_complex
 from hftools.dataset import DataBlock, DimSweep, hfarray,\
-    make_matrix, DimMatrix_i, DimMatrix_j
+    make_matrix, DimMatrix_i, DimMatrix_j, ismatrix
 from hftools.file_formats.common import Comments, db_iterator,\
     make_col_from_matrix
 from hftools.file_formats.readbase import Token
@@ -204,14 +204,19 @@ def proc_info(info, f, data, fn, noisedata):
     return db
 
 
+def _two_port(columns):
+    # only two-ports are stored column by column in touchstone files
+    return all(col.shape[-1] == 2 for col in columns if ismatrix(col))
+
+
 def format_touchstone_block(sweepvars, header, fmts,
                             columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment]
 
     yield [comments.property.get("INFO", ["#HZ S RI R 50"])[0]]
-    header, columns = make_col_from_matrix(header, columns,
-                                           "%s[%s,%s]", fortranorder=True)
+    header, columns = make_col_from_matrix(header, columns, "%s[%s,%s]",
+                                           fortranorder=_two_port(columns))
     fmts = [x.outputformat for x in columns]
     for row in zip(*columns):
         out = []
@@ -239,8 +244,10 @@ def save_touchstone(db, filename):
         fil.write("#HZ S RI R 50\n")
 
 
-        header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+        columns = [hfarray(db.S.dims[0]), db.S]
+        header, columns = make_col_from_matrix([db.S.dims[0].name, "S"],
+                                               columns, "%s[%s,%s]",
+                                               fortranorder=_two_port(columns))
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-- 
2.43.0


From a9dd54995d9ca7fc3b39fbfabfeaa0c9ab06e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:34 +0000
Subject: [PATCH 021/121] fix: numbers of 1e24 and above have the prefix Y

---
 hftools/constants/si_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..eaa0a40 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -27,12 +27,12 @@ siprefixes = dict(d=0.1, c=0.01,
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
-- 
2.43.0


From 1a864c2a7cb7fa7accd5477a32c6518477f8e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:34 +0000
Subject: [PATCH 022/121] fix: the whole exponent of a number with unit is read

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index eaa0a40..8cd00b1 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,7 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+0-9.]+([eE][-+]?[0-9]+)?")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
-- 
2.43.0


From 81c86a76cd31577b1e99fb876dec7216de5ac5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:34 +0000
Subject: [PATCH 023/121] fix: brackets around a unit are not part of it

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 8cd00b1..48bcfb9 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -77,7 +77,7 @@ def string_number_with_unit_to_value(string_number):
         reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
         unit_res = reg_unit.match(string_number[res.span()[-1]:])
         if unit_res:
-            unit = unit_res.group()
+            unit = unit_res.group(1)
         else:
             unit = None
     else:
-- 
2.43.0


From a296af3e43e6baba6109faca2dea730d976cb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:56 +0000
Subject: [PATCH 024/121] fix: comments with a unit but no number keep their
 text

---
 hftools/dataset/comments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 07273f6..74fc2a5 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -141,7 +141,10 @@ def process_comment(comment):
             except ValueError:
                 pass
         else:
-            value = convert([convert_with_unit], unit, value)
+            try:
+                value = convert([convert_with_unit], unit, value)
+            except ValueError:
+                pass
         out[varname] = value
     return out
 
-- 
2.43.0


From f40027ea50c618ebb1d2150313e0cb70bdc66a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:56 +0000
Subject: [PATCH 025/121] fix: comments do not share the list of lines they are
 made from

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..0689d72 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -179,7 +179,7 @@ class Comments(object):
     def __init__(self, fullcomments=None, **kw):
         if fullcomments is None:
             fullcomments = []
-        self.fullcomments = fullcomments
+        self.fullcomments = list(fullcomments)
         self.property = {}
         self.property.update(kw)
         self.add_from_comments(fullcomments)
-- 
2.43.0


From ef889ad21bcdd98fc98ad41aa21607aafa4a723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 026/121] fix: units of the axes are read from version 0.1 hdf5
 files

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..bd0f2da 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -104,7 +104,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From b2389102d2bac49a681d1d990cdd6f681295d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 027/121] fix: axis names with a slash can be saved to hdf5
 files

---
 hftools/file_formats/hdf5/v_02.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..760f263 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -48,7 +48,7 @@ def getvar(db, key):
     for x in X.dims:
         if len(x):
             dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
+            dim = dimcls(unescape_varname(x[0].name.strip("/")),
                          x[0][...],
                          unit = x[0].attrs.get("unit", None))
             dims.append(dim)
@@ -158,8 +158,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            scale = filehandle[escape_varname(dv.name)]
+            filehandle[ek].dims.create_scale(scale)
+            filehandle[ek].dims[idx].attach_scale(scale)
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
-- 
2.43.0


From fa87230c456d458218a26ecb8a02d012c1a985f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 028/121] fix: date and time axes keep their type in hdf5 files

---
 hftools/file_formats/hdf5/v_02.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 760f263..b4f6a64 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -49,7 +49,8 @@ def getvar(db, key):
         if len(x):
             dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
             dim = dimcls(unescape_varname(x[0].name.strip("/")),
-                         x[0][...],
+                         x[0][...].astype(x[0].attrs.get("dtype",
+                                                         x[0].dtype)),
                          unit = x[0].attrs.get("unit", None))
             dims.append(dim)
 
-- 
2.43.0


From 3137e1bad6eff10d31ee59443d20d8dca874ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:51 +0000
Subject: [PATCH 029/121] fix: appending to an hdf5 file numbers the new entry

---
 hftools/file_formats/hdf5/v_02.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index b4f6a64..8c9d4f6 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -187,7 +187,7 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         expanddim = DimRep("INDEX", 1)
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
+    filehandle[expanddim.name][-1] = idx
 
     for k, v in filehandle.items():
         uk = unescape_varname(k)
-- 
2.43.0


From 5ae03d49b29b7ea34771c17d10c2210c67405876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:38 +0000
Subject: [PATCH 030/121] fix: text appended to an hdf5 file is not cut off

---
 hftools/file_formats/hdf5/v_02.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 8c9d4f6..d0b1d6d 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -57,6 +57,8 @@ def getvar(db, key):
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
     dtype = X.attrs.get("dtype", None)
+    if dtype is not None and np.dtype(dtype).kind == "U":
+        dtype = np.unicode_
     if len(dims) == len(X.dims):
         return hfarray(X.value, dims=dims, unit=unit,
                        dtype=dtype, outputformat=outputformat)
-- 
2.43.0


From d3f1cd1a4462e8719915bb79d1d20f25345e7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:38 +0000
Subject: [PATCH 031/121] fix: an append that is refused leaves the hdf5 file
 unchanged

---
 hftools/file_formats/hdf5/v_02.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index d0b1d6d..312b91f 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -187,6 +187,11 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
+    for k in filehandle:
+        uk = unescape_varname(k)
+        if (uk not in db.ivardata and uk not in db.vardata and
+                uk != expanddim.name):
+            raise ValueError("Variable %r missing in db, can not append" % uk)
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
     filehandle[expanddim.name][-1] = idx
@@ -195,8 +200,6 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         uk = unescape_varname(k)
         if uk in db.ivardata or uk == expanddim.name:
             continue
-        if uk not in db.vardata:
-            raise ValueError("Variable %r missing in db, can not append" % uk)
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
         expand_dataset(diskdata, 1, ax)
-- 
2.43.0


From 196543083380d9cdee7a8d939f576133aaefb118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:00 +0000
Subject: [PATCH 032/121] fix: axes without data are read from hdf5 files

---
 hftools/file_formats/hdf5/v_02.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 312b91f..e1fdb5c 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -41,18 +41,20 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdim(scale):
+    dimcls = dimrep[cast_unicode(scale.attrs.get("dimtype", "DimSweep"))]
+    return dimcls(unescape_varname(scale.name.strip("/")),
+                  scale[...].astype(scale.attrs.get("dtype", scale.dtype)),
+                  unit=scale.attrs.get("unit", None))
+
+
 def getvar(db, key):
     X = db[key]
 
     dims = []
     for x in X.dims:
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(unescape_varname(x[0].name.strip("/")),
-                         x[0][...].astype(x[0].attrs.get("dtype",
-                                                         x[0].dtype)),
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
+            dims.append(getdim(x[0]))
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
@@ -108,6 +110,10 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
+        for k in filehandle:
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db:
+                db[uk] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
-- 
2.43.0


From 0083f9989806cf0becbc74ad8a605320604e766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:40 +0000
Subject: [PATCH 033/121] fix: adding an axis keeps unit and output format

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 3bd73d5..1286519 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -926,7 +926,8 @@ class _hfarray(ndarray):
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False)
+        return self.__class__(out, dims=dims, copy=False, unit=self.unit,
+                              outputformat=self.outputformat)
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From 28117b8ad9018abbe6d011b69c06848986615b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:49 +0000
Subject: [PATCH 034/121] fix: save_citi writes values without axes as comments

---
 hftools/file_formats/citi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..e40001e 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -177,8 +177,12 @@ def handle_data(data, typ):
 
 def format_citi_block(inblock):
     block = DataBlock()
+    scalars = []
     for k, v in inblock.vardata.items():
-        block[k] = v
+        if v.shape == ():
+            scalars.append((k, v))
+        else:
+            block[k] = v
     block.blockname = inblock.blockname
     block.comments = inblock.comments
     yield "CITIFILE A.01.01"
@@ -188,6 +192,8 @@ def format_citi_block(inblock):
             yield "!" + comment.lstrip("!")
     else:
         pass
+    for name, value in scalars:
+        yield "!%s: %s" % (name, value.outputformat % value)
     yield "NAME %s" % block.blockname
 
     for name, value in block.ivardata.items():
-- 
2.43.0


From 4b620407a853b0a84e355310007feeb169d861d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:49 +0000
Subject: [PATCH 035/121] fix: save_citi writes all data in the order of the
 axes

---
 hftools/file_formats/citi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index e40001e..138fc17 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -183,6 +183,11 @@ def format_citi_block(inblock):
             scalars.append((k, v))
         else:
             block[k] = v
+    sweeps = [v for v in block.ivardata.values()
+              if not isinstance(v, _DimMatrix)]
+    for k, v in block.vardata.items():
+        block.vardata[k] = v.reorder_dimensions(*[dim for dim in sweeps
+                                                  if dim in v.dims])
     block.blockname = inblock.blockname
     block.comments = inblock.comments
     yield "CITIFILE A.01.01"
-- 
2.43.0


From 8c388bb20c8a33981e96ffe9cb0760bd63d06692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:49 +0000
Subject: [PATCH 036/121] fix: save_citi writes matrix elements by position

---
 hftools/file_formats/citi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 138fc17..763c0d7 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -209,8 +209,8 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 names = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                for i in range(value.shape[-2]):
+                    for j in range(value.shape[-1]):
                         names.append("%s%s%s" % (name, i + 1, j + 1))
             else:
                 names = [name]
@@ -232,8 +232,8 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 values = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                for i in range(value.shape[-2]):
+                    for j in range(value.shape[-1]):
                         values.append(value[..., i, j])
             else:
                 values = [value]
-- 
2.43.0


From 5d5d5ad6ad45cf64b30f6be0eda788b41320dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:28 +0000
Subject: [PATCH 037/121] fix: CITI and Touchstone files are written in the
 encoding they are read with

---
 hftools/file_formats/citi.py       | 3 ++-
 hftools/file_formats/touchstone.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 763c0d7..bcc2bd1 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -16,6 +16,7 @@ CITI File Format
     .. autoexception:: CITIFileError
 """
 from __future__ import print_function
+import io
 import re
 
 import numpy as np
@@ -257,7 +258,7 @@ def is_citi(filename, rad):
 def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with io.open(filename, "w", encoding="cp1252") as fil:
         for rad in format_citi_block(db):
             fil.write(rad)
             fil.write("\n")
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 88624a4..de3415f 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -16,6 +16,7 @@ Touchstone
     .. autofunction:: save_touchstone
 
 """
+import io
 import re
 import numpy as np
 from numpy import iscomplexobj, sqrt
@@ -232,7 +233,7 @@ def format_touchstone_block(sweepvars, header, fmts,
 def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with io.open(filename, "w", encoding="cp1252") as fil:
         if db.comments:
             for comment in db.comments.fullcomments:
                 fil.write("!" + comment)
-- 
2.43.0


From 4f7efc130bed3ad4ed60a82d54c9a39700a920ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:58 +0000
Subject: [PATCH 038/121] fix: save_spdata works for blocks with axes no
 variable uses

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 0689d72..eef81d3 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From 8e89c502291ef0e047714e6f7fd0469274c9363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:58 +0000
Subject: [PATCH 039/121] fix: sp-data rows of the wrong length are refused

---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..05a1cc3 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -118,7 +118,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if not data or any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From 8b58fab4d839c9820cd50badc26142f28618406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:58 +0000
Subject: [PATCH 040/121] fix: repeated sp-data columns keep the sweep axis of
 a single row

---
 hftools/file_formats/spdata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 05a1cc3..51148d4 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -140,8 +140,7 @@ class ReadSPFileFormat(ReadFileFormat):
                     db[x] = hfarray(output[x], dims=(freq,))
                 else:
                     repdim = DimRep("rep", output[x].shape[1])
-                    db[x] = hfarray(output[x],
-                                    dims=(freq, repdim)).squeeze()
+                    db[x] = hfarray(output[x], dims=(freq, repdim))
 
             remove = []
             for vname in db.comments.property:
-- 
2.43.0


From 29a56a3e68acc25a8188d8b4f148eb1a664c93e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:58 +0000
Subject: [PATCH 041/121] fix: merge_blocks keeps the order of the variables

---
 hftools/file_formats/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..b087d47 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -171,13 +171,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
         v = []
-- 
2.43.0


From 2826101670ba93d8ecfca0379d07155588f41650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:46 +0000
Subject: [PATCH 042/121] fix: blocks are merged whatever order their partial
 dimensions have

---
 hftools/file_formats/merge.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index b087d47..ea265d4 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -155,13 +155,24 @@ def get_partials(db):
     return partials
 
 
+def partial_names(db, groups):
+    """Names of the DimPartials of *db*, in the order used in *groups*.
+    """
+    names = tuple(get_partials(db).keys())
+    for group in groups:
+        if set(group) == set(names):
+            return group
+    return names
+
+
 def merge_blocks(blocks, hyper=False, indexed=False):
     db = DataBlock()
     dimpartialgroups = OrderedDict()
 
     for b in blocks:
         parts = get_partials(b)
-        partgroup = dimpartialgroups.setdefault(tuple(parts.keys()), {})
+        names = partial_names(b, dimpartialgroups)
+        partgroup = dimpartialgroups.setdefault(names, {})
         for k, v in parts.items():
             partgroup.setdefault(k, []).extend(v)
 
@@ -185,10 +196,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
         for b in blocks:
             if vname not in b:
                 continue
-            partials = get_partials(b)
+            k = partial_names(b, dimpartialgroups)
             v.append(b[vname])
         if v:
-            k = tuple(partials.keys())
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
-- 
2.43.0


From 705d73d5c8a5ad2e847f5bbe26ebeb26bdf86979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:46 +0000
Subject: [PATCH 043/121] fix: blocks with different variables and no partial
 dimensions are merged

---
 hftools/file_formats/merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index ea265d4..8069770 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -201,6 +201,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
         if v:
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
+            elif len(v) == 1:
+                db[vname] = v[0]
+                continue
             else:
                 ri = tuple()
             try:
-- 
2.43.0


From 009112df2396c641885dc71f3ef6406d81b7347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:37 +0000
Subject: [PATCH 044/121] fix: merging blocks whose axes differ is refused

---
 hftools/file_formats/merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 8069770..579abfa 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -12,7 +12,8 @@ from collections import OrderedDict
 from numpy import array, empty
 import numpy as np
 
-from hftools.core.exceptions import HFToolsHyperCubeError
+from hftools.core.exceptions import HFToolsHyperCubeError,\
+    HFArrayShapeDimsMismatchError
 from hftools.dataset import DataDict, DimSweep, DimPartial, hfarray,\
     DataBlock, DimRep
 from hftools.file_formats.common import Comments
@@ -199,6 +200,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             k = partial_names(b, dimpartialgroups)
             v.append(b[vname])
         if v:
+            if any(x.dims != v[0].dims for x in v[1:]):
+                msg = "%r has different dimensions in different blocks"
+                raise HFArrayShapeDimsMismatchError(msg % vname)
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             elif len(v) == 1:
-- 
2.43.0


From de518708a8a719b56ea69def8cf79dfc411039db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:58 +0000
Subject: [PATCH 045/121] fix: values without axes are written to sp-data
 files, with their unit

---
 hftools/file_formats/citi.py       |  5 +++--
 hftools/file_formats/common.py     | 13 +++++++++++++
 hftools/file_formats/spdata.py     |  5 ++++-
 hftools/file_formats/touchstone.py |  5 +++--
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index bcc2bd1..852bf9d 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -24,7 +24,7 @@ from numpy import array, iscomplexobj, pi
 import hftools.dataset
 from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix
 from hftools.core.exceptions import HFToolsIOError
-from hftools.file_formats.common import Comments
+from hftools.file_formats.common import Comments, format_scalar
 
 from hftools.file_formats.readbase import ManyOptional, One, Token,\
     ReadFileFormat, Optional, OneOf
@@ -199,7 +199,8 @@ def format_citi_block(inblock):
     else:
         pass
     for name, value in scalars:
-        yield "!%s: %s" % (name, value.outputformat % value)
+        for comment in format_scalar(name, value):
+            yield "!" + comment
     yield "NAME %s" % block.blockname
 
     for name, value in block.ivardata.items():
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index eef81d3..c06c0a6 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -338,6 +338,19 @@ def format_elem(fmt, elem):
     else:
         return [fmt % elem]
 
+
+def format_scalar(name, value):
+    """Yield the comments that store a value without dimensions.
+    """
+    if np.iscomplexobj(value):
+        parts = [("Re(%s)" % name, value.real), ("Im(%s)" % name, value.imag)]
+    else:
+        parts = [(name, value)]
+    for name, part in parts:
+        yield "%s: %s" % (format_unit_header(name, value),
+                          value.outputformat % part)
+
+
 findpad_reg = re.compile("[%][-]?([0-9]+)")
 def padhead(head, width):
     return head + " " * (max(len(head), width) - len(head))
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 51148d4..b08d08a 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,7 +24,7 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem
+    make_col_from_matrix, format_complex_header, format_elem, format_scalar
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -159,6 +159,9 @@ class ReadSPFileFormat(ReadFileFormat):
 def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
+    for name, value in comments.property.items():
+        for comment in format_scalar(name, value):
+            yield ["!" + comment]
     for iname, fmt, value in sweepvars:
         yield [("!@%s=" + fmt) % (iname, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index de3415f..d31d867 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -26,7 +26,7 @@ from hftools.math import dB_angle_to_complex, mag_angle_to_complex,\
 from hftools.dataset import DataBlock, DimSweep, hfarray,\
     make_matrix, DimMatrix_i, DimMatrix_j, ismatrix
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix
+    make_col_from_matrix, format_scalar
 from hftools.file_formats.readbase import Token
 from hftools.file_formats.readbase import ReadFileFormat
 
@@ -240,7 +240,8 @@ def save_touchstone(db, filename):
                 fil.write("\n")
         for k, v in db.vardata.items():
             if v.shape == ():
-                fil.write("!%s: %s\n" % (k, v.outputformat % v))
+                for comment in format_scalar(k, v):
+                    fil.write("!%s\n" % comment)
 #            fil.write("\t".join(rad))
         fil.write("#HZ S RI R 50\n")
 
-- 
2.43.0


From 7d9d671d63c60b769d4f1ca16424d37413234b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:36 +0000
Subject: [PATCH 046/121] fix: variables found in one of several blocks have no
 index axis

---
 hftools/file_formats/merge.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 579abfa..407cf3f 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -199,15 +199,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 continue
             k = partial_names(b, dimpartialgroups)
             v.append(b[vname])
-        if v:
+        if len(v) == 1:
+            db[vname] = v[0].copy()
+        elif v:
             if any(x.dims != v[0].dims for x in v[1:]):
                 msg = "%r has different dimensions in different blocks"
                 raise HFArrayShapeDimsMismatchError(msg % vname)
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
-            elif len(v) == 1:
-                db[vname] = v[0]
-                continue
             else:
                 ri = tuple()
             try:
-- 
2.43.0


From b9ed9ebdaea2ad872047be6dbb0e3fc4c110946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:18 +0000
Subject: [PATCH 047/121] fix: complex sp-data columns keep their unit

---
 hftools/file_formats/readbase.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..68b6731 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -138,20 +138,22 @@ def make_cplx(dataset):
 
     for vname, alt in varnames.items():
         if "Re" in alt and "Im" in alt:
-            if vname in dataset:
+            newname = name_with_unit(vname, alt["Re"][1])
+            if vname in dataset or newname in dataset:
                 pass  # Already scalar data present
             else:
-                dataset[vname] = (dataset[alt["Re"][-1]] +
-                                  dataset[alt["Im"][-1]] * 1j)
+                dataset[newname] = (dataset[alt["Re"][-1]] +
+                                    dataset[alt["Im"][-1]] * 1j)
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
-            if vname in dataset:
+            newname = name_with_unit(vname, alt["Mag"][1])
+            if vname in dataset or newname in dataset:
                 pass  # Already scalar data present
             else:
-                dataset[vname] = (dataset[alt["Mag"][-1]] *
-                                  np.exp(np.pi / 180 * 1j *
-                                         dataset[alt["Arg"][-1]]))
+                dataset[newname] = (dataset[alt["Mag"][-1]] *
+                                    np.exp(np.pi / 180 * 1j *
+                                           dataset[alt["Arg"][-1]]))
                 del dataset[alt["Mag"][-1]]
                 del dataset[alt["Arg"][-1]]
 
@@ -160,6 +162,14 @@ def make_cplx(dataset):
 reg_varunit = re.compile("(.*?)[ \t]*[[]([a-zA-Z]+)[]]*$")
 
 
+def name_with_unit(varname, rest):
+    """Add the unit, if any, that follows Re(x) to the name x.
+    """
+    if reg_varunit.match(rest):
+        return varname + rest
+    return varname
+
+
 def fix_unit(db, varname):
     res = reg_varunit.match(varname)
     if res:
-- 
2.43.0


From 225a92f108a7aa0aee7871dcaa3ebd732f00d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:17 +0000
Subject: [PATCH 048/121] fix: MDIF files can be read, and truncated files are
 refused as such

---
 hftools/file_formats/mdif.py     | 10 ++++++----
 hftools/file_formats/readbase.py | 15 ++++++---------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..8932663 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -197,11 +197,12 @@ class ReadMDIFFileFormat(ReadFileFormat):
         """Bunch tagged stream into sub blocks. Each sub block
         containing a measurement data block.
         """
-        while True:
-            comments = ManyOptional("COMMENT")(stream)
+        def split_eq(rad):
+            return [x.strip() for x in rad.split("=")]
 
-            def split_eq(rad):
-                return [x.strip() for x in rad.split("=")]
+        comments = ManyOptional("COMMENT")(stream)
+        for token in stream:
+            stream.push(token)
             var = ManyOptional("VAR", split_eq)(stream)
             blockname = One("BEGIN", "Must have Begin after VARs")(stream)
             attribs = ManyOptional("ATTRIB", split_eq)(stream)
@@ -210,6 +211,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             out = (comments, var, blockname, header, attribs, data)
             One("END", "Must have END after DATA")(stream)
             yield out
+            comments = ManyOptional("COMMENT")(stream)
 
     def parse_blocks(self, stream):
         for comments, vars, blockname, header, attribs, data in stream:
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 68b6731..b614836 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -68,14 +68,11 @@ def ManyOptional(name, func=None):
 
     def ManyOptional(stream):
         tokens = []
-        current_token = next(stream)
-        while current_token.tag == name:
+        for current_token in stream:
+            if current_token.tag != name:
+                stream.push(current_token)
+                break
             tokens.append(func(current_token.rad))
-            try:
-                current_token = next(stream)
-            except StopIteration:
-                return tokens
-        stream.push(current_token)
         return tokens
     return ManyOptional
 
@@ -102,8 +99,8 @@ def OneOf(names, error, func=None):
 
     def One(stream):
         tokens = []
-        current_token = next(stream)
-        if current_token.tag in names:
+        current_token = next(stream, None)
+        if current_token is not None and current_token.tag in names:
             tokens.append(current_token.rad)
         else:
             raise Exception(error)
-- 
2.43.0


From e63ee1d0a5cd928a18453ad96c97931c22fe19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:17 +0000
Subject: [PATCH 049/121] fix: reading a block an MDIF file does not have is
 refused

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 8932663..677be58 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From 51b2e397ea0457636179ead9f491ae1c759c67ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:52 +0000
Subject: [PATCH 050/121] fix: matrices in MDIF files have their axes in the
 block

---
 hftools/file_formats/mdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 677be58..a83637d 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -286,7 +286,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             X = np.concatenate(arrays, 1)
             I, J = map(set, zip(*a))
             X.shape = X.shape[:1] + (len(I), len(J))
-            db.vardata[matrix] = make_matrix(X, dims)
+            db[matrix] = make_matrix(X, dims)
             idx = min([db.vardata.order.index("%s[%s,%s]" % (matrix, i, j))
                        for i, j in a])
             for i, j in a:
@@ -302,7 +302,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             dims = db.vardata["%s[%s]" % (matrix, i)].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
-            db.vardata[matrix] = make_vector(X, dims)
+            db[matrix] = make_vector(X, dims)
             idx = min([db.vardata.order.index("%s[%s]" % (matrix, i))
                        for i, in a])
             for i, in a:
-- 
2.43.0


From cbba28a09dcc0b3ccbeb4821d77fa3f60a90d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:26 +0000
Subject: [PATCH 051/121] fix: subsets of a block and saved MDIF files keep the
 block name

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 38ad63c..429e0c9 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -44,6 +44,7 @@ class DataBlockError(Exception):
 def subset_datablock_by_dims(db, dims):
     """Get subset of db with variables with matching dims."""
     out = DataBlock()
+    out.blockname = db.blockname
     dimset = set(dims)
     if len(dims) != len(dimset):
         msg = "dims %r did not specify unique dimensions %r" % (dims, dimset)
-- 
2.43.0


From 1e964eedabfbac0d56686bc5236c51acb913ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 052/121] fix: save_mdif writes blocks with any sweep values,
 without attributes, and with complex or text attributes

---
 hftools/file_formats/mdif.py | 73 ++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index a83637d..88a395a 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -26,9 +26,8 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob
-from hftools.file_formats.common import Comments,\
-    format_complex_header, format_elem
+from hftools.utils import glob, is_numlike
+from hftools.file_formats.common import Comments, format_elem
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -241,6 +240,11 @@ class ReadMDIFFileFormat(ReadFileFormat):
             varname = varname[len("sweep."):]
         if vartype == "real":
             value = float(value)
+        elif vartype == "complex":
+            real, imag = value.split()
+            value = float(real) + 1j * float(imag)
+        elif vartype == "string":
+            value = value.strip('"')
         else:
             raise Exception("%r not an implemented var type" % vartype)
         return varname, hfarray(value)
@@ -462,45 +466,50 @@ def fixnames(mdif):
             v = shorten_name(b.vardata, v)
 
 
+def mdif_type(value):
+    if np.iscomplexobj(value):
+        return "complex"
+    elif is_numlike(value):
+        return "real"
+    else:
+        return "string"
+
+
+def fmt_mdif_elem(fmt, elem):
+    if mdif_type(elem) == "string":
+        return ['"%s"' % (fmt % elem)]
+    else:
+        return format_elem(fmt, elem)
+
+
 def fmt_mdif_block(dims, db):
-    dimnames = [x.name for x in dims]
-    fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
-        for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
-#            import pdb;pdb.set_trace()
-            yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
+    for idx in itertools.product(*[range(len(x.data)) for x in dims[1:]]):
+        for dim, i in zip(dims[1:], idx):
+            yield [("VAR SWEEP.%s(real) = " + dim.outputformat) %
+                   (dim.name, dim.data[i])]
         blockname = db.blockname
         if blockname is None:
             blockname = "DATABLOCK"
         yield ["BEGIN %s" % blockname]
 
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
-        attribheader = format_complex_header(attribnames, attribdata,
-                                             "%s(real)", "%s(complex)",
-                                             None, unit_fmt=False)
-        for name, data in zip(attribheader, attribdata):
-            yield [("# %s = %s" % (name, data.outputformat)) % data[coord]]
-
-        header, columns = zip(*[(k, v) for (k, v) in db.vardata.items()
-
-                                if v.dims == dims])
-        header = (dims[0].name, ) + header
-
-        idx = (Ellipsis,) + coord
-        columns = [col[idx] for col in columns]
-        columns = [hfarray(dims[0])] + columns
-        outheader = format_complex_header(header, columns,
-                                          "%s(real)", "%s(complex)",
-                                          None, unit_fmt=False)
-
-        yield ["% " + " ".join(outheader)]
+        header = [dims[0].name]
+        columns = [hfarray(dims[0])]
+        for name, data in db.vardata.items():
+            if data.dims == dims:
+                header.append(name)
+                columns.append(data[(Ellipsis,) + idx])
+            elif data.dims == dims[1:]:
+                elem = fmt_mdif_elem(data.outputformat, data[idx])
+                yield ["# %s(%s) = %s" % (name, mdif_type(data),
+                                          " ".join(elem))]
+
+        yield ["% " + " ".join("%s(%s)" % (name, mdif_type(col))
+                               for name, col in zip(header, columns))]
         fmts = [x.outputformat for x in columns]
-#        import pdb;pdb.set_trace()
         for row in zip(*columns):
             out = []
             for elem, fmt in zip(row, fmts):
-                out.extend(format_elem(fmt, elem))
+                out.extend(fmt_mdif_elem(fmt, elem))
             yield out
         yield ["END"]
 
-- 
2.43.0


From 8669c63c3b2e2e48ce3e844e095135cc99aac973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 053/121] fix: MDIF blocks of which some have a comment can be
 merged

---
 hftools/file_formats/mdif.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 88a395a..596b01e 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -26,7 +26,8 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob, is_numlike
+from hftools.core.exceptions import HFArrayShapeDimsMismatchError
+from hftools.utils import glob, is_numlike, stable_uniq
 from hftools.file_formats.common import Comments, format_elem
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
@@ -336,11 +337,18 @@ def simple_merge_blocks(blocks):
     ri = DimRep("INDEX", len(blocks))
     out = DataBlock()
     #import pdb;pdb.set_trace()
-    for k in blocks[0].vardata:
-        out[k] = hfarray([b[k] for b in blocks],
-                         dims=(ri,) + blocks[0][k].dims)
-        if blocks[0][k].dims:
-            out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
+    for k in stable_uniq(k for b in blocks for k in b.vardata.keys()):
+        values = [b[k] for b in blocks if k in b.vardata]
+        dims = values[0].dims
+        if len(values) == 1:
+            out[k] = values[0].copy()
+            continue
+        if any(x.dims != dims for x in values[1:]):
+            msg = "%r has different dimensions in different blocks" % k
+            raise HFArrayShapeDimsMismatchError(msg)
+        out[k] = hfarray(values, dims=(ri,) + dims)
+        if dims:
+            out[k] = out[k].reorder_dimensions(dims[0])
     for k in blocks[0].ivardata:
         if isinstance(blocks[0].ivardata[k], DimPartial):
             out[k] = hfarray([b.ivardata[k].data[0] for b in blocks],
-- 
2.43.0


From 9a2497df91c94a4b151351d42c0c0564403a4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 054/121] fix: MDIF files are written and read with comments in
 one encoding

---
 hftools/file_formats/mdif.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 596b01e..033afd0 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -16,6 +16,7 @@ MDIF
 
 """
 from __future__ import print_function
+import io
 import re
 import itertools
 import time
@@ -131,7 +132,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             filenames = [filename]
         objs = {}
         for idx, fname in enumerate(filenames):
-            with open(fname) as fil:
+            with io.open(fname, encoding="cp1252") as fil:
                 res = obj.do_file(fil)
                 for k, v in res.items():
                     if isinstance(v, list):
@@ -531,13 +532,15 @@ def loop_db(db):
 
 
 def save_mdif(db, filename):
-    fil = open(filename, "w")
-    fil.write("!Created: %s\n" % time.asctime())
-    #for rad in db_iterator(db, format_mdif_block):
-    for rad in loop_db(convert_matrices_to_elements(db)):
-        fil.write("\t".join(rad))
-        fil.write("\n")
-    fil.close()
+    with io.open(filename, "w", encoding="cp1252") as fil:
+        fil.write(u"!Created: %s\n" % time.asctime())
+        if db.comments:
+            for comment in db.comments.fullcomments:
+                fil.write(u"!%s\n" % comment.lstrip("!"))
+        #for rad in db_iterator(db, format_mdif_block):
+        for rad in loop_db(convert_matrices_to_elements(db)):
+            fil.write(u"\t".join(rad))
+            fil.write(u"\n")
 
 
 def read_mdif(filnamn, make_complex=True, property_to_vars=True,
-- 
2.43.0


From 42aca4304c231ec823923d9b50f2de6744893ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:16 +0000
Subject: [PATCH 055/121] fix: merged MDIF blocks keep their name, and blocks
 that do not match are refused

---
 hftools/file_formats/mdif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 033afd0..c159816 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -344,8 +344,8 @@ def simple_merge_blocks(blocks):
         if len(values) == 1:
             out[k] = values[0].copy()
             continue
-        if any(x.dims != dims for x in values[1:]):
-            msg = "%r has different dimensions in different blocks" % k
+        if len(values) != len(blocks) or any(x.dims != dims for x in values):
+            msg = "%r is not the same kind of variable in all blocks" % k
             raise HFArrayShapeDimsMismatchError(msg)
         out[k] = hfarray(values, dims=(ri,) + dims)
         if dims:
@@ -360,6 +360,7 @@ def simple_merge_blocks(blocks):
             c.extend(b.comments.fullcomments)
     out.comments = Comments()
     out.comments.fullcomments = c
+    out.blockname = blocks[0].blockname
     return out
 
 
-- 
2.43.0


From 4ba2f4cd4a4c86957df74849479166431b39bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:16 +0000
Subject: [PATCH 056/121] fix: save_mdif writes values without axes next to
 swept data

---
 hftools/file_formats/mdif.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index c159816..e780eb3 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -29,7 +29,8 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
 
 from hftools.core.exceptions import HFArrayShapeDimsMismatchError
 from hftools.utils import glob, is_numlike, stable_uniq
-from hftools.file_formats.common import Comments, format_elem
+from hftools.file_formats.common import Comments, format_elem,\
+    format_scalar
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -539,7 +540,14 @@ def save_mdif(db, filename):
             for comment in db.comments.fullcomments:
                 fil.write(u"!%s\n" % comment.lstrip("!"))
         #for rad in db_iterator(db, format_mdif_block):
-        for rad in loop_db(convert_matrices_to_elements(db)):
+        elements = convert_matrices_to_elements(db)
+        if all(len(v.dims) != 1 for v in elements.vardata.values()):
+            # no block has the values without axes as attributes
+            for k, v in elements.vardata.items():
+                if not v.dims:
+                    for comment in format_scalar(k, v):
+                        fil.write(u"!%s\n" % comment)
+        for rad in loop_db(elements):
             fil.write(u"\t".join(rad))
             fil.write(u"\n")
 
-- 
2.43.0


From e2cfd8bc71b956d40bc0c9b45c2f459dc149bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:01 +0000
Subject: [PATCH 057/121] fix: MDIF files with vectors and no matrices can be
 read

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index e780eb3..4c5cf93 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -306,7 +306,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db[matrix] = make_vector(X, dims)
-- 
2.43.0


From 8003bfba4d4b8122d2c0ec24b93880d2dd426bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:27 +0000
Subject: [PATCH 058/121] fix: order file names where digits and letters meet

---
 hftools/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..267d201 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -152,11 +152,15 @@ reg_split = re.compile("[^0-9]+|[0-9]+")
 
 
 def split_num(string):
-    return [to_numeric(x, False) for x in reg_split.findall(string)], string
+    return [int(x) if x[0] in "0123456789" else x
+            for x in reg_split.findall(string)], string
 
 
 def lex_order(lista):
-    ordered = sorted(list(map(split_num, lista)))
+    def key(item):
+        parts, orig = item
+        return [(not isnumber(x), x) for x in parts], orig
+    ordered = sorted(map(split_num, lista), key=key)
     return [orig for _, orig in ordered]
 
 
-- 
2.43.0


From 4e1f9d1b7f8637b0aed834a6dcff9bc6ca3b41b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:27 +0000
Subject: [PATCH 059/121] fix: guess the format of files that are not UTF-8
 text

---
 hftools/file_formats/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..f6b63dc 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,7 +71,7 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
+    fil = io.open(fname, encoding="latin-1")
     for rad in fil:
         for fun, readfun in isfile:
             if fun(fname, rad):
-- 
2.43.0


From afa2599bbd965cc427ce2809c9f35da957429964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:54 +0000
Subject: [PATCH 060/121] fix: recognise MDIF files without VAR lines

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 4c5cf93..9909a4c 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -38,7 +38,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*(VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]|"
+                      r"BEGIN[\t ]+\S+\s*$)")
 
 
 def is_mdif(filename, rad):
-- 
2.43.0


From 68ee1162283d1dfe4cf7242bab0bacb920781e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:26 +0000
Subject: [PATCH 061/121] fix: normalize_names does not overwrite one column
 with another

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index c06c0a6..2d45da1 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -289,7 +289,7 @@ def normalize_names(data):
     """
     out = data.copy()
     for old, new in _trtable.items():
-        if old in data and new in data:
+        if old in out and new in out:
             continue
         out.rename(old, new)
     meantr = remove_enclosing_function("Mean")
-- 
2.43.0


From ad631fdb218591d241cfea12858339df5381630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:27 +0000
Subject: [PATCH 062/121] fix: matrices read from columns keep complex elements
 and units

---
 hftools/file_formats/readbase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index b614836..195f0b0 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -201,7 +201,7 @@ def combine_elements_to_matrix(data, name):
         ex = data["%s%d%d" % (name, list(i_idx)[0], list(j_idx)[0])]
         shape = ex.shape
         x = np.empty(shape + (len(i_indices), len(j_indices), ),
-                     dtype=ex.dtype)
+                     dtype=np.result_type(*[data[v].dtype for v in vnames]))
 
         for i, j in itertools.product(i_indices, j_indices):
             val = data["%s%d%d" % (name, i, j)]
@@ -389,14 +389,19 @@ class ReadFileFormat(object):
                                                   matcher))
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
+            if vname in block or any(block[elem].dims != ex.dims
+                                     for elem in elems):
+                continue
             shape = ex.shape
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=np.result_type(*[block[elem].dtype
+                                                for elem in elems]))
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
             x.shape = shape + (len(i_indices), len(j_indices),)
             block[vname] = make_matrix(x, dims=ex.dims)
+            block[vname].unit = ex.unit
 
     def _merge(self, blocks):
         if self.merge:
-- 
2.43.0


From 092824ec135b34223903846f9bcf9df8ceda6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:50 +0000
Subject: [PATCH 063/121] fix: keys of an outer scope are found in dictionaries
 inside lists

---
 hftools/file_formats/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..63fee49 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
-- 
2.43.0


From 340afd2ad2e2ea0d7e3501447af0193fa6f97de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 064/121] fix: values with units, intervals and times survive
 writing a config

---
 hftools/file_formats/config.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 63fee49..cbefa59 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -228,9 +228,11 @@ def convert_or_none(x):
 
 def sivalue_representer(dumper, data):
     if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+        return dumper.represent_scalar(u'!sivalue',
+                                       u'%r%s' % (float(data), data.unit))
     else:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
+        return dumper.represent_scalar(u'tag:yaml.org,2002:float',
+                                       u'%r' % float(data))
 
 
 
@@ -253,12 +255,13 @@ def timeintervall_representer(dumper, data):
     if seconds:
         out.append(u"%s seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
-                                   u" ".join(out))
+    return dumper.represent_scalar(u'!timeintervall',
+                                   u" ".join(out or [u"0 seconds"]))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   data.isoformat(" "))
 
 
 def path_representer(dumper, p):
-- 
2.43.0


From 187a47ec61bef5b7ebe44b658880dbadf410be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 065/121] fix: an empty config file is an empty config

---
 hftools/file_formats/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index cbefa59..60a67bf 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -175,7 +175,7 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=LexicalLoader))
+                self.update(yaml.load(stream, Loader=LexicalLoader) or {})
         except IOError:
             print("missing config file %r" % self.filename)
 
@@ -198,7 +198,7 @@ class Config(dict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=StandardLoader))
+                self.update(yaml.load(stream, Loader=StandardLoader) or {})
         except IOError:
             warnings.warn("missing config file %r" % self.filename)
 
-- 
2.43.0


From 17e37ce0050adea001ce049a6d0739f93ad11a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:34 +0000
Subject: [PATCH 066/121] fix: muwave files of other types, without conditions
 and with zero values

---
 hftools/file_formats/muwave_mat.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6ac9cd2..3724591 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -46,7 +46,7 @@ def is_muwave_matlabdata(filename, rad):
 def build_measmnt(data):
     try:
         q = data["measmnt"][0, 0]
-    except KeyError:
+    except (KeyError, ValueError):
         q = None
 
     if q is None:
@@ -55,8 +55,8 @@ def build_measmnt(data):
     props = q["props"][0, 0][0]
     values = q["values"][0, 0][0]
     for (k, v) in zip(props, values):
-        if v:
-            out[k[0]] = hfarray(make_real(v[0]))
+        if v.size:
+            out[k[0]] = hfarray(make_real(v.flat[0]))
         else:
             out[k[0]] = hfarray("")
         if out[k[0]].dtype.name.startswith("unicode"):
@@ -142,7 +142,7 @@ def build_data(data):
 def read_single_muwave_matlabdata(filename, **kw):
     data = sio.loadmat(filename)
     if "swp" not in data:
-        raise MuwaveIOError("%r is not a muwave matlab file"%filename)
+        raise HFToolsIOError("%r is not a muwave matlab file"%filename)
     swpdata = data["swp"][0, 0]["data"][0, :]
     out = []
     for d in swpdata:
@@ -164,9 +164,10 @@ def read_muwave_matlabdata(filename, drop_empty=True, **kw):
     else:
         d = read_single_muwave_matlabdata(filenames[0], drop_empty=drop_empty)
 
-    order = [d.ivardata[dim] for dim in ["freq", "Index", "Index2"] if dim in d.S.dims]
-
-    d.S = d.S.reorder_dimensions(*order)
+    for k, v in d.vardata.items():
+        order = [d.ivardata[dim] for dim in ["freq", "Index", "Index2"]
+                 if dim in v.dims]
+        d[k] = v.reorder_dimensions(*order)
     if drop_empty:
         for k in d.vardata.keys():
             if np.all("" == d[k]):
-- 
2.43.0


From ed71977d3270a487fff9182334769606d042be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:28 +0000
Subject: [PATCH 067/121] fix: merging blocks that already have an index axis
 adds another one

---
 hftools/file_formats/merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 407cf3f..d9f727b 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -177,7 +177,11 @@ def merge_blocks(blocks, hyper=False, indexed=False):
         for k, v in parts.items():
             partgroup.setdefault(k, []).extend(v)
 
-    for idx, dims in enumerate(dimpartialgroups.values(), 1):
+    idx = 0
+    for dims in dimpartialgroups.values():
+        idx += 1
+        while any("INDEX%s" % idx in b for b in blocks):
+            idx += 1
         for k, v in dims.items():
             dims = (DimSweep("INDEX%s" % idx, len(v)),)
             db[k] = hfarray([x.data[0] for x in v],
-- 
2.43.0


From 721359f83a06f5bcf06c53ffef7c4966e539cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:28 +0000
Subject: [PATCH 068/121] fix: lists of muwave files can be read

---
 hftools/file_formats/muwave_mat.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 3724591..a5a3d66 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -153,7 +153,11 @@ def read_single_muwave_matlabdata(filename, **kw):
 
 
 def read_muwave_matlabdata(filename, drop_empty=True, **kw):
-    filenames = hftools.utils.glob(filename)
+    if not isinstance(filename, (list, tuple)):
+        filename = [filename]
+    filenames = []
+    for f in filename:
+        filenames.extend(hftools.utils.glob(f))
     out = []
     if len(filenames) > 1:
         for idx, fname in enumerate(filenames):
-- 
2.43.0


From ac86f3a36d921fa9c8ce18a0739cf8d05be32a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:59 +0000
Subject: [PATCH 069/121] fix: cascading and de-embedding real with complex
 S-parameters

---
 hftools/networks/spar_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index c62e4dc..fdf4352 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -23,7 +23,8 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    dtype = np.result_type(S1.dtype, S2.dtype)
+    res = S1.__class__(np.zeros(maxshape, dtype), dims=S1.dims)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
@@ -49,7 +50,8 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X.dtype, e.dtype)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -80,7 +82,8 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    dtype = np.result_type(X.dtype, e.dtype)
+    res = X.__class__(np.zeros(maxshape, dtype), dims=X.dims)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From eda8357e0f20bd441dda5f3b8b2fc7922e14badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:59 +0000
Subject: [PATCH 070/121] fix: cascadeS of more than two networks

---
 hftools/networks/spar_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index fdf4352..6ac990f 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -31,6 +31,8 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    if rest:
+        return cascadeS(res, *rest)
     return res
 
 
-- 
2.43.0


From 7670480e2f58b30a62fc08583f6bd7ea64120f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:59 +0000
Subject: [PATCH 071/121] fix: make_matrix of real and complex elements

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index a4d775e..df92769 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,7 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    res = zeros(maxshape, np.result_type(a, b, c, d))
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From f48234e5a5476baad7c261f2222f6376fc50b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:59 +0000
Subject: [PATCH 072/121] fix: from_noisepar with real S-parameters

---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index fa64c22..4b567de 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -49,7 +49,7 @@ def from_noisepar(dataset):
     dataset.S = SArray(dataset.S)
     dataset.ABCD = ABCDArray(dataset.S)
     dataset.Yopt = 1 / 50. * (1 - dataset.Gopt) / (1 + dataset.Gopt)
-    dataset.CAm = np.zeros_like(dataset.S)
+    dataset.CAm = np.zeros_like(dataset.S, dtype=np.complex128)
     dataset.CAm11 = dataset.Rn
     dataset.CAm21 = 0.5 * (dataset.Fmin - 1) - dataset.Rn * dataset.Yopt
     dataset.CAm12 = dataset.CAm21.conj()
-- 
2.43.0


From eedc89ce6cfde418926e2012dc9cf95223167c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:47 +0000
Subject: [PATCH 073/121] fix: smoothing integers and along other axes than the
 first

---
 hftools/math.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index df92769..69361a8 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -204,7 +204,9 @@ def smooth(data, aperture, axis=0):
             axel som skall smoothas langs default = 1
     """
     data = np.asanyarray(data)
-    newdata = np.empty_like(data)
+    newdata = np.empty_like(data, dtype=np.result_type(data, np.float64))
+    inner = np.asarray(data).swapaxes(0, axis)
+    outer = np.asarray(newdata).swapaxes(0, axis)
     len = data.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
@@ -213,9 +215,9 @@ def smooth(data, aperture, axis=0):
     for i in range(data.shape[axis]):
         wid = min(i, aperture // 2, abs(len - i))
         if wid != 0:
-            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
+            outer[i] = np.mean(inner[i - wid: i + wid + odd], 0)
         else:
-            newdata[i] = data[i]
+            outer[i] = inner[i]
     return newdata
 
 
-- 
2.43.0


From db332cb29c7c4a68fd4c7b3a0508830dab397c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:58 +0000
Subject: [PATCH 074/121] fix: files can be read without merging their blocks

---
 hftools/file_formats/readbase.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 195f0b0..eefdd6e 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -297,12 +297,15 @@ class ReadFileFormat(object):
                 print("\r%-80s\r" % fname.basename(), end="")
             with io.open(fname, encoding=encoding) as fil:
                 res = obj.do_file(fil)
+                if not isinstance(res, list):
+                    res = [res]
                 if multiple_files:
                     #res["FILEINDEX"] = DimPartial("FILEINDEX", [idx])
                     fname = py3.cast_unicode(fname)
-                    if "FILENAME" not in res:
-                        res["FILENAME"] = hfarray(fname)
-                objs.append(res)
+                    for block in res:
+                        if "FILENAME" not in block:
+                            block["FILENAME"] = hfarray(fname)
+                objs.extend(res)
         if multiple_files:
             res = obj._merge(objs)
         else:
@@ -332,6 +335,11 @@ class ReadFileFormat(object):
             if "FILEINDEX" not in blocks:
                 blocks["FILEINDEX"] = DimPartial("FILEINDEX",
                                                  [self.file_index])
+        elif isinstance(blocks, list):
+            for b in blocks:
+                if "FILEINDEX" not in b:
+                    b["FILEINDEX"] = DimPartial("FILEINDEX",
+                                                [self.file_index])
         else:
             for b in blocks.values():
                 if isinstance(b, (list, tuple)):
-- 
2.43.0


From d68d38c9efbb35617c951a1ebd82daba022ded1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:58 +0000
Subject: [PATCH 075/121] fix: lists of MDIF files can be read

---
 hftools/file_formats/mdif.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 9909a4c..14b25c2 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -129,7 +129,12 @@ class ReadMDIFFileFormat(ReadFileFormat):
         obj.filename = filename
 
         if multiple_files:
-            filenames = glob(filename)
+            if isinstance(filename, (list, tuple)):
+                filenames = []
+                for f in filename:
+                    filenames.extend(glob(f))
+            else:
+                filenames = glob(filename)
         else:
             filenames = [filename]
         objs = {}
-- 
2.43.0


From 5ee4b2422ab34d193abb03d864a3f87a8d207c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:10 +0000
Subject: [PATCH 076/121] fix: merging MDIF blocks keeps the units

---
 hftools/file_formats/mdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 14b25c2..c1f9b0a 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -354,13 +354,13 @@ def simple_merge_blocks(blocks):
         if len(values) != len(blocks) or any(x.dims != dims for x in values):
             msg = "%r is not the same kind of variable in all blocks" % k
             raise HFArrayShapeDimsMismatchError(msg)
-        out[k] = hfarray(values, dims=(ri,) + dims)
+        out[k] = hfarray(values, dims=(ri,) + dims, unit=values[0].unit)
         if dims:
             out[k] = out[k].reorder_dimensions(dims[0])
     for k in blocks[0].ivardata:
         if isinstance(blocks[0].ivardata[k], DimPartial):
             out[k] = hfarray([b.ivardata[k].data[0] for b in blocks],
-                             dims=(ri,))
+                             dims=(ri,), unit=blocks[0].ivardata[k].unit)
     c = []
     for b in blocks:
         if b.comments is not None:
-- 
2.43.0


From dee3729ceafd72d557bdd93fb88be349f5a9f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:26 +0000
Subject: [PATCH 077/121] fix: appending data with other dimensions or types to
 an hdf5 file is refused

---
 hftools/file_formats/hdf5/v_02.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index e1fdb5c..338ac64 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -187,6 +187,22 @@ def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
     return d
 
 
+def check_append(diskdata, data, expanddim):
+    """Make sure *data* has the dimensions and type of *diskdata*.
+    """
+    dims = [getdim(x[0]) for x in diskdata.dims if len(x)]
+    dims = [dim for dim in dims if dim.name != expanddim.name]
+    if ([dim.name for dim in dims] != [dim.name for dim in data.dims] or
+            not all(np.array_equal(x.data, y.data)
+                    for x, y in zip(dims, data.dims))):
+        msg = "Dimensions %r differ from %r on file, can not append"
+        raise ValueError(msg % (data.dims, dims))
+    dtype = cast_arrays_to_hdf5(data).dtype
+    if not np.can_cast(dtype, diskdata.dtype, "same_kind"):
+        msg = "Data of type %s can not be appended to data of type %s"
+        raise ValueError(msg % (dtype, diskdata.dtype))
+
+
 def append_hdf5(db, filehandle, expanddim=None, **kw):
     key = "hftools file version"
     if key not in filehandle.attrs or filehandle.attrs[key] != "0.2":
@@ -198,6 +214,8 @@ def append_hdf5(db, filehandle, expanddim=None, **kw):
         if (uk not in db.ivardata and uk not in db.vardata and
                 uk != expanddim.name):
             raise ValueError("Variable %r missing in db, can not append" % uk)
+        if uk not in db.ivardata and uk != expanddim.name:
+            check_append(filehandle[k], db[uk], expanddim)
     idx = filehandle[expanddim.name][-1] + 1
     expand_dataset(filehandle[expanddim.name], 1, 0)
     filehandle[expanddim.name][-1] = idx
-- 
2.43.0


From d56dbf78aa67e14a9c5238e11d46a87003f2533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:19 +0000
Subject: [PATCH 078/121] fix: results of network arithmetic keep their element
 names

(S / 2).S21 raised AttributeError, as the element accessors were only set
by the constructor.
---
 hftools/networks/multiports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index bafa731..a4501a9 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -154,6 +154,8 @@ class _MultiPortArray(_hfarray):
     def __array_finalize__(self, obj):
         _hfarray.__array_finalize__(self, obj)
         self.Z0 = getattr(obj, "Z0", 50.)
+        if isinstance(obj, self.__class__):
+            self._attrfuns = obj._attrfuns
 
     def view(self, dtype=None, type=None):
         if type is None:
-- 
2.43.0


From daabaef020bad2671174008af10b34503fef67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:19 +0000
Subject: [PATCH 079/121] fix: passivity enforcement handles any outer
 dimensions

make_passive_svd, make_passive_eig and check_passive looped over the first
axis only, so arrays with repetitions gave wrong results and single
matrices raised; the reference impedance was lost.
---
 hftools/networks/spar_functions.py | 35 ++++++++----------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 6ac990f..859d799 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -121,17 +121,10 @@ def make_passive_svd(S, delta=1e-6):
     Reciprocity, Passivity and Causality in S-parameters"
     """
 
-    svd = np.linalg.svd
-    out = []
-    for ss in S:
-        ss = np.array(ss, copy=False)
-        u, s, v = svd(ss)
-        s = abs(s) - 1
-        s[s < 0] = 0
-        s = np.diag(s)
-        delta = np.dot(np.dot(u, s), v)
-        out.append(ss - delta)
-    return S.__class__(out, dims=S.dims)
+    u, s, v = np.linalg.svd(np.array(S))
+    s = abs(s) - 1
+    s[s < 0] = 0
+    return S - hfarray(np.matmul(u * s[..., np.newaxis, :], v), dims=S.dims)
 
 
 def make_passive_eig(S, delta=1e-6):
@@ -140,15 +133,9 @@ def make_passive_eig(S, delta=1e-6):
     The S-parameters of S are scaled such that the highest eigenvalue of S'
     becomes |lambda|max < 1 - delta.
     """
-    eig = np.linalg.eigvals
-    out = []
-    for s in S:
-        lambda_max = max(abs(eig(s)))
-        if lambda_max > 1:
-            out.append(s / lambda_max * (1 - delta))
-        else:
-            out.append(s)
-    return S.__class__(out, dims=S.dims)
+    lambda_max = check_passive(S)
+    scale = np.where(lambda_max > 1, (1 - delta) / np.maximum(lambda_max, 1), 1)
+    return S * hfarray(scale, dims=lambda_max.dims)
 
 
 def make_reciprocal(S):
@@ -162,10 +149,6 @@ def make_reciprocal(S):
 
 
 def check_passive(S):
-    eig = np.linalg.eigvals
-    out = []
-    for s in S:
-        lambda_max = max(abs(eig(s)))
-        out.append(lambda_max)
-    return hfarray(out, dims=S.dims[:1])
+    lambda_max = abs(np.linalg.eigvals(np.array(S))).max(axis=-1)
+    return hfarray(lambda_max, dims=S.dims[:-2])
 
-- 
2.43.0


From b54de092fe16bcef987f75d430ceb0a0827e96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:20 +0000
Subject: [PATCH 080/121] fix: make_reciprocal does not modify its argument

---
 hftools/networks/spar_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 859d799..8437854 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -139,6 +139,7 @@ def make_passive_eig(S, delta=1e-6):
 
 
 def make_reciprocal(S):
+    S = S.copy()
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-- 
2.43.0


From a56c0bc94cc28fe7001659d493e632e31da2d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:08 +0000
Subject: [PATCH 081/121] fix: inverse and determinant use the matrix axes
 wherever they are

---
 hftools/math.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index 69361a8..ee455bf 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -14,7 +14,7 @@ from numpy.lib.stride_tricks import broadcast_arrays, as_strided
 
 from hftools.dataset import make_same_dims_list, hfarray,\
     DimMatrix_i, DimMatrix_j
-from hftools.dataset.arrayobj import _hfarray, make_same_dims
+from hftools.dataset.arrayobj import _hfarray, make_same_dims, change_shape
 
 
 def angle(z, deg=False, branch=None):
@@ -373,8 +373,14 @@ class broadcast_matrices(object):
             yield [x.__getitem__(index) for x in broadcasted]
 
 
+def matrix_axes_last(A):
+    return change_shape(A, sorted(A.dims, key=lambda x: (
+        isinstance(x, DimMatrix_i) + 2 * isinstance(x, DimMatrix_j))))
+
+
 def inv(A):
     inv = linalg.inv
+    A = matrix_axes_last(A)
     result = inv(A)
     result = hfarray(result, dims=A.dims)
     return result
@@ -412,6 +418,7 @@ def flatten_non_matrix(A):
 
 def det(A):
     det = linalg.det
+    A = matrix_axes_last(A)
     result = det(A)
     result = hfarray(result, dims=A.dims[:-2])
     return result
-- 
2.43.0


From 95dc907921a2134b21627661f52a5f8878b8760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:24 +0000
Subject: [PATCH 082/121] fix: conversions keep the order of the outer
 dimensions

---
 hftools/networks/multiports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index a4501a9..4ba36e1 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -40,7 +40,7 @@ from hftools.math import matrix_multiply, inv
 from hftools.networks.spar_functions import cascadeS, deembed, deembedright,\
     deembedleft
 from hftools.dataset.arrayobj import hfarray, DimSweep,\
-    DimMatrix_i, DimMatrix_j, _hfarray, ismatrix
+    DimMatrix_i, DimMatrix_j, _hfarray, ismatrix, change_shape
 from hftools.utils import warn
 
 
@@ -109,6 +109,7 @@ class _MultiPortArray(_hfarray):
             if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
+                res = change_shape(res, self.dims)
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
-- 
2.43.0


From f93d19ce9d1eb735aff5f8ef4982c0bf80158ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:57 +0000
Subject: [PATCH 083/121] fix: assigning a matrix element aligns dimensions

---
 hftools/dataset/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 429e0c9..b6438fd 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -24,7 +24,7 @@ import numpy as np
 import numpy.random as rnd
 from numpy import zeros, array, linspace
 
-from hftools.dataset.arrayobj import hfarray, ismatrix,\
+from hftools.dataset.arrayobj import hfarray, ismatrix, change_shape,\
     remove_rep, _hfarray
 from hftools.dataset.dim import DimBase, DimSweep, DimRep,\
     DimMatrix_i, DimMatrix_j, DiagAxis
@@ -351,7 +351,11 @@ class DataBlock(object):
             mname, elem = is_matrix_name(key)
             if mname in self.vardata and not ismatrix(value):
                 idx = (Ellipsis,) + elem
-                self.vardata[mname][idx] = value
+                matrix = self.vardata[mname]
+                outer = matrix[idx].dims
+                if all(dim in outer for dim in value.dims):
+                    value = change_shape(value, outer)
+                matrix[idx] = value
             else:
                 if (key in self.ivardata):
                     olddim = self.ivardata[key]
-- 
2.43.0


From e866302668f3ffc37f61460cb1f1f7796d34eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:26 +0000
Subject: [PATCH 084/121] fix: only elements of matrices are assigned by
 element names

---
 hftools/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index b6438fd..6babb81 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -349,7 +349,8 @@ class DataBlock(object):
             else:
                 self._xname = None
             mname, elem = is_matrix_name(key)
-            if mname in self.vardata and not ismatrix(value):
+            if (mname in self.vardata and ismatrix(self.vardata[mname]) and
+                    not ismatrix(value)):
                 idx = (Ellipsis,) + elem
                 matrix = self.vardata[mname]
                 outer = matrix[idx].dims
-- 
2.43.0


From 0eda60f75a088bd4c7aa51f8bb89a76263fb9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:55 +0000
Subject: [PATCH 085/121] fix: assigning an element of a network array aligns
 dimensions

---
 hftools/networks/multiports.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 4ba36e1..d732989 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -212,7 +212,11 @@ class _MultiPortArray(_hfarray):
             return
         except AttributeError:
             pass
-        self.__getattr__(key)[...] = value
+        element = self.__getattr__(key)
+        if (isinstance(value, _hfarray) and
+                all(dim in element.dims for dim in value.dims)):
+            value = change_shape(value, element.dims)
+        element[...] = value
 
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
-- 
2.43.0


From 88f45fbe2fa4fd6fe8421eed5efcdfa2202e03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:01 +0000
Subject: [PATCH 086/121] fix: make_reciprocal keeps the order of the
 dimensions

---
 hftools/networks/spar_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 8437854..1c36258 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -140,8 +140,8 @@ def make_passive_eig(S, delta=1e-6):
 
 def make_reciprocal(S):
     S = S.copy()
-    s12 = S[..., 0, 1]
-    s21 = S[..., 1, 0]
+    s12 = np.asarray(S[..., 0, 1])
+    s21 = np.asarray(S[..., 1, 0])
     S12 = np.sqrt(s12 * s21)
     A12 = np.where(abs(np.angle(S12 / s12)) <= np.pi / 2, S12, -S12)
     S[..., 0, 1] = A12
-- 
2.43.0


From efbe271a7cc354d09df9357e334269822db14136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:58 +0000
Subject: [PATCH 087/121] fix: labels follow an index array

---
 hftools/dataset/arrayobj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 1286519..a09497b 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -663,8 +663,12 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
+            elif dim.name in dim_in_indices:
+                dims.append(dim_in_indices[dim.name])
+            elif np.ndim(idx) == 1:
+                dims.append(dim[np.asarray(idx)])
             else:
-                dims.append(dim_in_indices.get(dim.name, dim))
+                dims.append(dim)
         if ellipsis_and_ints:
             indices = orig_indices
         out = ndarray.__getitem__(self, indices)
-- 
2.43.0


From 4ced22c48861c694bc597c8441af81236d3b5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:58 +0000
Subject: [PATCH 088/121] fix: unwrapping the phase keeps the order of the
 dimensions

---
 hftools/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index ee455bf..101eb47 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -138,8 +138,9 @@ def _unwrap_phase(data, deg=False):
     add_pos = abs(a - a0 + 2 * pi) < 2
     add_neg = abs(a - a0 - 2 * pi) < 2
     result[0] = a
-    result[1:] = (np.add.accumulate(angle(data[1:] / data[:-1]), 0) +
-                  angle(data[0]))
+    values = np.asarray(data)
+    result[1:] = (np.add.accumulate(angle(values[1:] / values[:-1]), 0) +
+                  angle(values[0]))
     result1 = np.where(array(add_pos), array(result + 2 * pi), array(result))
     result2 = np.where(array(add_neg), array(result1 - 2 * pi), array(result1))
     if deg:
-- 
2.43.0


From 1fc83136a14ddee88ecaae508ee3e776f171b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 089/121] fix: texts with spaces in MDIF columns are one field

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index c1f9b0a..2a541f2 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -47,6 +47,7 @@ def is_mdif(filename, rad):
 
 
 reg = re.compile("(.+)[(](integer|real|string|complex)[)]")
+reg_field = re.compile(r'"[^"]*"|\S+')
 
 
 class GetData(object):
@@ -65,7 +66,7 @@ class GetData(object):
         vardata = DataDict()
         while True:
             for lineparser in self.parse_stream:
-                linedata = datastream.pop(0).split()
+                linedata = reg_field.findall(datastream.pop(0))
                 for func, varname in lineparser:
                     vardata.setdefault(varname, []).append(func(linedata))
             if not datastream:
-- 
2.43.0


From dc3db3431626acb4a52a1aef72de073ad1eab30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 090/121] fix: MDIF attributes may hold equal signs

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 2a541f2..0b18299 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -207,7 +207,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
         containing a measurement data block.
         """
         def split_eq(rad):
-            return [x.strip() for x in rad.split("=")]
+            return [x.strip() for x in rad.split("=", 1)]
 
         comments = ManyOptional("COMMENT")(stream)
         for token in stream:
-- 
2.43.0


From a4f38a63a5adb4e481a305ad5be22c72ca13184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:04 +0000
Subject: [PATCH 091/121] fix: MDIF rows with more fields than headings are
 refused

---
 hftools/file_formats/mdif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 0b18299..221751e 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -69,6 +69,8 @@ class GetData(object):
                 linedata = reg_field.findall(datastream.pop(0))
                 for func, varname in lineparser:
                     vardata.setdefault(varname, []).append(func(linedata))
+                if linedata:
+                    raise MDIFError("More data than headings: %r" % linedata)
             if not datastream:
                 break
         return vardata
-- 
2.43.0


From 4f645f96890336af2f86cdb918ef8e5615133ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:42 +0000
Subject: [PATCH 092/121] fix: output formats of axes are read from HDF5 files

---
 hftools/file_formats/hdf5/v_02.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 338ac64..793295c 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -45,7 +45,8 @@ def getdim(scale):
     dimcls = dimrep[cast_unicode(scale.attrs.get("dimtype", "DimSweep"))]
     return dimcls(unescape_varname(scale.name.strip("/")),
                   scale[...].astype(scale.attrs.get("dtype", scale.dtype)),
-                  unit=scale.attrs.get("unit", None))
+                  unit=scale.attrs.get("unit", None),
+                  outputformat=scale.attrs.get("outputformat", None))
 
 
 def getvar(db, key):
-- 
2.43.0


From 346353e0ea6dad85c563fde24f4d79915859f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:24 +0000
Subject: [PATCH 093/121] fix: hyper keeps the comments of a data block

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 6babb81..29326a5 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -693,6 +693,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
-- 
2.43.0


From 57b9a097ece913ea762ea8dd8e3390749ce7d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:57 +0000
Subject: [PATCH 094/121] fix: draw the grid of a Smith chart with the
 matplotlib in use

---
 hftools/plotting/smith.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..1c47b86 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -90,11 +90,9 @@ class MyCircle(object):
         else:
             pars = ((self.x, self.y),
                     self.flipx * 2 * self.r,
-                    self.flipy * 2 * self.r,
-                    0,
-                    self.t1,
-                    self.t2)
-            return Arc(*(pars + k), **kw)
+                    self.flipy * 2 * self.r)
+            return Arc(*(pars + k), angle=0, theta1=self.t1, theta2=self.t2,
+                       **kw)
 
 
 class MyLine(object):
@@ -252,7 +250,8 @@ def polar_grid(ax=None, mode="full", **kw):
     angles = dict(full=(0, 360), lower=(180, 360.00001), upper=(0, 180.000001))
     t1, t2 = angles[mode]
     for r in np.arange(0, 1.001, 0.2):
-        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, 0, t1, t2, color="k"))
+        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, angle=0, theta1=t1,
+                         theta2=t2, color="k"))
 
     for fi in np.arange(t1 / 180 * np.pi, t2 / 180 * np.pi, np.pi / 4):
         z = np.exp(1j * fi)
@@ -286,7 +285,8 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         XC = BCircle
     t1, t2 = angles[mode]
     x1, x2 = xlims[mode]
-    ax.add_patch(Arc((0, 0), 2, 2, 0, t1, t2, fc="w", ec="k"))
+    ax.add_patch(Arc((0, 0), 2, 2, angle=0, theta1=t1, theta2=t2,
+                     fc="w", ec="k"))
 
     for r in [0, 1. / 3, 1, 3]:
         c = RC(r, x1, x2)
-- 
2.43.0


From c6e523de3f4168792983503e8fa6ea40beb45442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:57 +0000
Subject: [PATCH 095/121] fix: the part of the real axis between two
 conductances was mirrored

---
 hftools/plotting/smith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 1c47b86..9fbab22 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -212,8 +212,8 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
     if b >= 0:
         branch = 90
-- 
2.43.0


From e7be234ff9676caa12b491320707ff6607f48440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:58 +0000
Subject: [PATCH 096/121] fix: reading MDIF files that do not exist raises an
 error

A missing file or a pattern that matches nothing silently gave an empty
result; the other readers raise IOError.
---
 hftools/file_formats/mdif.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 221751e..6fa5490 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -140,6 +140,8 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 filenames = glob(filename)
         else:
             filenames = [filename]
+        if not filenames:
+            raise IOError("Pattern %r did not match any files" % (filename,))
         objs = {}
         for idx, fname in enumerate(filenames):
             with io.open(fname, encoding="cp1252") as fil:
-- 
2.43.0


From 5ed5944a318237dbeed7befa21114e6fbfbe5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:48 +0000
Subject: [PATCH 097/121] fix: save_spdata keeps the units of the outer axes

The unit of an axis other than the first was dropped, although the reader
understands units of @parameters.
---
 hftools/file_formats/common.py | 2 +-
 hftools/file_formats/spdata.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 2d45da1..abed875 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -420,7 +420,7 @@ def make_block_iterator(data, first=False):
         sweepvars = []
         for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):
             fmt = getattr(dim, "outputformat", "%.16e")
-            sweepvars.append((iname, fmt, dim[i]))
+            sweepvars.append((iname, fmt, hfarray(dim[i], unit=dim.unit)))
         if dimsnames:
             header = [dimsnames[0]] + data.vardata.keys()
             columns = dimsdata[:1] + [col[(slice(None), ) + idx]
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index b08d08a..93aa4fd 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,7 +24,8 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem, format_scalar
+    make_col_from_matrix, format_complex_header, format_elem, format_scalar,\
+    format_unit_header
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -163,7 +164,8 @@ def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
         for comment in format_scalar(name, value):
             yield ["!" + comment]
     for iname, fmt, value in sweepvars:
-        yield [("!@%s=" + fmt) % (iname, value)]
+        name = format_unit_header("@%s" % iname, value)
+        yield [("!%s=" + fmt) % (name, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
     outheader = format_complex_header(header, columns,
                                       "%s", "Re(%s)", "Im(%s)",
-- 
2.43.0


From 0d3809fffa37acd9330f91580b3fdce7041086ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:25 +0000
Subject: [PATCH 098/121] fix: complex values without axes are read back from
 sp-data files

save_spdata writes them as comments Re(x) and Im(x); the comments were turned
into variables after the complex numbers had been put together.
---
 hftools/file_formats/readbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index eefdd6e..f6c1ffd 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -323,8 +323,8 @@ class ReadFileFormat(object):
                    " or of the wrong kind. (Tried to parse %s)"
             msg = args % (self.__class__.__name__)
             raise ParseError(msg)
-        blocks = self._make_complex(blocks)
         blocks = self._properties_to_vars(blocks)
+        blocks = self._make_complex(blocks)
         blocks = self._guess_unit(blocks)
         blocks = self._normalize(blocks)
         blocks = self._combine_matrices(blocks)
-- 
2.43.0


From 924de5d08a1b78ff368be816e56c24362ff0fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:27 +0000
Subject: [PATCH 099/121] fix: limits of conductance and susceptance arcs in
 any order

RCircle and XCircle order their limits; GCircle and BCircle drew the rest of
the circle when the larger limit came first.
---
 hftools/plotting/smith.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 9fbab22..fe613eb 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -197,6 +197,7 @@ def GCircle(g, b1=None, b2=None):
     if b1 is None or b2 is None:
         pass
     else:
+        b1, b2 = sorted((b1, b2))
         y1 = complex(g, b2)
         y2 = complex(g, b1)
         c1 = y2gamma(y1)
@@ -215,6 +216,8 @@ def BCircle(b, g1=None, g2=None):
             x1 = (y2gamma(g1) + 0j).real
             x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
+    if g1 is not None and g2 is not None:
+        g1, g2 = sorted((g1, g2))
     if b >= 0:
         branch = 90
         g1, g2 = (g2, g1)
-- 
2.43.0


From bd6ece31abae2d66a2334b5a7733564cba12ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:30 +0000
Subject: [PATCH 100/121] fix: two-port representations reject matrices that
 are not 2x2

---
 hftools/networks/multiports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index d732989..219e673 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -234,7 +234,7 @@ class _TwoPortArray(_MultiPortArray):
 
     def __init__(self, data, dims=None, copy=True, Z0=None, info=None, unit=None):
         data = np.asanyarray(data)
-        if data.shape[-1] != 2:
+        if data.shape[-1] != 2 or (self.ismatrix() and self.shape[-2] != 2):
             raise ValueError("%s must be a 2x2 matrix")
         _MultiPortArray.__init__(self, data, dims, copy=copy, Z0=Z0, unit=unit)
 
-- 
2.43.0


From 072fd68324ef269acdfd9d70b0001ffe044b822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:16 +0000
Subject: [PATCH 101/121] fix: filtering and sorting a data block keep the axes
 no variable uses

---
 hftools/dataset/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 29326a5..09c8cb9 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -478,6 +478,9 @@ class DataBlock(object):
             dimorder = [x.name for x in self.vardata[v].dims]
             utdata = utdata.reorder_dimensions(*dimorder)
             out[v] = utdata
+        for k, v in self.ivardata.items():  # dimensions without variables
+            if k not in out.ivardata:
+                out.ivardata[k] = newdim if k == newdim.name else v
         out.xname = self.xname
         return out
 
@@ -515,6 +518,9 @@ class DataBlock(object):
                 out[v] = data
                 continue
 
+        for k, v in self.ivardata.items():  # dimensions without variables
+            if k not in out.ivardata:
+                out.ivardata[k] = v
         olddim = self.ivardata[dimname]
         out.xname = self.xname
         data = self[dimname][sortorder]
-- 
2.43.0


From 8b3ea5bdb8e7e0092d01e72c8bf7bbe407780469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:55 +0000
Subject: [PATCH 102/121] fix: take keeps the labels and unit of the axis it
 gathers along

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index a09497b..e8c5289 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -564,7 +564,8 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
+        newdim = olddim.__class__(olddim, data=np.take(olddim.data, indices,
+                                                       mode=mode))
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
         newdims[axis] = newdim
-- 
2.43.0


From e31e15291b7206fb550329fe67d1fa230f7dd59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:25 +0000
Subject: [PATCH 103/121] fix: a dimension without labels has an output format

---
 hftools/dataset/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index 3631b63..875fd69 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,9 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if len(self._data) == 0:
+                return "%.16e"
+            elif is_integer(self._data[0]):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From 19368f85b38a14dc52edb3eb7845948bf07ef353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:03 +0000
Subject: [PATCH 104/121] fix: collapsing repetitions keeps units and output
 formats

---
 hftools/dataset/arrayobj.py | 12 +++++-------
 hftools/dataset/dataset.py  |  3 ++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index e8c5289..558b693 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -280,15 +280,13 @@ def remove_rep(data, newdimname="AllReps"):
         shapes = [data.shape[i] for i, _ in order]
         repsize = int(np.multiply.reduce(shapes))
         first = order[0][0]
-        a = np.array(newdata, order="C")
+        a = np.array(newdata, order="C", subok=True)
         a.shape = (newdata.shape[:first] + (repsize,) +
                    newdata.shape[first + len(order):])
-        dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
-                newdata.dims[first + len(order):])
-    else:
-        dims = data.dims
-        a = data
-    return data.__class__(a, dims=dims, copy=False)
+        a.dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
+                  newdata.dims[first + len(order):])
+        return a
+    return data.__class__(data, dims=data.dims, copy=False)
 
 
 def make_fullcomplex_array(a):
diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 09c8cb9..622f3f6 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -689,7 +689,8 @@ class DataBlock(object):
             a[...] = dim.data[sliceidx]
             a = np.array(a, copy=False)
             a.shape = (newdim.data.shape[0],)
-            out[dim.name] = hfarray(a, dims=(newdim,))
+            out[dim.name] = hfarray(a, dims=(newdim,), unit=dim.unit,
+                                    outputformat=dim.outputformat)
         for x in self.vardata:
             out[x] = remove_rep(self[x], newdimname)
         return out
-- 
2.43.0


From 7b731826bb6e19729400917caa1d6e1186b3dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:47 +0000
Subject: [PATCH 105/121] fix: products and solutions of matrices that are not
 square label their axes

---
 hftools/math.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 101eb47..15a0bea 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -379,6 +379,14 @@ def matrix_axes_last(A):
         isinstance(x, DimMatrix_i) + 2 * isinstance(x, DimMatrix_j))))
 
 
+def matrix_dims(dims, shape):
+    """Return *dims* with matrix dimensions labelled to fit *shape*.
+    """
+    return dims[:-2] + tuple(dim if len(dim.data) == N else
+                             dim.__class__(dim, data=range(N))
+                             for dim, N in zip(dims[-2:], shape[-2:]))
+
+
 def inv(A):
     inv = linalg.inv
     A = matrix_axes_last(A)
@@ -407,7 +415,7 @@ def matrix_multiply(a, b):
     """
     A, B = make_same_dims(a, b)
     res = np.einsum("...ij,...jk->...ik", A, B)
-    return hfarray(res, dims=A.dims)
+    return hfarray(res, dims=matrix_dims(A.dims, res.shape))
 
 
 def flatten_non_matrix(A):
@@ -428,7 +436,7 @@ def det(A):
 def solve_Ab(A, b, squeeze=True):
     AA, bb = make_same_dims(A, b)
     x = np.linalg.solve(AA, bb)
-    result = hfarray(x, dims=bb.dims)
+    result = hfarray(x, dims=matrix_dims(bb.dims, x.shape))
     if squeeze:
         result = result.squeeze()
     return result
@@ -440,7 +448,7 @@ def lstsq(A, b, squeeze=True):
     x, residuals, rank, s = lstsq(firstelement(res._broadcasted[0]), firstelement(res._broadcasted[1]))
     xdims = res._broadcasted[0].dims
     xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
-    xresult = hfarray(xempty, dims=xdims)
+    xresult = hfarray(xempty, dims=matrix_dims(xdims, xempty.shape))
 
     for index, (a, b) in zip(np.ndindex(*res.outershape), res):
         xresult[index], _, _, _ = lstsq(a, b)
-- 
2.43.0


From 5ffcf03ba310e61137cd18527b80386b34031c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 106/121] fix: units with a slash are read from the column
 heading

---
 hftools/file_formats/readbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index f6c1ffd..e71a652 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -156,7 +156,7 @@ def make_cplx(dataset):
 
     return dataset
 
-reg_varunit = re.compile("(.*?)[ \t]*[[]([a-zA-Z]+)[]]*$")
+reg_varunit = re.compile("(.*?)[ \t]*[[]([a-zA-Z/]+)[]]*$")
 
 
 def name_with_unit(varname, rest):
-- 
2.43.0


From 7b660b58f8241fb5611a33d92f899522a25a2a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 107/121] fix: complex values without axes are read from CITI
 files

---
 hftools/file_formats/citi.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 852bf9d..2867565 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -153,9 +153,6 @@ class ReadCITIFileFormat(ReadFileFormat):
             One("DATA_LIST_END", "Missing END")(stream)
         yield block
 
-    def make_block_complex(self, block):
-        return block
-
 
 def handle_data(data, typ):
     if typ == "MAG":
-- 
2.43.0


From 0aa4e58505caa18746e1a7c2aec18ee5c0ca5b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 108/121] fix: Touchstone files are written with their
 reference impedance

---
 hftools/file_formats/touchstone.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index d31d867..266af59 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -243,7 +243,12 @@ def save_touchstone(db, filename):
                 for comment in format_scalar(k, v):
                     fil.write("!%s\n" % comment)
 #            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
+        z0 = getattr(db.S, "Z0", 50.)
+        if "Z0" in db.vardata:
+            z0 = db.Z0
+        if np.shape(z0) != () or np.asarray(z0).dtype.kind not in "if":
+            z0 = 50.
+        fil.write("#HZ S RI R %.16g\n" % z0)
 
 
         columns = [hfarray(db.S.dims[0]), db.S]
-- 
2.43.0


From f5092fbd95a0dc20e586776923f4bd4c50ac07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 109/121] fix: real matrices are written to Touchstone files as
 number pairs

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 266af59..e7fc933 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -251,7 +251,7 @@ def save_touchstone(db, filename):
         fil.write("#HZ S RI R %.16g\n" % z0)
 
 
-        columns = [hfarray(db.S.dims[0]), db.S]
+        columns = [hfarray(db.S.dims[0]), db.S.astype(complex)]
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"],
                                                columns, "%s[%s,%s]",
                                                fortranorder=_two_port(columns))
-- 
2.43.0


From f7c3f26235a34e0f80cd0d6e66bc533514a7b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 110/121] fix: CITI files with nan, inf or signed numbers are
 read

---
 hftools/file_formats/citi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 2867565..11d5142 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -38,7 +38,7 @@ reg_num_unit = re.compile(r"^[ \t]*([-0-9.eE]+) ?"
 class CITIFileError(HFToolsIOError):
     pass
 
-reg_data = re.compile("[-0-9eE.]+")
+reg_data = re.compile("[-+0-9eE.]+|nan|inf")
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-- 
2.43.0


From 23f17aed90422301cc5eebd21b5757ebbd1e0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:02 +0000
Subject: [PATCH 111/121] fix: time intervals with fractions of a second are
 read back

---
 hftools/file_formats/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 60a67bf..8573b41 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -253,7 +253,7 @@ def timeintervall_representer(dumper, data):
     if minutes:
         out.append(u"%s minutes" % minutes)
     if seconds:
-        out.append(u"%s seconds" % seconds)
+        out.append(u"%.6f seconds" % seconds)
 
     return dumper.represent_scalar(u'!timeintervall',
                                    u" ".join(out or [u"0 seconds"]))
-- 
2.43.0


From d58d3eb00e00b049b3d872c9953983f4c85153a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:49 +0000
Subject: [PATCH 112/121] fix: dates of day, month or year resolution are kept
 as axis labels

---
 hftools/dataset/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index 875fd69..641f6e6 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -86,7 +86,7 @@ class DimBase(object):
     def data(self):
         if len(self._data) == 0:
             d = np.array([])
-        elif isinstance(self._data[0], (np.datetime64, datetime.datetime)):
+        elif isinstance(self._data[0], (np.datetime64, datetime.date)):
             d = np.asarray(self._data, np.dtype("datetime64[us]"))
         else:
             d = np.asarray(self._data)
-- 
2.43.0


From a6400122d5d9d41ad9794f43c660766a4dfdb25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 113/121] fix: CITI files keep matrices with ten or more rows
 or columns

---
 hftools/file_formats/citi.py   | 10 ++++++----
 hftools/file_formats/common.py |  9 +++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 11d5142..b9a6af8 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -24,7 +24,8 @@ from numpy import array, iscomplexobj, pi
 import hftools.dataset
 from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix
 from hftools.core.exceptions import HFToolsIOError
-from hftools.file_formats.common import Comments, format_scalar
+from hftools.file_formats.common import Comments, format_scalar,\
+    matrix_element_format
 
 from hftools.file_formats.readbase import ManyOptional, One, Token,\
     ReadFileFormat, Optional, OneOf
@@ -42,8 +43,8 @@ reg_data = re.compile("[-+0-9eE.]+|nan|inf")
 
 
 class ReadCITIFileFormat(ReadFileFormat):
-    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]),"
-                                            "([0-9])[]]$").match,
+    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]+),"
+                                            "([0-9]+)[]]$").match,
                                  re.compile("([A-Za-z_]+)([0-9])"
                                             "([0-9])$").match]
 
@@ -208,9 +209,10 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 names = []
+                fmt = matrix_element_format(value)
                 for i in range(value.shape[-2]):
                     for j in range(value.shape[-1]):
-                        names.append("%s%s%s" % (name, i + 1, j + 1))
+                        names.append(fmt % (name, i + 1, j + 1))
             else:
                 names = [name]
             for n in names:
diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index abed875..b2c90db 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -313,6 +313,15 @@ def get_dims_names(*a):
     return tuple([x.name for x in a])
 
 
+def matrix_element_format(value):
+    """Format of the names of the elements of the matrix *value*. Indices with
+       more than one digit have to be kept apart.
+    """
+    if max(value.shape[-2:]) > 9:
+        return "%s[%s,%s]"
+    return "%s%s%s"
+
+
 def make_col_from_matrix(header, columns, fmt_matrix, fortranorder=False):
     fullheader = []
     fullcolumns = []
-- 
2.43.0


From ece07d98b5d8220ef72c5c8b11b94215c9cc6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 114/121] fix: sp-data files keep matrices with ten or more
 rows or columns

---
 hftools/file_formats/common.py   | 6 ++++--
 hftools/file_formats/readbase.py | 7 ++++---
 hftools/file_formats/spdata.py   | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index b2c90db..97d1df7 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -322,18 +322,20 @@ def matrix_element_format(value):
     return "%s%s%s"
 
 
-def make_col_from_matrix(header, columns, fmt_matrix, fortranorder=False):
+def make_col_from_matrix(header, columns, fmt_matrix=None,
+                         fortranorder=False):
     fullheader = []
     fullcolumns = []
     for colname, col in zip(header, columns):
         if ismatrix(col):
+            fmt = fmt_matrix or matrix_element_format(col)
             for i in range(col.dims[-2].data.shape[0]):
                 for j in range(col.dims[-1].data.shape[0]):
                     if fortranorder:
                         I, J = j, i
                     else:
                         I, J = i, j
-                    fullheader.append(fmt_matrix % (colname, I + 1, J + 1))
+                    fullheader.append(fmt % (colname, I + 1, J + 1))
                     fullcolumns.append(col[..., I, J])
         else:
             fullheader.append(colname)
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index e71a652..87c22f2 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -443,6 +443,7 @@ class ReadFileFormat(object):
     def combine_blocks(self, blocks):
         pass
 
-    reg = re.compile("([A-Za-z_]+)([0-9])([0-9])$")
-    match_matrix_element_name = [reg.match]
-    del reg
+    match_matrix_element_name = [re.compile("([A-Za-z_]+)[[]([0-9]+),"
+                                            "([0-9]+)[]]$").match,
+                                 re.compile("([A-Za-z_]+)([0-9])"
+                                            "([0-9])$").match]
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 93aa4fd..f663a62 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -166,7 +166,7 @@ def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for iname, fmt, value in sweepvars:
         name = format_unit_header("@%s" % iname, value)
         yield [("!%s=" + fmt) % (name, value)]
-    header, columns = make_col_from_matrix(header, columns, "%s%s%s")
+    header, columns = make_col_from_matrix(header, columns)
     outheader = format_complex_header(header, columns,
                                       "%s", "Re(%s)", "Im(%s)",
                                       padheader=True)
-- 
2.43.0


From be6fd2b7de24427d36baff64a371491b955675e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:57 +0000
Subject: [PATCH 115/121] fix: MDIF files keep matrices with ten or more rows
 or columns

---
 hftools/file_formats/mdif.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 6fa5490..2b14aa9 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -30,7 +30,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
 from hftools.core.exceptions import HFArrayShapeDimsMismatchError
 from hftools.utils import glob, is_numlike, stable_uniq
 from hftools.file_formats.common import Comments, format_elem,\
-    format_scalar
+    format_scalar, matrix_element_format
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -544,6 +544,12 @@ def loop_db(db):
             yield rad
 
 
+def format_element(db):
+    def formatelement(varname, i, j):
+        return matrix_element_format(db[varname]) % (varname, i, j)
+    return formatelement
+
+
 def save_mdif(db, filename):
     with io.open(filename, "w", encoding="cp1252") as fil:
         fil.write(u"!Created: %s\n" % time.asctime())
@@ -551,7 +557,7 @@ def save_mdif(db, filename):
             for comment in db.comments.fullcomments:
                 fil.write(u"!%s\n" % comment.lstrip("!"))
         #for rad in db_iterator(db, format_mdif_block):
-        elements = convert_matrices_to_elements(db)
+        elements = convert_matrices_to_elements(db, format_element(db))
         if all(len(v.dims) != 1 for v in elements.vardata.values()):
             # no block has the values without axes as attributes
             for k, v in elements.vardata.items():
-- 
2.43.0


From cf74fa3674bb3f9e70ffc364d7a738538110d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:50 +0000
Subject: [PATCH 116/121] fix: axis labels show the power of ten with the unit

---
 hftools/plotting/helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..c336286 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -169,6 +169,7 @@ class UnitFormatter(FormatStrFormatter):
                 prefix = si_exp_to_prefixes.get(exponent, "q")
                 if prefix == "q":
                     prefix = ""
+                    exponent = 0
                     div = 1
                     self.fmt = "%%.%de" % self.digs
                 xlabel = self.label_template % dict(prefix=prefix,
@@ -229,8 +230,8 @@ class UnitFormatter(FormatStrFormatter):
                 fmt = fmt.replace("[]", u"[%(prefix)sU]")
         elif "[^]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[^]", u"$[10^{{%%(powerprefix).0f" +
-                                  u"\\rm{{{unit}}}}]$")
+                fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}" +
+                                  u"\\rm{{{unit}}}]$")
             else:
                 fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}]$")
         if "{unit}" in fmt or "{default}" in fmt:
-- 
2.43.0


From d38a2398071cd489a3afc3a95dd84670b33ee028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 117/121] fix: positions given as an array with other indices
 select elements

---
 hftools/dataset/arrayobj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 558b693..7a4d745 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -601,7 +601,8 @@ class _hfarray(ndarray):
 
     @apply_outputformat
     def __getitem__(self, x):
-        if x is newaxis or (isinstance(x, tuple) and newaxis in x):
+        if x is newaxis or (isinstance(x, tuple) and
+                            any(i is newaxis for i in x)):
             return self.view(type=ndarray, dtype=self.dtype)[x]
         if x is Ellipsis:
             return self.view()
@@ -620,7 +621,7 @@ class _hfarray(ndarray):
         ellips_count = len([i for i in indices
                             if isinstance(i, type(Ellipsis))])
         if ellips_count == 1:
-            i = indices.index(Ellipsis)
+            i = [ind is Ellipsis for ind in indices].index(True)
             indices = (indices[:i] + (slice(None),) *
                        (self.ndim - (len(x) - 1)) + indices[i + 1:])
         elif ellips_count > 1:
-- 
2.43.0


From d2f11a525be9a42a07daf12846e5248b2a9d8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 118/121] fix: a number minus an array of unsigned integers

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 7a4d745..5b766e1 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -737,7 +737,7 @@ class _hfarray(ndarray):
 
     @check_instance
     def __rsub__(self, other):
-        return (-self).__add__(other)
+        return np.subtract(other, self)
 
     @check_instance
     def __rmul__(self, other):
-- 
2.43.0


From d72b0a81e54d515199196fc02c46611f8091a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 119/121] fix: unwrap_phase of single precision data with axes
 in any order

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index 15a0bea..d66f873 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -133,7 +133,7 @@ def _unwrap_phase(data, deg=False):
        hfarray([  0. ,   1.5,   3. ,   4.5,   6. ,   7.5,   9. ,  10.5])
     """
     result = data.real * 0
-    a = angle(data[0])
+    a = np.asarray(angle(data[0]))
     a0 = np.median(array(a.flat[0], copy=False))
     add_pos = abs(a - a0 + 2 * pi) < 2
     add_neg = abs(a - a0 - 2 * pi) < 2
-- 
2.43.0


From 1cd023b5f04303be8364b93ec1a17f7e2eeb123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:13 +0000
Subject: [PATCH 120/121] fix: converting networks given as whole numbers

---
 hftools/networks/multiports.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 219e673..b335123 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -147,6 +147,10 @@ class _MultiPortArray(_hfarray):
                              for (x, size) in zip(defaultdims, shape))
                 dims = dims + (DimMatrix_i("i", data.shape[-2]),
                                DimMatrix_j("j", data.shape[-1]))
+        if (dtype is None and data.dtype.kind in "iu" and
+                isinstance(data, _MultiPortArray) and
+                not (isinstance(data, subtype) and Z0 in (None, data.Z0))):
+            dtype = np.float64
         out = _hfarray.__new__(subtype, data, dims=dims, dtype=dtype,
                                copy=copy, order=order, subok=subok,
                                ndmin=ndmin, unit=unit)
-- 
2.43.0


From 2100726c88f7abe416d26e88f6338a4a4df363f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:16 +0000
Subject: [PATCH 121/121] fix: combine_elements_to_matrix aligns elements by
 their axes

---
 hftools/file_formats/readbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 87c22f2..19bdee6 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -19,6 +19,7 @@ import numpy as np
 import hftools.py3compat as py3
 from hftools.constants import unit_to_multiplier
 from hftools.dataset import DataBlock, DimPartial, hfarray, make_matrix
+from hftools.dataset.arrayobj import change_shape
 from hftools.file_formats.common import normalize_names
 from hftools.file_formats import merge_blocks
 from hftools.utils import glob
@@ -204,7 +205,7 @@ def combine_elements_to_matrix(data, name):
                      dtype=np.result_type(*[data[v].dtype for v in vnames]))
 
         for i, j in itertools.product(i_indices, j_indices):
-            val = data["%s%d%d" % (name, i, j)]
+            val = change_shape(data["%s%d%d" % (name, i, j)], ex.dims)
             x[..., i_indices.index(i), j_indices.index(j), ] = val
 
     else:
-- 
2.43.0

