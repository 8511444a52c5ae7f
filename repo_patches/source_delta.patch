From e623c7a2c21d5bf1a0e7fad5361a0fd88dc43362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 01/78] fix: use numpy.floating, numpy.float no longer exists
 so every DataNode/ReadNode failed

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From 94cd61d86d5fff5b3a9d5a3748c0855b70544053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 02/78] fix: join of a slice and a negative or out-of-range
 integer index selects the element numpy would

---
 pyconform/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index 843c71c..dfd8662 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -155,9 +155,9 @@ def join(shape0, index1, index2):
                 else:
                     idx12.append(slice(0, 0))
             else:
-                if i2 < -l1 or i2 >= l1:
+                if (stop1 - start1) * step1 <= 0 or i2 < -l1 or i2 >= l1:
                     raise IndexError("Second index out of range in array")
-                idx12.append(start1 + i2 * step1)
+                idx12.append(start1 + (i2 + l1 if i2 < 0 else i2) * step1)
         else:
             if i1 < -l0 or i1 >= l0:
                 raise IndexError("First index out of range in array")
-- 
2.43.0


From 56c6e106325679b74e27a439447f665a170f5504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 03/78] fix: mean/sum over several dimensions reduces the named
 axes together (sum used mean, axes shifted)

---
 pyconform/physarray.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..593bfd7 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -640,9 +640,7 @@ class PhysArray(numpy.ma.MaskedArray):
             meanval = self.view(numpy.ma.MaskedArray).mean(axis=axis)
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
-            meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            meanval = self.view(numpy.ma.MaskedArray).mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
@@ -672,9 +670,7 @@ class PhysArray(numpy.ma.MaskedArray):
             sumval = self.view(numpy.ma.MaskedArray).sum(axis=axis)
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
-            sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            sumval = self.view(numpy.ma.MaskedArray).sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 79a6504eb258a5ebfafdfdf8c937efd2664d7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 04/78] fix: unit conversion keeps the positive direction

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 593bfd7..a9a06b5 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -217,7 +217,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From b69ae2f931d930999f3e56efbf83ba5621cb87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 05/78] fix: matching positive directions and up()/down()
 functions no longer negate the source data

---
 pyconform/functions.py |  4 ++--
 pyconform/physarray.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..182103e 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -411,7 +411,7 @@ class PositiveUpFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).up()
+        return PhysArray(data).copy().up()
 
 
 class PositiveDownFunction(Function):
@@ -423,7 +423,7 @@ class PositiveDownFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).down()
+        return PhysArray(data).copy().down()
 
 
 class ChangeUnitsFunction(Function):
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index a9a06b5..021ab19 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -437,7 +437,9 @@ class PhysArray(numpy.ma.MaskedArray):
             elif self.positive == "down":
                 other.down()
         else:
-            other.flip()
+            # Flip a copy, because 'other' can share memory with the original operand
+            other = other.copy().flip()
+        return other
 
     def _check_inplace_(self, other):
         other = PhysArray(other)
@@ -455,8 +457,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __add__(self, other):
         result = PhysArray(self)
@@ -511,8 +512,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _mul_div_init_(self, other):
         other = self._broadcast_(PhysArray(other))
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __mul__(self, other):
         result = PhysArray(self)
-- 
2.43.0


From 5555623fa7389a4fc2c319beaab356d7914d1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 06/78] fix: limit() no longer overwrites its input data

---
 pyconform/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 182103e..4a45534 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -505,6 +505,9 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        # Limit a copy, because 'data' can share memory with the function's input
+        data = data.copy()
+
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-- 
2.43.0


From 23b32a50574d694ebd48b850cddf038309843d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 07/78] fix: valid_min/valid_max of zero are honoured and only
 values outside the range are masked

---
 pyconform/flownodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..1390e70 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,20 +542,20 @@ class ValidateNode(FlowNode):
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min:
+        if valid_min is not None:
             dmin = numpy.min(indata)
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
-        if valid_max:
+        if valid_max is not None:
             dmax = numpy.max(indata)
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
         if ok_min_mean_abs or ok_max_mean_abs:
-- 
2.43.0


From add3332a9fb933377b5c9ee9e70143b43bd33c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 08/78] fix: graph iterators yield each node once

---
 pyconform/flownodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 1390e70..5c60955 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -49,6 +49,8 @@ def iter_dfs(node):
     tosearch = [node]
     while tosearch:
         nd = tosearch.pop()
+        if nd in visited:
+            continue
         visited.add(nd)
         if isinstance(nd, FlowNode):
             tosearch.extend(i for i in nd.inputs if i not in visited)
@@ -69,6 +71,8 @@ def iter_bfs(node):
     tosearch = [node]
     while tosearch:
         nd = tosearch.pop(0)
+        if nd in visited:
+            continue
         visited.add(nd)
         if isinstance(nd, FlowNode):
             tosearch.extend(i for i in nd.inputs if i not in visited)
-- 
2.43.0


From c65786db71a99a2c01df1c341ec6118833004c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 09/78] fix: sum/min/max functions reduce every named dimension
 and work for any rank

---
 pyconform/functions.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 4a45534..ebb696d 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -322,13 +322,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
@@ -346,23 +341,20 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
+        indims = tuple(i for i, d in enumerate(data.dimensions) if d in dimensions)
+        new_dims = tuple(d for d in data.dimensions if d not in dimensions)
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+                np.zeros((0,) * len(new_dims)), units=data.units, dimensions=new_dims
             )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
         new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+        m = np.amin(data, axis=indims)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
@@ -381,24 +373,20 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
+        indims = tuple(i for i, d in enumerate(data.dimensions) if d in dimensions)
+        new_dims = tuple(d for d in data.dimensions if d not in dimensions)
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+                np.zeros((0,) * len(new_dims)), units=data.units, dimensions=new_dims
             )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
         new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+        m = np.amax(data, axis=indims)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
-- 
2.43.0


From 05fd2510051ce6f2ffa5fac5dfd9aeb46d85c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 10/78] fix: subsetting an array to a single element keeps its
 units, direction and name

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 021ab19..98a56be 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -372,7 +372,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             if dimensions != self.dimensions:
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx), dimensions=dimensions
+                    super(PhysArray, self).__getitem__(idx),
+                    name=self.name,
+                    units=self.units,
+                    dimensions=dimensions,
+                    positive=self.positive,
                 )
             else:
                 return super(PhysArray, self).__getitem__(idx)
-- 
2.43.0


From 73ede240e32da7b1eea92ec9d255178e65c862eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 11/78] fix: requesting a single index of a renamed dimension
 works (dimension dropped from the result)

---
 pyconform/flownodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 5c60955..2cbaa71 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -403,7 +403,9 @@ class MapNode(FlowNode):
             name = "map({}, from=[{}], to=[{}])".format(
                 inp_info.name, idims_str, odims_str
             )
-        return PhysArray(self.inputs[0][inp_index], name=name, dimensions=out_dims)
+        data = self.inputs[0][inp_index]
+        dims = tuple(self._i2omap.get(d, d) for d in data.dimensions)
+        return PhysArray(data, name=name, dimensions=dims)
 
 
 class ValidateNode(FlowNode):
-- 
2.43.0


From 76fcd667a223629889b2645646b4123e18bba836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 12/78] fix: limit() limits scalar variables by value (it
 always stored the 'below' limit)

---
 pyconform/functions.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index ebb696d..2f44656 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -493,25 +493,28 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
-        # Limit a copy, because 'data' can share memory with the function's input
-        data = data.copy()
+        # Never limit in place, because 'data' can share memory with the function's input
+        values = data
 
         above_str = ""
         if above_val is not None:
-            above_ind = where(data > above_val)
-            if len(above_ind) > 0:
-                data[above_ind] = above_val
-                above_str = ", above={}".format(above_val)
+            values = where(values > above_val, above_val, values)
+            above_str = ", above={}".format(above_val)
 
         below_str = ""
         if below_val is not None:
-            below_ind = where(data < below_val)
-            if len(below_ind) > 0:
-                data[below_ind] = below_val
-                below_str = ", below={}".format(below_val)
+            values = where(values < below_val, below_val, values)
+            below_str = ", below={}".format(below_val)
 
         new_name = "limit({}{}{})".format(data.name, above_str, below_str)
-        return PhysArray(data, name=new_name)
+        return PhysArray(
+            values,
+            name=new_name,
+            units=data.units,
+            dimensions=data.dimensions,
+            positive=data.positive,
+            dtype=data.dtype,
+        )
 
 
 class RemoveUnitsFunction(Function):
-- 
2.43.0


From f74b87e55f9065450c0092f8b485094f763e011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 13/78] fix: min/max report the positive direction of their
 result before any data is read

---
 pyconform/functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 2f44656..a52fe27 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -345,7 +345,10 @@ class MinFunction(Function):
         new_dims = tuple(d for d in data.dimensions if d not in dimensions)
         if index is None:
             return PhysArray(
-                np.zeros((0,) * len(new_dims)), units=data.units, dimensions=new_dims
+                np.zeros((0,) * len(new_dims)),
+                units=data.units,
+                dimensions=new_dims,
+                positive=data.positive,
             )
         new_name = "min({},{})".format(data.name, dimensions)
         m = np.amin(data, axis=indims)
@@ -377,7 +380,10 @@ class MaxFunction(Function):
         new_dims = tuple(d for d in data.dimensions if d not in dimensions)
         if index is None:
             return PhysArray(
-                np.zeros((0,) * len(new_dims)), units=data.units, dimensions=new_dims
+                np.zeros((0,) * len(new_dims)),
+                units=data.units,
+                dimensions=new_dims,
+                positive=data.positive,
             )
         new_name = "max({},{})".format(data.name, dimensions[0])
         m = np.amax(data, axis=indims)
-- 
2.43.0


From 32aa7fb7f0dee639d8406ad7d92db384053335e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 14/78] fix: max() without dimension names works (as min()
 does)

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index a52fe27..305b365 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -385,7 +385,7 @@ class MaxFunction(Function):
                 dimensions=new_dims,
                 positive=data.positive,
             )
-        new_name = "max({},{})".format(data.name, dimensions[0])
+        new_name = "max({},{})".format(data.name, dimensions)
         m = np.amax(data, axis=indims)
         return PhysArray(
             m,
-- 
2.43.0


From 451d190709fd4081a2ade79d22ec66a8cf88d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 15/78] fix: flipping the positive direction keeps the units
 (their reference date was lost)

---
 pyconform/physarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 98a56be..ccb9d19 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -331,7 +331,9 @@ class PhysArray(numpy.ma.MaskedArray):
         """
         if self.positive is not None:
             nm = self.name
+            units = self.units
             self *= -1
+            self.units = units
             self.positive = "up" if self.positive == "down" else "down"
             self.name = "{}({})".format(self.positive, nm)
         return self
-- 
2.43.0


From 78b17107b00f093e89b098d6033357a27fec4a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 16/78] fix: an empty valid_min/valid_max still means that
 there is none

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 2cbaa71..593131c 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -548,7 +548,7 @@ class ValidateNode(FlowNode):
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min is not None:
+        if valid_min not in (None, ""):
             dmin = numpy.min(indata)
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
@@ -556,7 +556,7 @@ class ValidateNode(FlowNode):
                 indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
-        if valid_max is not None:
+        if valid_max not in (None, ""):
             dmax = numpy.max(indata)
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
-- 
2.43.0


From 672912583a4e15fab66adf4e299931a668ba8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 17/78] fix: a dataset without any definition to evaluate (data
 given directly, or inputs missing) can be built

---
 pyconform/dataflow.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..acd5231 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -189,14 +189,13 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
+        nodeorder = [
+            vname
+            for _, vname in sorted(
+                (len(self._ods.variables[vname].dimensions), vname)
+                for vname in definfos
             )
-        )[1]
+        ]
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From 23f0db53198b5f2805fec827b1e01799e9ae2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 18/78] fix: chdims() relates requests by dimension name to the
 renamed dimensions

---
 pyconform/functions.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 305b365..e9ca963 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -546,17 +546,20 @@ class RenameDimensionsFunction(Function):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
     def __getitem__(self, index):
-        data = (
-            self.arguments[0]
-            if is_constant(self.arguments[0])
-            else self.arguments[0][index]
-        )
-        if len(self.arguments) == 1:
-            return data
+        data_r = self.arguments[0]
         dims = self.arguments[1:]
+        if is_constant(data_r) or len(dims) == 0:
+            return data_r if is_constant(data_r) else data_r[index]
+        # The index refers to the new names, the data to the old names
+        new_names = dict(zip(data_r[None].dimensions, dims))
+        if isinstance(index, dict):
+            index = {
+                d: index[new_names.get(d, d)]
+                for d in data_r[None].dimensions
+                if new_names.get(d, d) in index
+            }
+        data = data_r[index]
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
-        new_dims = list(data.dimensions)
-        dlen = min(len(dims), len(new_dims))
-        new_dims[:dlen] = dims[:dlen]
+        new_dims = tuple(new_names.get(d, d) for d in data.dimensions)
         return PhysArray(data, name=new_name, dimensions=new_dims)
-- 
2.43.0


From 4501ccfdff41ac62705a67e701585f19e2bc2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 19/78] fix: chunk sizes below one are refused (they left the
 file without data)

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index acd5231..67ab807 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -356,6 +356,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    "Chunk size must be positive for output dimension {!r}: {}".format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From 0fa18e2b40bd7f6957c394fdbe0e15e75ace259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 20/78] fix: variables with the same dimensions in another
 order are not the same variable

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..3b74329 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -318,7 +318,7 @@ class VariableDesc(object):
             return False
         if self.datatype != other.datatype:
             return False
-        if self.dimensions.keys() != other.dimensions.keys():
+        if tuple(self.dimensions) != tuple(other.dimensions):
             return False
         return True
 
-- 
2.43.0


From a9cad62a627cec26887ccdd21c55ba9792eb8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 21/78] fix: bounds and coordinates of a coordinate variable
 are added to its file too

---
 pyconform/datasets.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 3b74329..3c54500 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -943,10 +943,12 @@ class OutputDatasetDesc(DatasetDesc):
                     ).issubset(fdims):
                         vlist[mvname] = vdesc
 
-            # Loop through the current list of variables and check for any "bounds" or "coordinates" attributes
-            mvnames = set()
-            for vname in vlist:
-                vdesc = vlist[vname]
+            # Loop through the current list of variables and check for any "bounds" or "coordinates" attributes,
+            # adding the variables they refer to (which may refer to other variables themselves)
+            unchecked = list(vlist.values())
+            while unchecked:
+                vdesc = unchecked.pop(0)
+                mvnames = []
                 if "bounds" in vdesc.attributes:
                     mvname = vdesc.attributes["bounds"]
                     if mvname not in variables:
@@ -956,7 +958,7 @@ class OutputDatasetDesc(DatasetDesc):
                                 "found"
                             ).format(vdesc.name, mvname)
                         )
-                    mvnames.add(mvname)
+                    mvnames.append(mvname)
                 if "coordinates" in vdesc.attributes:
                     for mvname in vdesc.attributes["coordinates"].split():
                         if mvname not in variables:
@@ -966,12 +968,13 @@ class OutputDatasetDesc(DatasetDesc):
                                     "found"
                                 ).format(vdesc.name, mvname)
                             )
-                        mvnames.add(mvname)
+                        mvnames.append(mvname)
 
-            # Add the bounds and coordinates to the list of variables
-            for mvname in mvnames:
-                if mvname not in vlist:
-                    vlist[mvname] = variables[mvname]
+                # Add the bounds and coordinates to the list of variables
+                for mvname in mvnames:
+                    if mvname not in vlist:
+                        vlist[mvname] = variables[mvname]
+                        unchecked.append(variables[mvname])
 
             # Create the file descriptor
             fdict["variables"] = [vlist[vname] for vname in vlist]
-- 
2.43.0


From 152d5098913f0306e8973055c8d6b9ba58ed00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 22/78] fix: unsigned byte variables can be written to NETCDF4
 files

---
 pyconform/datasets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 3c54500..4c769f8 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -773,6 +773,7 @@ class OutputDatasetDesc(DatasetDesc):
         3: ["byte", "char", "short", "int", "float", "double"],
         4: [
             "byte",
+            "ubyte",
             "char",
             "short",
             "ushort",
-- 
2.43.0


From 21f8423db22fe16a00ad6630cb970bc81bb5a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 23/78] fix: time values that are not whole days are converted
 (mapdates failed on them)

---
 pyconform/mapdates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..2f0060c 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -84,8 +84,8 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
+    date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
+    date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
-- 
2.43.0


From e6334f479c582907e02b4219e80d8efbb4421b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 24/78] fix: the last time slice of a file with time bounds is
 where its bounds start (files of other than daily data seemed disconnected)

---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 2f0060c..afe24dd 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -44,7 +44,7 @@ def __get_time_info__(f, io):
         d0 = tb[0, 0]
         d1 = tb[1, 0]
         d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
+        dn = tb[j - 1, 0]
         time = tb[:, 0]
     else:
         # print 'Using time'
-- 
2.43.0


From 16767e7347787744358aee4970f725e14edddcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 25/78] fix: time slices of different files are compared in the
 units they were converted to

---
 pyconform/mapdates.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index afe24dd..ea37ff4 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -15,6 +15,9 @@ from dateutil import parser
 
 from . import climIO
 
+# Time units in which time slices of different files are compared
+STANDARD_UNITS = "days since 1-1-1 0:0:0"
+
 
 def __get_time_info__(f, io):
     """
@@ -35,7 +38,7 @@ def __get_time_info__(f, io):
     """
     date_info = {}
     _tc, _dim, att = io.get_var_info(f, "time")
-    stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=att["calendar"])
+    stand_cal = cf_units.Unit(STANDARD_UNITS, calendar=att["calendar"])
     cal_unit = cf_units.Unit(att["units"], calendar=att["calendar"])
     if "bounds" in att.keys():
         # print 'Using bounds'
@@ -79,6 +82,9 @@ def __get_time_info__(f, io):
         t_per = "UNKNOWN"
     date_info["t_per"] = t_per
     date_info["t_step"] = t_step
+    date_info["t_step_days"] = cal_unit.convert(
+        float(d2), stand_cal
+    ) - cal_unit.convert(float(d1), stand_cal)
     # Get first and last dates
     # t0 = (parser.parse(str(cf_units.num2date(d0, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
@@ -117,14 +123,14 @@ def __check_date_alignment__(keys, date_info):
             first/last step(t0 and tn), slice counts(cnt).
     """
     prev_last = date_info[keys[0]]["tn"]
-    t_step = date_info[keys[0]]["t_step"]
+    t_step = date_info[keys[0]]["t_step_days"]
 
     if date_info[keys[0]]["t_per"] == "mon":
         date = parser.parse(
             str(
                 cf_units.num2date(
                     date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
+                    STANDARD_UNITS,
                     calendar=date_info[keys[0]]["calendar"],
                 )
             )
@@ -143,7 +149,7 @@ def __check_date_alignment__(keys, date_info):
                 str(
                     cf_units.num2date(
                         date_info[keys[i]]["t0"],
-                        date_info[keys[i]]["units"],
+                        STANDARD_UNITS,
                         calendar=date_info[keys[i]]["calendar"],
                     )
                 )
@@ -153,7 +159,7 @@ def __check_date_alignment__(keys, date_info):
                     str(
                         cf_units.num2date(
                             date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
+                            STANDARD_UNITS,
                             calendar=date_info[keys[i]]["calendar"],
                         )
                     )
@@ -166,7 +172,7 @@ def __check_date_alignment__(keys, date_info):
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
                 return 1
         else:
-            if next_val == date_info[keys[i]]["t0"]:
+            if abs(next_val - date_info[keys[i]]["t0"]) <= 1e-4 * abs(t_step):
                 # print "Looks
                 # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
                 prev_last = date_info[keys[i]]["tn"]
-- 
2.43.0


From a75d55d862cd631f55bfc0da23a6e4be82ce2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 26/78] fix: gaps of whole years between monthly time slices
 are found

---
 pyconform/mapdates.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index ea37ff4..d46ce5c 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -135,10 +135,7 @@ def __check_date_alignment__(keys, date_info):
                 )
             )
         ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
+        next_val = 12 * date[0] + date[1] + 1
 
     else:
         next_val = prev_last + t_step
@@ -154,7 +151,7 @@ def __check_date_alignment__(keys, date_info):
                     )
                 )
             ).timetuple()
-            if next_val == new_date[1]:
+            if next_val == 12 * new_date[0] + new_date[1]:
                 date = parser.parse(
                     str(
                         cf_units.num2date(
@@ -164,12 +161,14 @@ def __check_date_alignment__(keys, date_info):
                         )
                     )
                 ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
+                next_val = 12 * date[0] + date[1] + 1
             else:
-                print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
+                print(
+                    "Disconnect? Expected month: ",
+                    (next_val - 1) % 12 + 1,
+                    " Got: ",
+                    new_date[1],
+                )
                 return 1
         else:
             if abs(next_val - date_info[keys[i]]["t0"]) <= 1e-4 * abs(t_step):
@@ -212,15 +211,12 @@ def __check_date_alignment_in_file__(date):
             date1 = parser.parse(
                 str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
             ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
+            next_val = 12 * date1[0] + date1[1] + 1
         for i in range(1, len(t)):
             new_date = parser.parse(
                 str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
             ).timetuple()
-            if next_val == new_date[1]:
+            if next_val == 12 * new_date[0] + new_date[1]:
                 date1 = parser.parse(
                     str(
                         cf_units.num2date(
@@ -228,14 +224,11 @@ def __check_date_alignment_in_file__(date):
                         )
                     )
                 ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
+                next_val = 12 * date1[0] + date1[1] + 1
             else:
                 print(
-                    "Disconnect? Expected: ",
-                    next_val,
+                    "Disconnect? Expected month: ",
+                    (next_val - 1) % 12 + 1,
                     " Got: ",
                     new_date[1],
                     " around time step: ",
-- 
2.43.0


From c73c800215ed61492c6f847483b33fc96f749469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 27/78] fix: rounding of time values is not a gap (hourly data
 in units of days seemed disconnected)

---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index d46ce5c..000044a 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -239,7 +239,7 @@ def __check_date_alignment_in_file__(date):
     # slices.
     else:
         for i in range(1, len(t)):
-            if prev_time + t_step == t[i]:
+            if abs(prev_time + t_step - t[i]) <= 1e-4 * abs(t_step):
                 # Time step looks okay
                 prev_time = t[i]
             else:
-- 
2.43.0


From 1d53ed2a893a160c6ac04e8e6dabefe35edf6f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 28/78] fix: files with the same average time do not replace
 each other (one was silently dropped)

---
 pyconform/mapdates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 000044a..ce5adb1 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -281,7 +281,8 @@ def get_files_in_order(files, alignment=True):
         f = ncdf.open_file(fl)
         ave, date = __get_time_info__(f, ncdf)
         date["fn"] = fn
-        date_info[ave] = date
+        # files with the same average are told apart by their position
+        date_info[(ave, len(date_info))] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
-- 
2.43.0


From 8b6a2ce463527140268c1e4828c4ff17f013b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 29/78] fix: bounds of part of a coordinate are part of its
 bounds (they depended on the chunks)

---
 pyconform/modules/commonfunctions.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7edc5f1..f01eebf 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -378,7 +378,9 @@ class BoundsFunction(Function):
             # self.add_sumlike_dimensions(idata_info.dimensions[0])
 
     def __getitem__(self, index):
-        data = self.arguments[0][index]
+        # the bounds of each value depend on its neighbors, so all of the data is needed
+        whole = None if index is None else slice(None)
+        data = self.arguments[0][whole]
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
@@ -406,13 +408,9 @@ class BoundsFunction(Function):
                 new_data[1:, 0] = data.data[1:] - dx
                 if self._mod_end:
                     new_data[0, 0] = data.data[0] - dx[0]
-            return new_data
 
         else:
-            ddim = data.dimensions[0]
-            dslice = index[ddim] if ddim in index else slice(None)
-            islice = slice(None, None, dslice.step)
-            idata = self.keywords["idata"][islice]
+            idata = self.keywords["idata"][whole]
 
             ifc_len = len(data) + 1
             ifc_data = empty(ifc_len, dtype=data.dtype)
@@ -438,7 +436,7 @@ class BoundsFunction(Function):
             new_data[:, 0] = ifc_data[:-1]
             new_data[:, 1] = ifc_data[1:]
 
-        return new_data
+        return new_data[index]
 
 
 class AgeofAirFunction(Function):
-- 
2.43.0


From 1a2bc6f8686d38b05f2f2e03ee07d1b772384b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 30/78] fix: bounds of an integer coordinate are not rounded

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index f01eebf..cf74955 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -384,7 +384,7 @@ class BoundsFunction(Function):
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
-        bnds = PhysArray([1, 1], dimensions=(bdim,))
+        bnds = PhysArray([1.0, 1.0], dimensions=(bdim,))
         new_data = PhysArray(
             data * bnds, name="bounds({})".format(data.name), units=data.units
         )
@@ -413,7 +413,7 @@ class BoundsFunction(Function):
             idata = self.keywords["idata"][whole]
 
             ifc_len = len(data) + 1
-            ifc_data = empty(ifc_len, dtype=data.dtype)
+            ifc_data = empty(ifc_len, dtype=new_data.dtype)
             if len(idata) == ifc_len:
                 ifc_data[:] = idata.data[:]
             elif len(idata) == ifc_len - 2:
-- 
2.43.0


From 305e82a957a8473c7ec8e54a86adb317a106ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 31/78] fix: interface data is converted to the units of the
 coordinate bounds() is given

---
 pyconform/modules/commonfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index cf74955..b819f40 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -410,7 +410,7 @@ class BoundsFunction(Function):
                     new_data[0, 0] = data.data[0] - dx[0]
 
         else:
-            idata = self.keywords["idata"][whole]
+            idata = self.keywords["idata"][whole].convert(data.units)
 
             ifc_len = len(data) + 1
             ifc_data = empty(ifc_len, dtype=new_data.dtype)
-- 
2.43.0


From af2deb67b0e53f3dd533c29f57d115083f9d0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 32/78] fix: counts stay whole numbers in Python 3
 (monthtoyear_noleap*, ageofair, hemisphere failed or were wrong)

---
 pyconform/modules/commonfunctions.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index b819f40..e9773fa 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -224,12 +224,12 @@ class monthtoyear_noleapFunction(Function):
 
         if len(data.dimensions) == 3:
             a = np.ma.zeros(
-                (data.data.shape[0] / 12, data.data.shape[1], data.data.shape[2])
+                (data.data.shape[0] // 12, data.data.shape[1], data.data.shape[2])
             )
         elif len(data.dimensions) == 4:
             a = np.ma.zeros(
                 (
-                    data.data.shape[0] / 12,
+                    data.data.shape[0] // 12,
                     data.data.shape[1],
                     data.data.shape[2],
                     data.data.shape[3],
@@ -242,7 +242,7 @@ class monthtoyear_noleapFunction(Function):
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             a[i, ...] = np.ma.average(
                 dataD[start : start + 12, ...], axis=0, weights=days_in_month
@@ -293,9 +293,9 @@ class monthtoyear_noleap_timeFunction(Function):
 
         time_bnds = p_time_bnds.data
 
-        b = np.zeros((time_bnds.shape[0] / 12))
+        b = np.zeros((time_bnds.shape[0] // 12))
         time = time_bnds.shape[0]
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             end = (i * 12) + 11
             b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
@@ -332,9 +332,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
             )
 
         time_bound = p_time_bound.data
-        b = np.zeros((time_bound.shape[0] / 12, 2))
+        b = np.zeros((time_bound.shape[0] // 12, 2))
 
-        for i in range(len(time_bound) / 12):
+        for i in range(len(time_bound) // 12):
             b[i][0] = time_bound[i * 12][0] - 365
             b[i][1] = time_bound[(i * 12) + 11][1] - 365
         new_name = "monthtoyear_noleap_timebnds({})".format(p_time_bound.name)
@@ -472,8 +472,8 @@ class AgeofAirFunction(Function):
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
-        year = date / 10000
-        month = date / 100 % 100
+        year = date // 10000
+        month = date // 100 % 100
         # day = date - 10000 * year - 100 * month
 
         month = month - 1
@@ -1048,21 +1048,21 @@ class hemisphereFunction(Function):
         # dim0?
         if dim in p_data.dimensions[0]:
             if ">" in dr:
-                return p_data[(data.shape[0] / 2) : data.shape[0], :, :]
+                return p_data[(data.shape[0] // 2) : data.shape[0], :, :]
             elif "<" in dr:
-                return p_data[0 : (data.shape[0] / 2), :, :]
+                return p_data[0 : (data.shape[0] // 2), :, :]
         # dim1?
         if dim in p_data.dimensions[1]:
             if ">" in dr:
-                return p_data[:, (data.shape[1] / 2) : data.shape[1], :]
+                return p_data[:, (data.shape[1] // 2) : data.shape[1], :]
             elif "<" in dr:
-                return p_data[:, 0 : (data.shape[1] / 2), :]
+                return p_data[:, 0 : (data.shape[1] // 2), :]
         # dim2?
         if dim in p_data.dimensions[2]:
             if ">" in dr:
-                return p_data[:, :, (data.shape[2] / 2) : data.shape[2]]
+                return p_data[:, :, (data.shape[2] // 2) : data.shape[2]]
             elif "<" in dr:
-                return p_data[:, :, 0 : (data.shape[2] / 2)]
+                return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
 class cice_whereFunction(Function):
-- 
2.43.0


From 9753f645e6454e9b233afa3417e3c736a0f27618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 33/78] fix: the bounds dimension name given to oclim_timebnds
 and monthtoyear_noleap_timebnds is used (it was always d2)

---
 pyconform/modules/commonfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e9773fa..e9c07f5 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -136,8 +136,8 @@ class oclim_timeFunction(Function):
 class oclim_timebndsFunction(Function):
     key = "oclim_timebnds"
 
-    def __init__(self, time, bdim="bnds"):
-        super(oclim_timebndsFunction, self).__init__(time, bdim="d2")
+    def __init__(self, time, bdim="d2"):
+        super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -314,8 +314,8 @@ class monthtoyear_noleap_timeFunction(Function):
 class monthtoyear_noleap_timebndsFunction(Function):
     key = "monthtoyear_noleap_timebnds"
 
-    def __init__(self, time_bound, bdim="bnds"):
-        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim="d2")
+    def __init__(self, time_bound, bdim="d2"):
+        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
-- 
2.43.0


From 82f6386ce9da3bd61ae61362298b5df64d823e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 34/78] fix: burntFraction starts each year with January (from
 the second year on it used the wrong month lengths)

---
 pyconform/modules/commonfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e9c07f5..f9d39d4 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1313,7 +1313,7 @@ class burntFractionFunction(Function):
                         a[t, x, y] = 1e20
             i += 1
             if i == 12:
-                i = 1
+                i = 0
         a[a >= 1e16] = 1e20
         new_name = "burntFraction({})".format(p_data.name)
 
-- 
2.43.0


From 5719e598bd8719825e3e31a5bcb9dce60118ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 35/78] fix: results of functions that do not name their
 dimensions are mapped again

---
 pyconform/flownodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 593131c..53be391 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -404,7 +404,11 @@ class MapNode(FlowNode):
                 inp_info.name, idims_str, odims_str
             )
         data = self.inputs[0][inp_index]
-        dims = tuple(self._i2omap.get(d, d) for d in data.dimensions)
+        if all(d in inp_dims for d in data.dimensions):
+            dims = tuple(self._i2omap.get(d, d) for d in data.dimensions)
+        else:
+            # The data does not name its dimensions
+            dims = out_dims
         return PhysArray(data, name=name, dimensions=dims)
 
 
-- 
2.43.0


From da1ecb1cb0506fa0b23c0da3c0d10dc2a77d94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 36/78] fix: functions report the units of their result without
 its data too (variables without declared units got units 1)

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      |  2 ++
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py |  1 +
 pyconform/modules/commonfunctions.py          | 26 ++++++++++++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 3101987..e40d17f 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -77,6 +77,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
             else:
                 return PhysArray(
@@ -86,6 +87,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                         pnlat.dimensions[0],
                         pnlon.dimensions[0],
                     ],
+                    units=pEFLX_LH_TOT.units,
                 )
 
         EFLX_LH_TOT = pEFLX_LH_TOT.data
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 9717b97..61dbaf9 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -87,6 +87,7 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                     plat.dimensions[0],
                     plon.dimensions[0],
                 ],
+                units=pGPP.units,
             )
 
         GPP = pGPP.data
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index f9d39d4..3d2fd39 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -460,6 +460,7 @@ class AgeofAirFunction(Function):
                     p_lev.dimensions[0],
                     p_lat.dimensions[0],
                 ],
+                units="yr",
             )
 
         spc_zm = p_spc_zm.data
@@ -518,6 +519,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -573,6 +575,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -691,6 +694,7 @@ class POP_bottom_layerFunction(Function):
                     p_data.dimensions[2],
                     p_data.dimensions[3],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -823,7 +827,11 @@ class POP_surf_meanFunction(Function):
         p_FIELD = self.arguments[2][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         TAREA = p_TAREA.data
@@ -859,7 +867,11 @@ class POP_3D_meanFunction(Function):
         p_FIELD = self.arguments[3][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         dz = p_dz.data
@@ -897,7 +909,9 @@ class sftofFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0)), dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]]
+                np.zeros((0, 0)),
+                dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]],
+                units=p_KMT.units,
             )
 
         KMT = p_KMT.data
@@ -1021,6 +1035,7 @@ class masked_invalidFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -1082,6 +1097,7 @@ class cice_whereFunction(Function):
             return PhysArray(
                 a1.data,
                 dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
+                units=var.units,
             )
 
         a = np.ma.zeros(a1.shape)
@@ -1295,6 +1311,7 @@ class burntFractionFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = p_data.data
@@ -1597,6 +1614,7 @@ class emilnoxFunction(Function):
                     p_PS.dimensions[1],
                     p_PS.dimensions[2],
                 ],
+                units="mol s-1",
             )
 
         p0 = p_PO.data
@@ -1775,6 +1793,7 @@ class rhoFunction(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="cm-3",
             )
 
         PO = p_PO
@@ -1816,6 +1835,7 @@ class pm25Function(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="kg/kg",
             )
 
         PO = p_PO
-- 
2.43.0


From 925a0fc6c4892ab6c7343f9652f3bef709486540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 37/78] fix: ageofair, burntFraction, POP_bottom_layer and the
 CLM functions name the dimensions of their result

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      | 15 ++++++-----
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py | 11 +++++++-
 pyconform/modules/commonfunctions.py          | 26 ++++++++++++++++---
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index e40d17f..77a5853 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -234,25 +234,28 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         varo_lut[varo_lut >= 1e15] = 1e20
         mvaro_lut = np.ma.masked_values(varo_lut, 1e20)
 
+        dims = [pntim.dimensions[0], pnlat.dimensions[0], pnlon.dimensions[0]]
+        units = pEFLX_LH_TOT.units
         if "crop" in vegType:
             return PhysArray(
-                mvaro_lut[:, crop, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, crop, :, :], name=new_name, units=units, dimensions=dims
             )
         elif "veg" in vegType:
             return PhysArray(
-                mvaro_lut[:, veg, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, veg, :, :], name=new_name, units=units, dimensions=dims
             )
         elif "urban" in vegType:
             return PhysArray(
-                mvaro_lut[:, urban, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, urban, :, :], name=new_name, units=units, dimensions=dims
             )
         elif "pasture" in vegType:
             return PhysArray(
-                mvaro_lut[:, pasture, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, pasture, :, :], name=new_name, units=units, dimensions=dims
             )
         elif "nlut" in vegType:
             return PhysArray(
-                mvaro_lut[:, nlut, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, nlut, :, :], name=new_name, units=units, dimensions=dims
             )
         elif "all" in vegType:
-            return PhysArray(mvaro_lut, name=new_name, units=pEFLX_LH_TOT.units)
+            dims.insert(1, landUse.dimensions[0])
+            return PhysArray(mvaro_lut, name=new_name, units=units, dimensions=dims)
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 61dbaf9..fcea57d 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -265,7 +265,16 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         varo_vegType[varo_vegType >= 1e16] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
-        return PhysArray(ma_varo_vegType, name=new_name, units=pGPP.units)
+        return PhysArray(
+            ma_varo_vegType,
+            name=new_name,
+            units=pGPP.units,
+            dimensions=[
+                ptime.dimensions[0],
+                plat.dimensions[0],
+                plon.dimensions[0],
+            ],
+        )
 
 
 def main(argv=None):
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 3d2fd39..069cb1e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -496,7 +496,16 @@ class AgeofAirFunction(Function):
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
         )
 
-        return PhysArray(a, name=new_name, units="yr")
+        return PhysArray(
+            a,
+            name=new_name,
+            units="yr",
+            dimensions=[
+                p_time.dimensions[0],
+                p_lev.dimensions[0],
+                p_lat.dimensions[0],
+            ],
+        )
 
 
 class YeartoMonth_dataFunction(Function):
@@ -708,7 +717,16 @@ class POP_bottom_layerFunction(Function):
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            units=p_data.units,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[2],
+                p_data.dimensions[3],
+            ],
+        )
 
 
 class diff_axis1_ind0bczero_4dFunction(Function):
@@ -1334,7 +1352,9 @@ class burntFractionFunction(Function):
         a[a >= 1e16] = 1e20
         new_name = "burntFraction({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a, name=new_name, units=p_data.units, dimensions=p_data.dimensions
+        )
 
 
 class reduce_luFunction(Function):
-- 
2.43.0


From d2b417788a2c143270cd951d944aee0216e0b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 38/78] fix: masked_invalid keeps the mask and the dimensions
 of its data

---
 pyconform/modules/commonfunctions.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 069cb1e..a6e59a0 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1047,22 +1047,18 @@ class masked_invalidFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[
-                    p_data.dimensions[0],
-                    p_data.dimensions[1],
-                    p_data.dimensions[2],
-                ],
+                np.zeros((0,) * len(p_data.dimensions)),
+                dimensions=p_data.dimensions,
                 units=p_data.units,
             )
 
-        data = p_data.data
-
-        a = np.ma.masked_invalid(data)
+        a = np.ma.masked_invalid(np.ma.asarray(p_data))
 
         new_name = "masked_invalid({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a, name=new_name, units=p_data.units, dimensions=p_data.dimensions
+        )
 
 
 class hemisphereFunction(Function):
-- 
2.43.0


From 890171a1e1e02079f91f5c0dc79c50775ad1f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 39/78] fix: get_nonwoodyveg names the right dimensions (it
 could not be used in a definition)

---
 pyconform/modules/commonfunctions.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index a6e59a0..d77f8c9 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1453,12 +1453,22 @@ class get_nonwoodyvegFunction(Function):
         pct_crop = p_pct_crop.data
         landfrac = p_landfrac.data
 
+        dimensions = [
+            p_pct_nat_pft.dimensions[0],
+            p_landUse.dimensions[0],
+            p_pct_nat_pft.dimensions[2],
+            p_pct_nat_pft.dimensions[3],
+        ]
+        if index is None:
+            return PhysArray(
+                np.zeros((0, 0, 0, 0)),
+                dimensions=dimensions,
+                units=p_pct_nat_pft.units,
+            )
+
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
         )
-        if index is None:
-            return data
-
         data[:, 0, :, :] = (
             pct_nat_pft[:, 12, :, :]
             + pct_nat_pft[:, 13, :, :]
@@ -1486,12 +1496,7 @@ class get_nonwoodyvegFunction(Function):
         return PhysArray(
             data,
             name=new_name,
-            dimensions=[
-                p_pct_nat_pft.dimensions[0],
-                p_landUse.dimensions[0],
-                p_pct_nat_pft.dimensions[1],
-                p_pct_nat_pft.dimensions[2],
-            ],
+            dimensions=dimensions,
             units=p_pct_nat_pft.units,
         )
 
-- 
2.43.0


From 579b36cfba55fe95573a4c4428ceccd58a259268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 40/78] fix: cice_regions does not change the velocities it is
 given

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index d77f8c9..908cc71 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1161,8 +1161,8 @@ class cice_regionsFunction(Function):
         siline = p_siline.data
         a = np.ma.zeros((aice.shape[0], siline.shape[0]))
 
-        uvel[uvel >= 1e16] = 0.0
-        vvel[vvel >= 1e16] = 0.0
+        uvel = np.where(uvel >= 1e16, 0.0, uvel)
+        vvel = np.where(vvel >= 1e16, 0.0, vvel)
 
         for t in range(aice.shape[0]):
             # 1
-- 
2.43.0


From f425769ed53dec354c731afbff2930032ca2eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 41/78] fix: delp reports all dimensions of its result

---
 pyconform/modules/commonfunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 908cc71..ed6d9bf 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1764,8 +1764,9 @@ class delpFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[p_PS.dimensions[0], p_PS.dimensions[1], p_PS.dimensions[2]],
+                np.zeros((0, 0, 0, 0)),
+                dimensions=p_hyai.dimensions + p_PS.dimensions,
+                units="Pa",
             )
 
         PO = p_PO
-- 
2.43.0


From a862678f6a58ccd1cc360d39259340fa180a77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:21 +0000
Subject: [PATCH 42/78] fix: DynVarMIP functions can be used in definitions
 (they failed on every input)

---
 pyconform/modules/dynvarmipfunctions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 4f75675..5f89925 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -22,9 +22,12 @@ class DynVarMIPFunction(Function):
         self._positive = None
 
     def __getitem__(self, index):
-        args = [np.ma.asarray(arg[index]) for arg in self.arguments]
+        args = [arg[index] for arg in self.arguments]
         arg_names = ",".join([arg.name for arg in args])
-        data = self._dynvarmip_func(*args)
+        if index is None:
+            data = np.zeros((0,) * len(args[-1].dimensions))
+        else:
+            data = self._dynvarmip_func(*[np.ma.asarray(arg) for arg in args])
         name = "{}({})".format(self.key, arg_names)
         return PhysArray(
             data,
-- 
2.43.0


From ae3c443d2bdcc7a5ccef6e5c5f76686877b2c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 43/78] fix: DynVarMIP functions are not evaluated on parts of
 the levels or latitudes

---
 pyconform/modules/dynvarmipfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 5f89925..2521334 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -17,6 +17,9 @@ class DynVarMIPFunction(Function):
 
     def __init__(self, time, lev, lat, *args):
         super(DynVarMIPFunction, self).__init__(time, lev, lat, *args)
+        # Derivatives and integrals need all levels and latitudes
+        for arg in (lev, lat):
+            self.add_sumlike_dimensions(*arg[None].dimensions)
         self._dynvarmip_func = None
         self._units = None
         self._positive = None
-- 
2.43.0


From fac6a388ee386b27c1535aed571bbea1617136f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 44/78] fix: POP_bottom_layer keeps the missing values of its
 data (land became data where the fill value is not 1e20)

---
 pyconform/modules/commonfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index ed6d9bf..290027c 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -706,10 +706,10 @@ class POP_bottom_layerFunction(Function):
                 units=p_data.units,
             )
 
-        data = p_data.data
+        data = np.ma.asarray(p_data)
         KMT = p_KMT.data
 
-        a = np.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
+        a = np.ma.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
 
         for j in range(KMT.shape[0]):
             for i in range(KMT.shape[1]):
-- 
2.43.0


From c7fd62fbcafa7ff5e95a0c0a23a4b7654f112c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 45/78] fix: DynVarMIP tendencies are in m s-2 (they were
 labelled m s-1 d-1 and came out 86400 times too small)

---
 pyconform/modules/dynvarmipfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 2521334..8f66852 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -59,7 +59,7 @@ class utendwtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, wzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendwtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
@@ -81,7 +81,7 @@ class utendvtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, vzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendvtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
-- 
2.43.0


From d1a1f275bd72761254329bb521e0f183e1c8b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 46/78] fix: the vorticity in DynVarMIP diagnostics is divided
 by cos(latitude) (utendvtem, epfz and utendepfd were wrong off the equator)

---
 pyconform/modules/dynvarmipdiags.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipdiags.py b/pyconform/modules/dynvarmipdiags.py
index 0beb83d..d03d654 100644
--- a/pyconform/modules/dynvarmipdiags.py
+++ b/pyconform/modules/dynvarmipdiags.py
@@ -73,7 +73,9 @@ def utendvtem(time, levi, lat, uzm, vzm, vthzm, thzm):
     utendvtem = numpy.zeros(uzm.shape, dtype="d")
     for itime in range(ntime):
         ucos = numpy.einsum("ij...,j->ij...", uzm[itime, ...], coslat)
-        dudphi = deriv(latrad, ucos, axis=1) / a
+        dudphi = numpy.einsum(
+            "ij...,j->ij...", deriv(latrad, ucos, axis=1), 1.0 / (a * coslat)
+        )
         utendvtem[itime, ...] = _vtem[itime, ...] * (f - dudphi)
     return utendvtem
 
@@ -130,7 +132,9 @@ def _init_epfz(time, levi, lat, uzm, uwzm, vthzm, thzm):
     epfz = numpy.zeros(uzm.shape, dtype="d")
     for itime in range(ntime):
         ucos = numpy.einsum("ij...,j->ij...", uzm[itime, ...], coslat)
-        dudphi = deriv(latrad, ucos, axis=1) / a
+        dudphi = numpy.einsum(
+            "ij...,j->ij...", deriv(latrad, ucos, axis=1), 1.0 / (a * coslat)
+        )
         dthdp = deriv(levi100, thzm[itime, ...])
         psieddy = vthzm[itime, ...] / dthdp
         epfz[itime, ...] = a * numpy.einsum(
-- 
2.43.0


From 5cae54420fc0adbc76bf7a272e0e5b502ae86378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 47/78] fix: sqrt of units without a root is reported as an
 error of units (it failed with an attribute error)

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index e9ca963..43fcbc2 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -267,7 +267,7 @@ class SquareRootFunction(Function):
                 units = data_info.units.root(2)
             except:
                 raise UnitsError(
-                    "sqrt: Cannot take square-root of units {!r}".format(data.units)
+                    "sqrt: Cannot take square-root of units {!r}".format(data_info.units)
                 )
             self._units = units
         else:
-- 
2.43.0


From d80dc909137d89942188e750a3aa91476851e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 48/78] fix: a file whose writing failed can be written again
 (the unfinished file stayed open and the next attempt failed with a KeyError)

---
 pyconform/flownodes.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 53be391..2f47342 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -908,6 +908,18 @@ class WriteNode(FlowNode):
             if exists(tmp_fname):
                 rename(tmp_fname, self.label)
 
+    def _abandon_(self):
+        """
+        Close the unfinished file, without giving it its final name, so that it can be written again
+        """
+        self._idims = set()
+        if self._file is not None:
+            try:
+                self._file.close()
+            except Exception:
+                pass
+            self._file = None
+
     @staticmethod
     def _chunk_iter_(dsizes, chunks={}):
         if not isinstance(dsizes, OrderedDict):
@@ -983,6 +995,17 @@ class WriteNode(FlowNode):
             deflate (int): Override the output file deflate level with given value
         """
 
+        try:
+            self._write_(chunks=chunks, deflate=deflate)
+        except:
+            self._abandon_()
+            raise
+
+    def _write_(self, chunks={}, deflate=None):
+        """
+        Write the file, chunk by chunk
+        """
+
         # Open the file and write the header information
         self._open_(deflate=deflate)
 
-- 
2.43.0


From c37e939a38de694a37d0f0683d049877c89f7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 49/78] fix: vardeps does not fail when no definition has a
 dependency

---
 pyconform/cli/vardeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..6e2dec6 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -165,7 +165,8 @@ def main(argv=None):
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if len(alldeps) > 0:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From d24a0b79a880b46c4ea4bf3218462a76bae61cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 50/78] fix: vardeps reads definitions that contain equals
 signs (keyword arguments, comparisons)

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 6e2dec6..09c5725 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
-- 
2.43.0


From eb6883a7557ada1d3b8a2cfa5c19143b22a7d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 51/78] fix: vardeps lists the dependencies of variables with a
 frequency but no realm (it said they had none)

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 09c5725..9d23421 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From c218451130eec16d8d86c92676946e8d616af360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 52/78] fix: axes of CMOR and Excel tables are found in Python
 3 (iconform failed on every CMOR table)

---
 pyconform/miptableparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09895db..3cc8c29 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -249,7 +249,7 @@ class ParseExcel(object):
                         variables[vn]["coordinates"] = (
                             variables[vn]["dimensions"].strip().replace(" ", "|")
                         )
-                        dims = variables[vn]["dimensions"].encode("utf-8").split()
+                        dims = variables[vn]["dimensions"].split()
                         for dim in dims:
                             if dim not in axes.keys():
                                 axes[dim] = {}
@@ -326,7 +326,7 @@ class ParseCmorTable(object):
                 )
                 variables[var]["frequency"] = mt["Header"]["frequency"]
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
-                dims = v["dimensions"].encode("utf-8").split()
+                dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
                         axes[dim] = mt["axis_entry"][dim]
-- 
2.43.0


From 37d5a570105cea89ace6536c936d3be85d40ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:50 +0000
Subject: [PATCH 53/78] fix: several CMOR tables, and lists of variables that
 are not in all of them, can be read (the variables of the first were looked
 for in every one)

---
 pyconform/miptableparser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 3cc8c29..2877b04 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -311,12 +311,11 @@ class ParseCmorTable(object):
             with open(t) as f:
                 mt = json.load(f)
 
-            if len(v_list) == 0:
-                v_list = list(mt["variable_entry"].keys())
-
             variables = {}
             axes = {}
-            for var in v_list:
+            for var in v_list or mt["variable_entry"]:
+                if var not in mt["variable_entry"]:
+                    continue
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From eb9c1526fd483b9e4c12bf4726568390e494ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 54/78] fix: text can be written in chunks along its length (it
 was padded to the whole length in each chunk, and writing failed)

---
 pyconform/flownodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 2f47342..2ee0334 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1040,7 +1040,8 @@ class WriteNode(FlowNode):
                 if repr(wchunk) not in vchunks[vname]:
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
-                        vdata = vdata.stretch(ncvar.shape[-1])
+                        strlen = len(range(*wchunk[-1].indices(ncvar.shape[-1])))
+                        vdata = vdata.stretch(strlen)
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From fd0ad1149bc7c8f416dbe0eb25d8834cee3e5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 55/78] fix: labels of a single character keep the dimension of
 their length (it was silently dropped)

---
 pyconform/dataflow.py | 2 ++
 pyconform/datasets.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 67ab807..044958a 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -110,6 +110,8 @@ class DataFlow(object):
                     vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
                 vunits = vdesc.cfunits()
                 vdims = tuple(vdesc.dimensions.keys())
+                if vdata.dtype == "S1" and vdata.ndim + 1 == len(vdims):
+                    vdata = vdata.reshape(vdata.shape + (1,))
                 varray = PhysArray(vdata, name=vname, units=vunits, dimensions=vdims)
                 datnodes[vname] = DataNode(varray)
         return datnodes
diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c769f8..dd53635 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -851,6 +851,9 @@ class OutputDatasetDesc(DatasetDesc):
             if "dimensions" in vdict:
                 vdims = vdict["dimensions"]
                 sldim = vdims[-1] if vkwds["datatype"] == "char" else None
+                if vshape and sldim and len(vdims) == len(vshape) + 1:
+                    # labels of one character, whose length is not in the shape
+                    vshape = vshape + (1,)
                 if vshape is None:
                     vkwds["dimensions"] = tuple(
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
-- 
2.43.0


From 40282bc36c92937bbdd93c110e003f7ad78f3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 56/78] fix: xconform starts on Python 3.12 (the module imp is
 gone)

---
 pyconform/cli/xconform.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..082eaa2 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,7 +14,6 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
 from json import load as json_load
 from os.path import exists
 from warnings import simplefilter
@@ -26,6 +25,20 @@ from pyconform.dataflow import DataFlow
 from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
 from pyconform.flownodes import ValidationWarning
 
+try:
+    from imp import load_source
+except ImportError:  # Python 3.12 and later
+    import sys
+    from importlib.machinery import SourceFileLoader
+    from importlib.util import module_from_spec, spec_from_loader
+
+    def load_source(name, path):
+        spec = spec_from_loader(name, SourceFileLoader(name, path))
+        module = module_from_spec(spec)
+        sys.modules[name] = module
+        spec.loader.exec_module(module)
+        return module
+
 
 def chunk(arg):
     try:
-- 
2.43.0


From caab84b001664b6dff8cf7771cad4d210c68f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 57/78] fix: integers in other units are not cut off to
 integers (1 m + 150 cm was 2 m)

---
 pyconform/flownodes.py | 2 ++
 pyconform/physarray.py | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 2ee0334..358d428 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -531,6 +531,8 @@ class ValidateNode(FlowNode):
                             self.label, err
                         )
                         raise err.__class__(err_msg)
+                    if self._vdesc.dtype is not None:
+                        indata = indata.astype(odtype)
 
         # Check that the dimensions match as expected
         if self.dimensions != indata.dimensions:
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index ccb9d19..4adb700 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -205,9 +205,12 @@ class PhysArray(numpy.ma.MaskedArray):
         # to safely preserve the object type...  sigh.
         u1 = units1 if isinstance(units1, Unit) else Unit(units1)
         u2 = units2 if isinstance(units2, Unit) else Unit(units2)
+        if isinstance(obj, numpy.ma.MaskedArray):
+            # Integers may not be integers in other units, so only keep the type of others
+            dtype = None if numpy.issubdtype(obj.dtype, numpy.integer) else obj.dtype
         if isinstance(obj, PhysArray):
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=obj.dtype
+                units1.convert(obj.data, units2), mask=obj.mask, dtype=dtype
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
@@ -225,7 +228,7 @@ class PhysArray(numpy.ma.MaskedArray):
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-                u1.convert(obj.data, u2), mask=obj.mask, dtype=obj.dtype
+                u1.convert(obj.data, u2), mask=obj.mask, dtype=dtype
             )
         else:
             return u1.convert(obj, u2)
-- 
2.43.0


From d07af2a059bcca0b96ee11c87f8483e2c01c07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 58/78] fix: integers can be limited to values that are no
 integers (limit(x, below=0.5) gave 0)

---
 pyconform/functions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 43fcbc2..5f06d2c 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -512,6 +512,13 @@ class LimitFunction(Function):
             values = where(values < below_val, below_val, values)
             below_str = ", below={}".format(below_val)
 
+        # Whole numbers stay whole numbers, unless a limit is not a whole number
+        dtype = data.dtype
+        if np.issubdtype(dtype, np.integer) and any(
+            v is not None and v != int(v) for v in (above_val, below_val)
+        ):
+            dtype = values.dtype
+
         new_name = "limit({}{}{})".format(data.name, above_str, below_str)
         return PhysArray(
             values,
@@ -519,7 +526,7 @@ class LimitFunction(Function):
             units=data.units,
             dimensions=data.dimensions,
             positive=data.positive,
-            dtype=data.dtype,
+            dtype=dtype,
         )
 
 
-- 
2.43.0


From 84ff04b354db9c66d1bdd1ccfd9fbe3cdb978847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 59/78] fix: missing scalars keep their data type (an integer
 scalar that is missing was refused as float64, its negation failed)

---
 pyconform/flownodes.py |  4 +++-
 pyconform/physarray.py | 48 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 358d428..c4a4852 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -20,7 +20,7 @@ from netCDF4 import Dataset
 from pyconform.datasets import FileDesc, VariableDesc
 from pyconform.functions import Function
 from pyconform.indexing import align_index, index_str, index_tuple, join
-from pyconform.physarray import CharArray, PhysArray
+from pyconform.physarray import CharArray, PhysArray, typemasked
 
 
 class ValidationWarning(Warning):
@@ -264,6 +264,8 @@ class ReadNode(FlowNode):
             index12 = join(shape0, index1, index2)
 
             data = ncvar[index12]
+            if "scale_factor" not in attrs and "add_offset" not in attrs:
+                data = typemasked(data, ncvar.dtype)
 
             # Upconvert, if possible
             if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 4adb700..a02e555 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -111,6 +111,18 @@ def getpositive(obj):
         return None
 
 
+def typemasked(obj, dtype):
+    """
+    Give a missing scalar (numpy's float64 'masked' constant) the dtype it should have
+
+    Does nothing to any other object
+    """
+    if obj is numpy.ma.masked:
+        return numpy.ma.MaskedArray(numpy.zeros((), dtype=dtype), mask=True)
+    else:
+        return obj
+
+
 class PhysArray(numpy.ma.MaskedArray):
     """
     A PhysArray is an array of data with both units and dimensions
@@ -377,7 +389,7 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             if dimensions != self.dimensions:
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx),
+                    typemasked(super(PhysArray, self).__getitem__(idx), self.dtype),
                     name=self.name,
                     units=self.units,
                     dimensions=dimensions,
@@ -464,6 +476,15 @@ class PhysArray(numpy.ma.MaskedArray):
                         ).format(other.dimensions, self.dimensions)
                     )
 
+    def __neg__(self):
+        return PhysArray(
+            typemasked(super(PhysArray, self).__neg__(), self.dtype),
+            name=self.name,
+            units=self.units,
+            dimensions=self.dimensions,
+            positive=self.positive,
+        )
+
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
         return self._match_positive_(other)
@@ -472,7 +493,10 @@ class PhysArray(numpy.ma.MaskedArray):
         result = PhysArray(self)
         other = result._add_sub_init_(other)
         return PhysArray(
-            super(PhysArray, result).__add__(other),
+            typemasked(
+                super(PhysArray, result).__add__(other),
+                numpy.result_type(result.dtype, other.dtype),
+            ),
             name="({}+{})".format(result.name, other.name),
             units=result.units,
             positive=result.positive,
@@ -492,7 +516,10 @@ class PhysArray(numpy.ma.MaskedArray):
         result = PhysArray(self)
         other = result._add_sub_init_(other)
         return PhysArray(
-            super(PhysArray, result).__sub__(other),
+            typemasked(
+                super(PhysArray, result).__sub__(other),
+                numpy.result_type(result.dtype, other.dtype),
+            ),
             name="({}-{})".format(result.name, other.name),
             units=result.units,
             positive=result.positive,
@@ -527,7 +554,10 @@ class PhysArray(numpy.ma.MaskedArray):
         result = PhysArray(self)
         other = result._mul_div_init_(other)
         return PhysArray(
-            super(PhysArray, result).__mul__(other),
+            typemasked(
+                super(PhysArray, result).__mul__(other),
+                numpy.result_type(result.dtype, other.dtype),
+            ),
             name="({}*{})".format(result.name, other.name),
             units=self._units_op_(other.units, mul),
             positive=result.positive,
@@ -580,7 +610,10 @@ class PhysArray(numpy.ma.MaskedArray):
         other = result._mul_div_init_(other)
         units = self.units / other.units
         return PhysArray(
-            super(PhysArray, result).__floordiv__(other),
+            typemasked(
+                super(PhysArray, result).__floordiv__(other),
+                numpy.result_type(result.dtype, other.dtype),
+            ),
             name="({}//{})".format(result.name, other.name),
             units=units,
             positive=result.positive,
@@ -619,7 +652,10 @@ class PhysArray(numpy.ma.MaskedArray):
         other = self._check_exponent_(PhysArray(other))
         positive = None if other.data % 2 == 0 else self.positive
         return PhysArray(
-            super(PhysArray, self).__pow__(other),
+            typemasked(
+                super(PhysArray, self).__pow__(other),
+                numpy.result_type(self.dtype, other.dtype),
+            ),
             units=self.units ** other,
             name="({!s}**{!s})".format(self, other),
             positive=positive,
-- 
2.43.0


From b2a0669bb63cd88e1659a563c28b214345ccec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 60/78] fix: iconform fills in the attribute left open, not
 others whose names it contains

---
 pyconform/cli/iconform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d61371..d087a8d 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -178,15 +178,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
     for a, d in attr.items():
         if d is not None:
             if "__FILL__" in d:
-                if "activity_id" in a and "activity_id" in table:
+                if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-                elif "creation_date" in a:
+                elif a == "creation_date":
                     attr["creation_date"] = ""
-                elif "data_specs_version" in a and "data_specs_version" in table:
+                elif a == "data_specs_version" and "data_specs_version" in table:
                     attr["data_specs_version"] = table["data_specs_version"]
-                elif "experiment" in a and "experiment" in table:
+                elif a == "experiment" and "experiment" in table:
                     attr["experiment"] = table["experiment"]
-                elif "external_variables" in a:
+                elif a == "external_variables":
                     if "cell_measures" in v.keys():
                         if "areacello" in v["cell_measures"]:
                             if (
@@ -239,15 +239,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                                     attr["external_variables"] + " volcello"
                                 )
 
-                elif "frequency" in a:
+                elif a == "frequency":
                     attr["frequency"] = v["frequency"]
-                elif "realm" in a and "realm" in v.keys():
+                elif a == "realm" and "realm" in v.keys():
                     attr["realm"] = v["realm"]
-                elif "table_id" in a:
+                elif a == "table_id":
                     attr["table_id"] = v["mipTable"]
-                elif "tracking_id" in a:
+                elif a == "tracking_id":
                     attr["tracking_id"] = "hdl:21.14100/" + str(uuid.uuid4())
-                elif "variable_id" in a and "variable_id" in v.keys():
+                elif a == "variable_id" and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
     if "FILL" in attr["external_variables"]:
-- 
2.43.0


From d8e0944b82069a0379065637146d244b2079db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 61/78] fix: branch times keep the exponent of Fortran doubles
 (3.65D4 was 3.65)

---
 pyconform/cli/iconform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index d087a8d..9756016 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -259,7 +259,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 if len(attr["branch_time_in_child"]) > 0:
                     try:
                         attr["branch_time_in_child"] = float(
-                            attr["branch_time_in_child"].split("D")[0]
+                            attr["branch_time_in_child"].rstrip("D").replace("D", "E")
                         )
                     except ValueError:
                         attr["branch_time_in_child"] = attr[
@@ -269,7 +269,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 if len(attr["branch_time_in_parent"]) > 0:
                     try:
                         attr["branch_time_in_parent"] = float(
-                            attr["branch_time_in_parent"].split("D")[0]
+                            attr["branch_time_in_parent"].rstrip("D").replace("D", "E")
                         )
                     except ValueError:
                         attr["branch_time_in_parent"] = attr[
@@ -296,7 +296,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
         else:
             if "branch_time_in_child" in attr.keys():
                 attr["branch_time_in_child"] = float(
-                    attr["branch_time_in_child"].split("D")[0]
+                    attr["branch_time_in_child"].rstrip("D").replace("D", "E")
                 )
             if "branch_time_in_parent" in attr.keys():
                 attr["branch_time_in_parent"] = 0.0
-- 
2.43.0


From 86f8364174b8eba4d24551a2a49069afb7fad98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 62/78] fix: iconform works without the optional attributes
 external_variables and grids

---
 pyconform/cli/iconform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 9756016..2dd320e 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -250,7 +250,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 elif a == "variable_id" and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
-    if "FILL" in attr["external_variables"]:
+    if "FILL" in attr.get("external_variables", ""):
         attr.pop("external_variables")
 
     if "branch_method" in attr.keys():
@@ -371,7 +371,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                     ripf,
                 )
                 attr["further_info_url"] = "https://furtherinfo.es-doc.org/" + info_url
-    if "grid" in attr.keys():
+    if "grid" in attr.keys() and grids:
         if len(attr["realm"]) > 0:
             attr["grid"] = grids[attr["realm"].split()[0]]
         else:
@@ -389,9 +389,9 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     attributes = dict(attr)
 
+    grids = {}
     if "grids" in attributes.keys():
         p1 = attributes["grids"].split(";")
-        grids = {}
         for p in p1:
             g = p.split(":")[1]
             for model in p.split(":")[0].split(","):
-- 
2.43.0


From 3bc13af6db309ae993db1024ee0bea6f81032369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 63/78] fix: a text file of global attributes adds to the files
 before it

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 2dd320e..9b3d7fb 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -888,7 +888,7 @@ def main(argv=None):
                     attributes.update(ga)
                 else:
                     with open(gaFile) as y_attributes:
-                        attributes = load(y_attributes, key="ga")["ga"]
+                        attributes.update(load(y_attributes, key="ga")["ga"])
             else:
                 if args.globalAttrFile and not os.path.isfile(args.globalAttrFile):
                     print(
-- 
2.43.0


From 99ad54f1d379d13a5c497be8b7407801db0b738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 64/78] fix: variables made by climIO with netCDF4 have the
 attributes given

---
 pyconform/climIO.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e0a0697..5b46ed1 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -454,11 +454,15 @@ class NetCDF4PyPort(object):
                 tuple(dims),
                 zlib=True,
                 complevel=int(self.compressionLevel),
+                fill_value=attrib.get("_FillValue"),
             )
         else:
-            var = new_file.createVariable(var_name, typeCode, tuple(dims))
-        for att in attrib:
-            var.setncattr(var_name, att)
+            var = new_file.createVariable(
+                var_name, typeCode, tuple(dims), fill_value=attrib.get("_FillValue")
+            )
+        for att, value in attrib.items():
+            if att != "_FillValue":
+                var.setncattr(att, value)
         return var
 
     def get_var_info(self, template_file, var_name):
-- 
2.43.0


From 13f0410c450ba9d58c6c4fe23169dd6b6d13d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 65/78] fix: climIO can create compressed files with netCDF4

---
 pyconform/climIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 5b46ed1..d3bbe43 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -401,7 +401,7 @@ class NetCDF4PyPort(object):
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
             if ncformat[-1].isdigit():
-                self.compressionLevel = ncformat[-1]
+                self.compressionLevel = int(ncformat[-1])
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
-- 
2.43.0


From 31e01089ef2c83fd2d93df20450cc59f54201c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 66/78] fix: climIO writes integers (np.long is no more)

---
 pyconform/climIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index d3bbe43..da4c1bd 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -312,7 +312,7 @@ class PyNioPort(object):
         import numpy as np
 
         if all_vars[var_name].typecode() == "i":
-            t = np.long
+            t = np.int64
         else:
             t = np.float32
 
@@ -567,7 +567,7 @@ class NetCDF4PyPort(object):
         import numpy as np
 
         if all_vars[var_name].datatype == "i":
-            t = np.long
+            t = np.int64
         else:
             t = np.float32
 
-- 
2.43.0


From 4a11a9fb72ebbe61e8d51eec8cec10f940233b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 67/78] fix: climIO opens files for reading only

---
 pyconform/climIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index da4c1bd..ec0fd44 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -347,7 +347,7 @@ class NetCDF4PyPort(object):
         Returns:
             open_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
-        open_file = netCDF4.Dataset(file_name, "r+")
+        open_file = netCDF4.Dataset(file_name, "r")
         return open_file
 
     def read_slice(self, open_file, var, index, all_values=False):
-- 
2.43.0


From d752044e1c90dcfbfc0f3ad08764b508af975c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 68/78] fix: climIO closes the template of a file when it is
 defined

---
 pyconform/climIO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index ec0fd44..6f5ab9d 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -539,6 +539,7 @@ class NetCDF4PyPort(object):
             self.write_meta_var(
                 all_vars[meta_name], meta_name, temp_file.variables[meta_name]
             )
+        self.close_file(temp_file)
 
         return all_vars, new_file
 
-- 
2.43.0


From 1f55c783a687b043386b5ebb342899b0fb370805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 69/78] fix: get_files_in_order closes the files it has read

---
 pyconform/mapdates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index ce5adb1..f492fd2 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -280,6 +280,7 @@ def get_files_in_order(files, alignment=True):
         fn = os.path.basename(fl)
         f = ncdf.open_file(fl)
         ave, date = __get_time_info__(f, ncdf)
+        ncdf.close_file(f)
         date["fn"] = fn
         # files with the same average are told apart by their position
         date_info[(ave, len(date_info))] = date
-- 
2.43.0


From 5b4fc20d7d9e47a567cf59242e4eb0cb5fa83130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:42 +0000
Subject: [PATCH 70/78] fix: gaps between files whose names are one character
 long are reported

---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index f492fd2..f1eeb22 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -294,7 +294,7 @@ def get_files_in_order(files, alignment=True):
         counts.append(date_info[d]["cnt"])
 
     # If there are more than 1 files, make sure the dates are aligned correctly
-    if len(fl) > 1:
+    if len(files) > 1:
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
-- 
2.43.0


From 87d31995102c2c0a16ea2d0793a91f7633273174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 71/78] fix: axes of variables without a spatial shape are
 given by ParseXML

---
 pyconform/miptableparser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 2877b04..9d4710c 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -603,18 +603,6 @@ class ParseXML(object):
                                                     ].replace(
                                                         "grid_latitude", "gridlatitude"
                                                     )
-                                                dims = var["coordinates"].split("|")
-                                                for d in dims:
-                                                    if (
-                                                        d not in axes_list
-                                                        and d != ""
-                                                        and d != "None"
-                                                    ):
-                                                        if (
-                                                            "copy" not in var["id"]
-                                                            and "?" not in d
-                                                        ):
-                                                            axes_list.append(d)
 
                                     if "coordinates" in var.keys():
                                         if len(var["coordinates"]) > 1:
@@ -622,6 +610,18 @@ class ParseXML(object):
                                                 var["coordinates"] = var["coordinates"][
                                                     :-1
                                                 ]
+                                        dims = var["coordinates"].split("|")
+                                        for d in dims:
+                                            if (
+                                                d not in axes_list
+                                                and d != ""
+                                                and d != "None"
+                                            ):
+                                                if (
+                                                    "copy" not in var["id"]
+                                                    and "?" not in d
+                                                ):
+                                                    axes_list.append(d)
 
                                 # Set what we can from the variable section
                                 if hasattr(c_var, "vid"):
-- 
2.43.0


From 60ff2509d706e5ff1d2adea36c87702f798536a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:21 +0000
Subject: [PATCH 72/78] fix: variables of one name in several tables are all
 kept by ParseXML

---
 pyconform/cli/iconform.py   | 3 ++-
 pyconform/miptableparser.py | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 9b3d7fb..5cd6a3e 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -662,7 +662,8 @@ def create_output(
         var_list = {}
 
         # For each variable in the definition file, create a file entry in the spec and define it
-        for v, d in variables.items():
+        for key, d in variables.items():
+            v = key.split(":")[0]
             ts_key = None
             mip = d["mipTable"]
             if mip in definitions.keys():
diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 9d4710c..ca6887a 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -640,7 +640,13 @@ class ParseXML(object):
                                             var["units"] = v_var.units
 
                                 # Add variable to variable dictionary
-                                variables[c_var.label] = var
+                                key = c_var.label
+                                if (
+                                    key in variables
+                                    and variables[key]["mipTable"] != var["mipTable"]
+                                ):  # the variable of another table
+                                    key = key + ":" + var["mipTable"]
+                                variables[key] = var
                     for a in axes_list:
                         if "grid_latitude" in a:
                             a = "gridlatitude"
-- 
2.43.0


From 7559fb1c99f3074ea129ce08c0f145fa84a54f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:38 +0000
Subject: [PATCH 73/78] fix: deriv without coordinates along any axis

---
 pyconform/modules/idl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/idl.py b/pyconform/modules/idl.py
index 839e345..d077589 100644
--- a/pyconform/modules/idl.py
+++ b/pyconform/modules/idl.py
@@ -27,7 +27,7 @@ def deriv(x, y=None, axis=0):
     """
     if y is None:
         y1 = numpy.array(x)
-        x1 = numpy.arange(len(x), dtype=y1.dtype)
+        x1 = numpy.arange(y1.shape[axis], dtype=y1.dtype)
     else:
         y1 = numpy.array(y)
         x1 = numpy.array(x)
-- 
2.43.0


From d4590856bf8371a6bb59744b06d3c0a6a6c99329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:38 +0000
Subject: [PATCH 74/78] fix: splines of whole numbers are not truncated

---
 pyconform/modules/idl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/idl.py b/pyconform/modules/idl.py
index d077589..0e20566 100644
--- a/pyconform/modules/idl.py
+++ b/pyconform/modules/idl.py
@@ -94,8 +94,8 @@ def spl_init(x1, y1, axis=0):
     pu_b = numpy.einsum(sig, y1 - y0, 1.0 / ((x1 - x0) * (x2 - x0)))
     pu = pu_a - pu_b
 
-    b = numpy.empty_like(y1)
-    u = numpy.empty_like(y1)
+    b = numpy.empty_like(pu)
+    u = numpy.empty_like(pu)
 
     i0 = tuple(0 if i == axis else slice(None) for i in range(numpy.ndim(y1)))
     b[i0] = 0.0
-- 
2.43.0


From addd2f9c9f7571d2d56103432e161c6a8cecf28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 75/78] fix: get_files_in_order takes files with one or two
 time slices

---
 pyconform/mapdates.py | 110 +++++++++++++++++++++++++++++-------------
 1 file changed, 77 insertions(+), 33 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index f1eeb22..9ed1c9c 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -19,6 +19,38 @@ from . import climIO
 STANDARD_UNITS = "days since 1-1-1 0:0:0"
 
 
+def __get_time_period__(d1, d2, units, calendar):
+    """
+    Find the period of the time slices
+
+    Parameters:
+        d1 (float): The time of a slice
+        d2 (float): The time of the next slice
+        units (str): The units of the times
+        calendar (str): The calendar of the times
+
+    Returns:
+        t_per (str): The largest part of the date that differs
+    """
+    t1 = parser.parse(
+        str(cf_units.num2date(d1, units, calendar=calendar))
+    ).timetuple()
+    t2 = parser.parse(
+        str(cf_units.num2date(d2, units, calendar=calendar))
+    ).timetuple()
+    if t1[3] != t2[3]:
+        t_per = str(t2[3] - t1[3]) + "hour"
+    elif t1[2] != t2[2]:
+        t_per = "day"
+    elif t1[1] != t2[1]:
+        t_per = "mon"
+    elif t1[0] != t2[0]:
+        t_per = "year"
+    else:
+        t_per = "UNKNOWN"
+    return t_per
+
+
 def __get_time_info__(f, io):
     """
     Evaluates the time slices in the input files to verify
@@ -44,47 +76,28 @@ def __get_time_info__(f, io):
         # print 'Using bounds'
         tb = f.variables[att["bounds"]]
         j = len(tb)
-        d0 = tb[0, 0]
-        d1 = tb[1, 0]
-        d2 = tb[2, 0]
-        dn = tb[j - 1, 0]
         time = tb[:, 0]
     else:
         # print 'Using time'
         tb = f.variables["time"]
         j = len(tb)
-        d0 = tb[0]
-        d1 = tb[1]
-        d2 = tb[2]
-        dn = tb[j - 1]
         time = tb[:]
+    d0 = time[0]
+    dn = time[j - 1]
     date_info["time"] = time
 
-    # Get second and third time bounds to figure out the time period
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    # Get time difference between the steps
-    t_step = d2 - d1
-    h = t2[3] - t1[3]
-    if t1[3] != t2[3]:
-        t_per = str(h) + "hour"
-    elif t1[2] != t2[2]:
-        t_per = "day"
-    elif t1[1] != t2[1]:
-        t_per = "mon"
-    elif t1[0] != t2[0]:
-        t_per = "year"
+    # Get the time period and the difference between the steps
+    if j > 1:
+        # from the second and third time bounds, if there are that many
+        k = 1 if j > 2 else 0
+        d1, d2 = time[k], time[k + 1]
+        date_info["t_per"] = __get_time_period__(d1, d2, att["units"], att["calendar"])
+        date_info["t_step"] = d2 - d1
+        date_info["t_step_days"] = cal_unit.convert(
+            float(d2), stand_cal
+        ) - cal_unit.convert(float(d1), stand_cal)
     else:
-        t_per = "UNKNOWN"
-    date_info["t_per"] = t_per
-    date_info["t_step"] = t_step
-    date_info["t_step_days"] = cal_unit.convert(
-        float(d2), stand_cal
-    ) - cal_unit.convert(float(d1), stand_cal)
+        date_info["t_per"] = date_info["t_step"] = date_info["t_step_days"] = None
     # Get first and last dates
     # t0 = (parser.parse(str(cf_units.num2date(d0, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
@@ -171,7 +184,11 @@ def __check_date_alignment__(keys, date_info):
                 )
                 return 1
         else:
-            if abs(next_val - date_info[keys[i]]["t0"]) <= 1e-4 * abs(t_step):
+            step_i = date_info[keys[i]]["t_step_days"]
+            if (
+                abs(next_val - date_info[keys[i]]["t0"]) <= 1e-4 * abs(t_step)
+                and abs(step_i - t_step) <= 1e-4 * abs(t_step)
+            ):
                 # print "Looks
                 # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
                 prev_last = date_info[keys[i]]["tn"]
@@ -255,6 +272,31 @@ def __check_date_alignment_in_file__(date):
     return 0
 
 
+def __set_single_slices__(keys, date_info):
+    """
+    Set the period and step of files with a single time slice to that of the others
+
+    Parameters:
+        keys (list): A list of time slice references that are in correct time order.
+        date_info (dict): Contains file information, such as time period(t_per), time step(t_step),
+            first/last step(t0 and tn), slice counts(cnt).
+    """
+    steps = [date_info[k] for k in keys if date_info[k]["cnt"] > 1]
+    if len(steps) > 0:
+        t_per, t_step = steps[0]["t_per"], steps[0]["t_step_days"]
+    else:
+        # every file has one slice only
+        t1, t2 = date_info[keys[0]]["t0"], date_info[keys[1]]["t0"]
+        t_per = __get_time_period__(
+            t1, t2, STANDARD_UNITS, date_info[keys[0]]["calendar"]
+        )
+        t_step = t2 - t1
+    for k in keys:
+        if date_info[k]["cnt"] == 1:
+            date_info[k]["t_per"] = t_per
+            date_info[k]["t_step_days"] = t_step
+
+
 def get_files_in_order(files, alignment=True):
     """
     Examine the file list and put the files in
@@ -275,6 +317,7 @@ def get_files_in_order(files, alignment=True):
     date_info = {}
     counts = []
     file_list = []
+    error = 0
 
     for fl in files:
         fn = os.path.basename(fl)
@@ -295,6 +338,7 @@ def get_files_in_order(files, alignment=True):
 
     # If there are more than 1 files, make sure the dates are aligned correctly
     if len(files) > 1:
+        __set_single_slices__(sorted(date_info.keys()), date_info)
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
-- 
2.43.0


From 4332635241ec903641d167366255812a5aecbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:54 +0000
Subject: [PATCH 76/78] fix: an attribute file in a folder named like json is
 not JSON

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 5cd6a3e..0563edc 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -879,7 +879,7 @@ def main(argv=None):
     if args.globalAttrFile:
         for gaFile in args.globalAttrFile.split(","):
             if os.path.isfile(gaFile):
-                if "json" in gaFile:
+                if "json" in os.path.basename(gaFile):
                     print("opening ", gaFile)
                     with open(gaFile) as gaF:
                         ga = json.load(gaF)
-- 
2.43.0


From 63568bbc4c401db164c96b82e4680acb3f72ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 77/78] fix: get_files_in_order takes dates that other
 calendars do not have (30 February of the 360_day calendar)

---
 pyconform/mapdates.py | 67 +++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 9ed1c9c..e08ec8d 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -11,7 +11,6 @@ LICENSE: See the LICENSE.rst file for details
 import os
 
 import cf_units
-from dateutil import parser
 
 from . import climIO
 
@@ -32,12 +31,8 @@ def __get_time_period__(d1, d2, units, calendar):
     Returns:
         t_per (str): The largest part of the date that differs
     """
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, units, calendar=calendar))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, units, calendar=calendar))
-    ).timetuple()
+    t1 = cf_units.num2date(d1, units, calendar=calendar).timetuple()
+    t2 = cf_units.num2date(d2, units, calendar=calendar).timetuple()
     if t1[3] != t2[3]:
         t_per = str(t2[3] - t1[3]) + "hour"
     elif t1[2] != t2[2]:
@@ -139,14 +134,10 @@ def __check_date_alignment__(keys, date_info):
     t_step = date_info[keys[0]]["t_step_days"]
 
     if date_info[keys[0]]["t_per"] == "mon":
-        date = parser.parse(
-            str(
-                cf_units.num2date(
-                    date_info[keys[0]]["tn"],
-                    STANDARD_UNITS,
-                    calendar=date_info[keys[0]]["calendar"],
-                )
-            )
+        date = cf_units.num2date(
+            date_info[keys[0]]["tn"],
+            STANDARD_UNITS,
+            calendar=date_info[keys[0]]["calendar"],
         ).timetuple()
         next_val = 12 * date[0] + date[1] + 1
 
@@ -155,24 +146,16 @@ def __check_date_alignment__(keys, date_info):
 
     for i in range(1, len(keys)):
         if date_info[keys[i]]["t_per"] == "mon":
-            new_date = parser.parse(
-                str(
-                    cf_units.num2date(
-                        date_info[keys[i]]["t0"],
-                        STANDARD_UNITS,
-                        calendar=date_info[keys[i]]["calendar"],
-                    )
-                )
+            new_date = cf_units.num2date(
+                date_info[keys[i]]["t0"],
+                STANDARD_UNITS,
+                calendar=date_info[keys[i]]["calendar"],
             ).timetuple()
             if next_val == 12 * new_date[0] + new_date[1]:
-                date = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            date_info[keys[i]]["tn"],
-                            STANDARD_UNITS,
-                            calendar=date_info[keys[i]]["calendar"],
-                        )
-                    )
+                date = cf_units.num2date(
+                    date_info[keys[i]]["tn"],
+                    STANDARD_UNITS,
+                    calendar=date_info[keys[i]]["calendar"],
                 ).timetuple()
                 next_val = 12 * date[0] + date[1] + 1
             else:
@@ -225,21 +208,23 @@ def __check_date_alignment_in_file__(date):
     # between slices.
     if t_per == "mon":
         if t_per == "mon":
-            date1 = parser.parse(
-                str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
+            date1 = cf_units.num2date(
+                t[0],
+                date["units"],
+                calendar=date["calendar"],
             ).timetuple()
             next_val = 12 * date1[0] + date1[1] + 1
         for i in range(1, len(t)):
-            new_date = parser.parse(
-                str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
+            new_date = cf_units.num2date(
+                t[i],
+                date["units"],
+                calendar=date["calendar"],
             ).timetuple()
             if next_val == 12 * new_date[0] + new_date[1]:
-                date1 = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            t[i], date["units"], calendar=date["calendar"]
-                        )
-                    )
+                date1 = cf_units.num2date(
+                    t[i],
+                    date["units"],
+                    calendar=date["calendar"],
                 ).timetuple()
                 next_val = 12 * date1[0] + date1[1] + 1
             else:
-- 
2.43.0


From 713716d3b75e90f25cfd9232bef7ff4e71da844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:37 +0000
Subject: [PATCH 78/78] fix: functions that look for missing values as large
 numbers took masked values of any other fill value as data

---
 pyconform/modules/commonfunctions.py | 46 +++++++++++++++++-----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 290027c..96d262d 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -9,6 +9,16 @@ from pyconform.functions import Function, is_constant
 from pyconform.physarray import DimensionsError, PhysArray
 
 
+def filled(data):
+    """
+    Values of an array with the fill value of CMIP6 data (1e20) where data is missing
+    """
+    values = np.ma.asarray(data)
+    if np.ma.is_masked(values) and values.dtype.kind in "iu":
+        values = values.astype(float)
+    return values.filled(1e20)
+
+
 class ZonalMeanFunction(Function):
     key = "zonalmean"
 
@@ -68,7 +78,7 @@ class OclimFunction(Function):
             )
 
         dim_count = len(data.dimensions)
-        dataD = data.data
+        dataD = filled(data)
 
         for i in range(12):
             a[i, ...] = np.ma.mean(dataD[i::12, ...], axis=0)
@@ -238,7 +248,7 @@ class monthtoyear_noleapFunction(Function):
 
         dim_count = len(data.dimensions)
         time = data.data.shape[0]
-        dataD = data.data
+        dataD = filled(data)
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
@@ -531,7 +541,7 @@ class YeartoMonth_dataFunction(Function):
                 units=p_data.units,
             )
 
-        data = p_data.data
+        data = filled(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -587,7 +597,7 @@ class YeartoMonth_data3DFunction(Function):
                 units=p_data.units,
             )
 
-        data = p_data.data
+        data = filled(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -963,7 +973,7 @@ class POP_bottom_layer_multaddFunction(Function):
         p_data2 = self.arguments[2][index]
 
         data1 = p_data1.data
-        data2 = p_data2.data
+        data2 = filled(p_data2)
         KMT = p_KMT.data
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
@@ -1153,9 +1163,9 @@ class cice_regionsFunction(Function):
         p_siline = self.arguments[5][index]
         multiple = self.arguments[6]
 
-        aice = p_aice.data
-        uvel = p_uvel.data
-        vvel = p_vvel.data
+        aice = filled(p_aice)
+        uvel = filled(p_uvel)
+        vvel = filled(p_vvel)
         HTE = p_HTE.data
         HTN = p_HTN.data
         siline = p_siline.data
@@ -1328,7 +1338,7 @@ class burntFractionFunction(Function):
                 units=p_data.units,
             )
 
-        data = p_data.data
+        data = filled(p_data)
 
         ml = [31.0, 28.0, 31.0, 30.0, 31.0, 30.0, 31.0, 31.0, 30.0, 31.0, 30.0, 31.0]
 
@@ -1363,7 +1373,7 @@ class reduce_luFunction(Function):
         p_data = self.arguments[0][index]
         p_lu = self.arguments[1][index]
 
-        data = p_data.data
+        data = filled(p_data)
 
         data2 = np.ma.zeros((data.shape[0], 4, data.shape[2], data.shape[3]))
 
@@ -1406,9 +1416,9 @@ class get_soilpoolsFunction(Function):
         p_data3 = self.arguments[2][index]
         p_soilpool = self.arguments[3][index]
 
-        data1 = p_data1.data
-        data2 = p_data2.data
-        data3 = p_data3.data
+        data1 = filled(p_data1)
+        data2 = filled(p_data2)
+        data3 = filled(p_data3)
 
         data = np.ma.zeros((data1.shape[0], 3, data1.shape[1], data1.shape[2]))
 
@@ -1449,9 +1459,9 @@ class get_nonwoodyvegFunction(Function):
         p_landfrac = self.arguments[2][index]
         p_landUse = self.arguments[3][index]
 
-        pct_nat_pft = p_pct_nat_pft.data
-        pct_crop = p_pct_crop.data
-        landfrac = p_landfrac.data
+        pct_nat_pft = filled(p_pct_nat_pft)
+        pct_crop = filled(p_pct_crop)
+        landfrac = filled(p_landfrac)
 
         dimensions = [
             p_pct_nat_pft.dimensions[0],
@@ -1512,7 +1522,7 @@ class expand_latlonFunction(Function):
         p_lat = self.arguments[1][index]
         p_lon = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = filled(p_data1)
         lat = p_lat.data
         lon = p_lon.data
 
@@ -1549,7 +1559,7 @@ class ocean_basinFunction(Function):
         p_comp = self.arguments[1]
         p_basin = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = filled(p_data1)
         comp = int(p_comp)
         basin = p_basin.data
 
-- 
2.43.0

