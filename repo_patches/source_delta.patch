From 18e3d7b329183acdad2ea8076fa9744945dab0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 001/102] fix: detect floating-point dtypes without the removed
 numpy.float alias

DataNode and ReadNode raised AttributeError with numpy >= 1.24, so no data
flow could be built; the test is meant to upcast single-precision floats.
---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From e93ec79ba6827f9466af3d04640c2317d07bbdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 002/102] fix: load user modules with importlib in xconform

The imp module was removed in Python 3.12, so the xconform command-line tool
could not even be imported.
---
 pyconform/cli/xconform.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..10ad53d 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,9 +14,10 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
+from importlib.util import module_from_spec, spec_from_file_location
 from json import load as json_load
 from os.path import exists
+from sys import modules
 from warnings import simplefilter
 
 from asaptools.partition import Duplicate
@@ -27,6 +28,15 @@ from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
 from pyconform.flownodes import ValidationWarning
 
 
+def load_source(name, path):
+    """Load a user-defined Python module from a source file path"""
+    spec = spec_from_file_location(name, path)
+    module = module_from_spec(spec)
+    modules[name] = module
+    spec.loader.exec_module(module)
+    return module
+
+
 def chunk(arg):
     try:
         name, size_str = arg.split(",")
-- 
2.43.0


From 6b07734e0dc13c1da15af0243c4d8960785d3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 003/102] fix: do not use the removed numpy.long alias in
 climIO

Writing an integer variable raised AttributeError with numpy >= 1.24.
---
 pyconform/climIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e0a0697..322773c 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -312,7 +312,7 @@ class PyNioPort(object):
         import numpy as np
 
         if all_vars[var_name].typecode() == "i":
-            t = np.long
+            t = np.int_
         else:
             t = np.float32
 
@@ -563,7 +563,7 @@ class NetCDF4PyPort(object):
         import numpy as np
 
         if all_vars[var_name].datatype == "i":
-            t = np.long
+            t = np.int_
         else:
             t = np.float32
 
-- 
2.43.0


From c0e4a92cea33b048357c04850a6bf0b8d076fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 004/102] fix: keep the positive direction through unit
 conversion

PhysArray.convert returned an array without the positive attribute, so the
sign of data converted and then flipped or combined was wrong.
---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..838051a 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -217,7 +217,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From 6ecb6d8b5fd827bc60e14990e083098871b218c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 005/102] fix: do not truncate integer data in unit conversion

Converted values of integer arrays were cast back to the integer type, so
that, for instance, 25 W m-2 became 0 kW m-2.
---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 838051a..b4c4acc 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -206,8 +206,12 @@ class PhysArray(numpy.ma.MaskedArray):
         u1 = units1 if isinstance(units1, Unit) else Unit(units1)
         u2 = units2 if isinstance(units2, Unit) else Unit(units2)
         if isinstance(obj, PhysArray):
+            # Converted integers are generally not integers anymore
+            dtype = numpy.float64 if obj.dtype.kind in "iu" else obj.dtype
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=obj.dtype
+                units1.convert(obj.data.astype(dtype), units2),
+                mask=obj.mask,
+                dtype=dtype,
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
-- 
2.43.0


From 67beebc68743b0d523fa6575ad900f40fc9accd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 006/102] fix: convert zero-dimensional time references

cf_units fails on zero-dimensional arrays of time references, so a scalar
time could not be converted or combined.
---
 pyconform/physarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index b4c4acc..9911f83 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -208,8 +208,10 @@ class PhysArray(numpy.ma.MaskedArray):
         if isinstance(obj, PhysArray):
             # Converted integers are generally not integers anymore
             dtype = numpy.float64 if obj.dtype.kind in "iu" else obj.dtype
+            # Conversion of time references fails for zero-dimensional arrays
+            values = numpy.atleast_1d(obj.data.astype(dtype))
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data.astype(dtype), units2),
+                units1.convert(values, units2).reshape(obj.shape),
                 mask=obj.mask,
                 dtype=dtype,
             )
-- 
2.43.0


From e520ded31f3f25da62424c40eefb197aeb514673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 007/102] fix: do not flip an operand in place when combining
 directions

Adding, subtracting, multiplying or dividing arrays of opposite positive
direction negated the data of the second operand itself, because it was
flipped in place on a view that shares its data.
---
 pyconform/physarray.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 9911f83..bc83a49 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -443,7 +443,9 @@ class PhysArray(numpy.ma.MaskedArray):
             elif self.positive == "down":
                 other.down()
         else:
-            other.flip()
+            # Flipping works in place, and other can share its data with an operand
+            other = other.copy().flip()
+        return other
 
     def _check_inplace_(self, other):
         other = PhysArray(other)
@@ -461,8 +463,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __add__(self, other):
         result = PhysArray(self)
@@ -517,8 +518,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _mul_div_init_(self, other):
         other = self._broadcast_(PhysArray(other))
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __mul__(self, other):
         result = PhysArray(self)
-- 
2.43.0


From 64a0fd31ca7e5db7845c92915f304ef5db27bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 008/102] fix: average over several dimensions at once

The mean over more than one dimension reduced the wrong axis after the first
one (the axes shift) and averaged averages of unequal numbers of unmasked
points.
---
 pyconform/physarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index bc83a49..da72183 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -651,8 +651,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            if len(axis) > 0:
+                meanval = meanval.mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 198399ff36e2ac467a494c0b9daaef1f7824f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 009/102] fix: make the sum over named dimensions a sum

PhysArray.sum over a list of dimensions computed means, over shifted axes.
---
 pyconform/physarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index da72183..33c5886 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -683,8 +683,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            if len(axis) > 0:
+                sumval = sumval.sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 5789ec3186b45496ce65e3b12a57f3f89dcc84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 010/102] fix: sum over all dimensions given to the sum
 function

Only the first of the dimensions was summed over.
---
 pyconform/functions.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..4e98697 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -322,13 +322,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
-- 
2.43.0


From ad34385725758331df6d143a185a186019e0b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 011/102] fix: min and max reduce over exactly the dimensions
 given

They only worked on four-dimensional data, always dropped the name of the
second dimension whichever was reduced, used only the first dimension given,
and min announced no units.
---
 pyconform/functions.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 4e98697..1be1433 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -341,23 +341,21 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        indims = tuple(
+            data.dimensions.index(d) for d in dimensions if d in data.dimensions
+        )
+        new_dims = tuple(d for d in data.dimensions if d not in dimensions)
         new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(new_dims))
+        else:
+            m = np.ma.asarray(data).view(np.ma.MaskedArray).min(axis=indims)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
@@ -376,24 +374,21 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        indims = tuple(
+            data.dimensions.index(d) for d in dimensions if d in data.dimensions
+        )
+        new_dims = tuple(d for d in data.dimensions if d not in dimensions)
         new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(new_dims))
+        else:
+            m = np.ma.asarray(data).view(np.ma.MaskedArray).max(axis=indims)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
-- 
2.43.0


From c438c767d8351815f436665441c38d227431b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 012/102] fix: up and down functions do not negate their input
 in place

They worked on a view of the data of their argument, so that data given in
the specification changed sign with every request.
---
 pyconform/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 1be1433..7c14f70 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -401,7 +401,7 @@ class PositiveUpFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).up()
+        return PhysArray(data).copy().up()
 
 
 class PositiveDownFunction(Function):
@@ -413,7 +413,7 @@ class PositiveDownFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).down()
+        return PhysArray(data).copy().down()
 
 
 class ChangeUnitsFunction(Function):
-- 
2.43.0


From 33ab9945531a936fffb214a59dcc26aa050041d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 013/102] fix: limit function does not overwrite its input

The limits were assigned into a view of the data of the argument.
---
 pyconform/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 7c14f70..2080fe7 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -495,6 +495,8 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        data = PhysArray(data).copy()
+
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-- 
2.43.0


From 5ac3603e49dc6aeb9b9cde306dd11cb4af6fa16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 014/102] fix: negating a missing scalar keeps its units

The negation of a zero-dimensional masked array was the bare numpy masked
constant, without units, name and positive direction.
---
 pyconform/physarray.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 33c5886..7f42db3 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -505,6 +505,16 @@ class PhysArray(numpy.ma.MaskedArray):
         self.name = "({}-{})".format(self.name, other.name)
         return self
 
+    def __neg__(self):
+        # The base class returns the bare masked constant for a masked scalar
+        return PhysArray(
+            super(PhysArray, self).__neg__(),
+            name=self.name,
+            units=self.units,
+            dimensions=self.dimensions,
+            positive=self.positive,
+        )
+
     def _units_op_(self, val, op):
         sunits = self.units
         try:
-- 
2.43.0


From ac2369c5d313b1bce9098e3c63f6ef7116a50f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 015/102] fix: join negative second indices and empty first
 slices correctly

---
 pyconform/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index 843c71c..d30f4d8 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -139,7 +139,7 @@ def join(shape0, index1, index2):
         if isinstance(i1, slice):
             i2 = idx2_l.pop(0)
             start1, stop1, step1 = i1.indices(l0)
-            l1 = (abs(stop1 - start1) - 1) // abs(step1) + 1
+            l1 = len(range(start1, stop1, step1))
             if isinstance(i2, slice):
                 if (stop1 - start1) * step1 > 0:
                     start2, stop2, step2 = i2.indices(l1)
@@ -157,7 +157,7 @@ def join(shape0, index1, index2):
             else:
                 if i2 < -l1 or i2 >= l1:
                     raise IndexError("Second index out of range in array")
-                idx12.append(start1 + i2 * step1)
+                idx12.append(start1 + (i2 + l1 if i2 < 0 else i2) * step1)
         else:
             if i1 < -l0 or i1 >= l0:
                 raise IndexError("First index out of range in array")
-- 
2.43.0


From eb8fc98d28c768799e606fc63e02b604b55f58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 016/102] fix: selecting one element of an array keeps its
 units and direction

---
 pyconform/physarray.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 7f42db3..9fef695 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -377,8 +377,13 @@ class PhysArray(numpy.ma.MaskedArray):
                 d for i, d in zip(idx, self.dimensions) if isinstance(i, slice)
             )
             if dimensions != self.dimensions:
+                # Selecting a single element gives a bare scalar
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx), dimensions=dimensions
+                    super(PhysArray, self).__getitem__(idx),
+                    name=self.name,
+                    units=self.units,
+                    dimensions=dimensions,
+                    positive=self.positive,
                 )
             else:
                 return super(PhysArray, self).__getitem__(idx)
-- 
2.43.0


From d9f96433dba55c6b3edf1543cc6b4ee05d2d2ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 017/102] fix: report definitions that end too early as parsing
 errors

---
 pyconform/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/parsing.py b/pyconform/parsing.py
index f35f720..fdd4f7f 100644
--- a/pyconform/parsing.py
+++ b/pyconform/parsing.py
@@ -275,6 +275,8 @@ def p_expression_binary(p):
 
 
 def p_error(p):
+    if p is None:
+        raise TypeError("Parsing error at end of definition")
     raise TypeError("Parsing error at {!r}".format(p.value))
 
 
-- 
2.43.0


From 28cfa341bc8f3b67ec76c5c3057eb98b1ba039f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 018/102] fix: do not truncate limits on integer data

---
 pyconform/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 2080fe7..4d633c8 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -496,6 +496,10 @@ class LimitFunction(Function):
             return data
 
         data = PhysArray(data).copy()
+        if data.dtype.kind in "iu":
+            # Integer data cannot hold limits that are not integers
+            limits = [v for v in (above_val, below_val) if v is not None]
+            data = data.astype(np.result_type(data.dtype, *limits))
 
         above_str = ""
         if above_val is not None:
-- 
2.43.0


From 52843dba11adfea0fa9d566aaf0a7ff0cdebbdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 019/102] fix: mask exactly the data outside the valid range,
 also for bounds of zero

---
 pyconform/flownodes.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..46f147d 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,20 +542,22 @@ class ValidateNode(FlowNode):
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min:
-            dmin = numpy.min(indata)
-            if dmin < valid_min:
+        if valid_min not in (None, ""):
+            below = numpy.ma.filled(indata < valid_min, False)
+            if below.any():
+                dmin = numpy.min(indata)
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(below, indata)
 
         # Validate maximum
-        if valid_max:
-            dmax = numpy.max(indata)
-            if dmax > valid_max:
+        if valid_max not in (None, ""):
+            above = numpy.ma.filled(indata > valid_max, False)
+            if above.any():
+                dmax = numpy.max(indata)
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(above, indata)
 
         # Compute mean of the absolute value, if necessary
         if ok_min_mean_abs or ok_max_mean_abs:
-- 
2.43.0


From cd596a7defdb82bcbb68b9b9ff02802b832f9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 020/102] fix: honour mean-absolute-value limits of zero

---
 pyconform/flownodes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 46f147d..a8067d1 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -560,11 +560,13 @@ class ValidateNode(FlowNode):
                 indata = numpy.ma.masked_where(above, indata)
 
         # Compute mean of the absolute value, if necessary
-        if ok_min_mean_abs or ok_max_mean_abs:
+        check_min_mean_abs = ok_min_mean_abs not in (None, "")
+        check_max_mean_abs = ok_max_mean_abs not in (None, "")
+        if check_min_mean_abs or check_max_mean_abs:
             mean_abs = numpy.mean(numpy.abs(indata))
 
         # Validate minimum mean abs
-        if ok_min_mean_abs:
+        if check_min_mean_abs:
             if mean_abs < ok_min_mean_abs:
                 msg = "ok_min_mean_abs: {} < {} ({!r})".format(
                     mean_abs, ok_min_mean_abs, self.label
@@ -572,7 +574,7 @@ class ValidateNode(FlowNode):
                 warn(msg, ValidationWarning)
 
         # Validate maximum mean abs
-        if ok_max_mean_abs:
+        if check_max_mean_abs:
             if mean_abs > ok_max_mean_abs:
                 msg = "ok_max_mean_abs: {} > {} ({!r})".format(
                     mean_abs, ok_max_mean_abs, self.label
-- 
2.43.0


From 8c0075dadd5f1d9a18aa713646a0da6b53cd1825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 021/102] fix: allow chunking over the string length of text
 variables

---
 pyconform/flownodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a8067d1..d964a1a 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1011,7 +1011,10 @@ class WriteNode(FlowNode):
                 if repr(wchunk) not in vchunks[vname]:
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
-                        vdata = vdata.stretch(ncvar.shape[-1])
+                        # Pad to the part of the string length that is being written
+                        vdata = vdata.stretch(
+                            len(range(*wchunk[-1].indices(ncvar.shape[-1])))
+                        )
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From 0b77eab4ff8192f37964222edd9ca10469409853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 022/102] fix: keep the string length dimension of
 one-character text

---
 pyconform/dataflow.py | 4 ++++
 pyconform/datasets.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..91fddfd 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -110,6 +110,10 @@ class DataFlow(object):
                     vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
                 vunits = vdesc.cfunits()
                 vdims = tuple(vdesc.dimensions.keys())
+                if vdesc.datatype == "char" and vdata.dtype.itemsize == 1:
+                    # Strings of a single character have a length of one
+                    if len(vdims) == vdata.ndim + 1:
+                        vdata = vdata[..., numpy.newaxis]
                 varray = PhysArray(vdata, name=vname, units=vunits, dimensions=vdims)
                 datnodes[vname] = DataNode(varray)
         return datnodes
diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..d74e48c 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -850,6 +850,9 @@ class OutputDatasetDesc(DatasetDesc):
             if "dimensions" in vdict:
                 vdims = vdict["dimensions"]
                 sldim = vdims[-1] if vkwds["datatype"] == "char" else None
+                if vshape is not None and sldim and len(vdims) == len(vshape) + 1:
+                    # Strings of a single character have a length of one
+                    vshape = vshape + (1,)
                 if vshape is None:
                     vkwds["dimensions"] = tuple(
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
-- 
2.43.0


From bf3403fc82f8f2455169fd5c8d37cd6fb4c747c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 023/102] fix: index renamed dimensions by their new names

---
 pyconform/functions.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 4d633c8..8e2419b 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -18,6 +18,13 @@ def is_constant(arg):
     return isinstance(arg, (str, float, int)) or arg is None
 
 
+def find_sumlike_dimensions(node):
+    dims = set(getattr(node, "sumlike_dimensions", ()))
+    for inp in getattr(node, "inputs", ()):
+        dims.update(find_sumlike_dimensions(inp))
+    return dims
+
+
 def find(key, numargs=None):
     try:
         fop = find_operator(key, numargs=numargs)
@@ -540,19 +547,29 @@ class RenameDimensionsFunction(Function):
 
     def __init__(self, data, *dims):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
+        if not is_constant(data):
+            # Dimensions that the data sums over are known by new names from here
+            new_names = dict(zip(data[None].dimensions, dims))
+            sumlike = find_sumlike_dimensions(data)
+            self.add_sumlike_dimensions(*(new_names[d] for d in sumlike & set(new_names)))
 
     def __getitem__(self, index):
-        data = (
-            self.arguments[0]
-            if is_constant(self.arguments[0])
-            else self.arguments[0][index]
-        )
-        if len(self.arguments) == 1:
-            return data
+        data_r = self.arguments[0]
         dims = self.arguments[1:]
+        if is_constant(data_r) or len(dims) == 0:
+            return data_r if is_constant(data_r) else data_r[index]
+
+        old_dims = data_r[None].dimensions
+        new_names = dict(zip(old_dims, dims))
+        if isinstance(index, dict):
+            index = {
+                d: index[new_names.get(d, d)]
+                for d in old_dims
+                if new_names.get(d, d) in index
+            }
+        data = data_r[index]
+
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
-        new_dims = list(data.dimensions)
-        dlen = min(len(dims), len(new_dims))
-        new_dims[:dlen] = dims[:dlen]
+        new_dims = [new_names.get(d, d) for d in data.dimensions]
         return PhysArray(data, name=new_name, dimensions=new_dims)
-- 
2.43.0


From f960ee2350404be55cf9ce0b836e9dde274feff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 024/102] fix: limit leaves single values within the limits
 alone

---
 pyconform/functions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 8e2419b..0b396ce 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -9,7 +9,7 @@ from abc import ABCMeta, abstractmethod
 
 import numpy as np
 from cf_units import Unit
-from numpy.ma import sqrt, where
+from numpy.ma import sqrt
 
 from pyconform.physarray import PhysArray, UnitsError, getname
 
@@ -510,17 +510,15 @@ class LimitFunction(Function):
 
         above_str = ""
         if above_val is not None:
-            above_ind = where(data > above_val)
-            if len(above_ind) > 0:
-                data[above_ind] = above_val
-                above_str = ", above={}".format(above_val)
+            above_ind = np.ma.filled(data > above_val, False).astype(bool)
+            np.asarray(data)[above_ind] = above_val
+            above_str = ", above={}".format(above_val)
 
         below_str = ""
         if below_val is not None:
-            below_ind = where(data < below_val)
-            if len(below_ind) > 0:
-                data[below_ind] = below_val
-                below_str = ", below={}".format(below_val)
+            below_ind = np.ma.filled(data < below_val, False).astype(bool)
+            np.asarray(data)[below_ind] = below_val
+            below_str = ", below={}".format(below_val)
 
         new_name = "limit({}{}{})".format(data.name, above_str, below_str)
         return PhysArray(data, name=new_name)
-- 
2.43.0


From e53cc41370b9e17789a5d1a7a6b5a1d61ea8dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 025/102] fix: validate numbers declared as text and limits of
 missing scalars

---
 pyconform/flownodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index d964a1a..8a25c11 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -496,7 +496,8 @@ class ValidateNode(FlowNode):
             odtype = indata.dtype
         else:
             odtype = self._vdesc.dtype
-        if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
+        same_text = (indata.dtype.kind in "SU") == (odtype.kind in "SU")
+        if same_text and numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
             indata = indata.astype(odtype)
         else:
             raise TypeError(
@@ -563,7 +564,8 @@ class ValidateNode(FlowNode):
         check_min_mean_abs = ok_min_mean_abs not in (None, "")
         check_max_mean_abs = ok_max_mean_abs not in (None, "")
         if check_min_mean_abs or check_max_mean_abs:
-            mean_abs = numpy.mean(numpy.abs(indata))
+            present = numpy.ma.compressed(indata)
+            mean_abs = numpy.abs(present).mean() if present.size > 0 else numpy.ma.masked
 
         # Validate minimum mean abs
         if check_min_mean_abs:
-- 
2.43.0


From f0e8032c35d289f0cbbf19a73a9f3f73e332a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 026/102] fix: keep the type of single missing elements

---
 pyconform/flownodes.py | 4 ++++
 pyconform/physarray.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 8a25c11..b555349 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -261,6 +261,10 @@ class ReadNode(FlowNode):
 
             data = ncvar[index12]
 
+            # A single missing element is read without its type
+            if data is numpy.ma.masked and not {"scale_factor", "add_offset"} & set(attrs):
+                data = numpy.ma.masked_all((), dtype=ncvar.dtype)
+
             # Upconvert, if possible
             if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 9fef695..10cebcc 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -377,9 +377,9 @@ class PhysArray(numpy.ma.MaskedArray):
                 d for i, d in zip(idx, self.dimensions) if isinstance(i, slice)
             )
             if dimensions != self.dimensions:
-                # Selecting a single element gives a bare scalar
+                # Selecting a single element must not give a bare scalar
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx),
+                    super(PhysArray, self).__getitem__(tuple(idx) + (Ellipsis,)),
                     name=self.name,
                     units=self.units,
                     dimensions=dimensions,
-- 
2.43.0


From 3c3fb96357b498b67c95a0787e8c8cec6cdd6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 027/102] fix: variables with dimensions in another order are
 not the same

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index d74e48c..8007769 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -318,7 +318,7 @@ class VariableDesc(object):
             return False
         if self.datatype != other.datatype:
             return False
-        if self.dimensions.keys() != other.dimensions.keys():
+        if tuple(self.dimensions.keys()) != tuple(other.dimensions.keys()):
             return False
         return True
 
-- 
2.43.0


From 5e82a36a3760f032950a5ede20ed355212de54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 028/102] fix: build data flows without any defined variable

---
 pyconform/dataflow.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 91fddfd..26b3b6a 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -193,14 +193,9 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
-            )
-        )[1]
+        nodeorder = sorted(
+            definfos, key=lambda v: (len(self._ods.variables[v].dimensions), v)
+        )
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From ecbc4310ea351fb030408a8e0330002f64713895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 029/102] fix: files hold the bounds of their coordinate
 variables

---
 pyconform/datasets.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 8007769..77be6a5 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -947,9 +947,11 @@ class OutputDatasetDesc(DatasetDesc):
                         vlist[mvname] = vdesc
 
             # Loop through the current list of variables and check for any "bounds" or "coordinates" attributes
-            mvnames = set()
-            for vname in vlist:
-                vdesc = vlist[vname]
+            # (including those of the bounds and coordinates variables themselves)
+            mvnames = []
+            checked = list(vlist)
+            for vname in checked:
+                vdesc = variables[vname]
                 if "bounds" in vdesc.attributes:
                     mvname = vdesc.attributes["bounds"]
                     if mvname not in variables:
@@ -959,7 +961,7 @@ class OutputDatasetDesc(DatasetDesc):
                                 "found"
                             ).format(vdesc.name, mvname)
                         )
-                    mvnames.add(mvname)
+                    mvnames.append(mvname)
                 if "coordinates" in vdesc.attributes:
                     for mvname in vdesc.attributes["coordinates"].split():
                         if mvname not in variables:
@@ -969,7 +971,8 @@ class OutputDatasetDesc(DatasetDesc):
                                     "found"
                                 ).format(vdesc.name, mvname)
                             )
-                        mvnames.add(mvname)
+                        mvnames.append(mvname)
+                checked.extend(v for v in mvnames if v not in checked)
 
             # Add the bounds and coordinates to the list of variables
             for mvname in mvnames:
-- 
2.43.0


From b00c28511211d7f904b3fd6feb7049206270a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 030/102] fix: leave out only the files that need a variable
 without a definition

---
 pyconform/datasets.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 77be6a5..8c6b8cf 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -808,6 +808,7 @@ class OutputDatasetDesc(DatasetDesc):
         # Look over all variables in the dataset dictionary
         variables = OrderedDict()
         metavars = []
+        undefined = set()
         for vname, vdict in dsdict.items():
             vkwds = {}
 
@@ -844,6 +845,7 @@ class OutputDatasetDesc(DatasetDesc):
                     "{} Skipping output variable {}.".format(def_wrn, vname),
                     DefinitionWarning,
                 )
+                undefined.add(vname)
                 continue
 
             # Get the dimensions of the variable (REQUIRED)
@@ -922,6 +924,16 @@ class OutputDatasetDesc(DatasetDesc):
         filedescs = []
         for fname, fdict in files.items():
 
+            # Leave out files that need variables without a definition
+            vmissing = [v for v in fdict["variables"] if v in undefined]
+            if vmissing:
+                warn(
+                    "Skipping output file {} due to missing required variables: "
+                    "{}".format(fname, ", ".join(sorted(vmissing))),
+                    DefinitionWarning,
+                )
+                continue
+
             # Get the variable descriptors for each variable required to be in the file
             vlist = OrderedDict(
                 [(vname, variables[vname]) for vname in fdict["variables"]]
-- 
2.43.0


From 2b744ae1ff6a5eeb821d2f94766c1fd41f56401c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 031/102] fix: close and discard the incomplete file when
 writing fails

---
 pyconform/flownodes.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index b555349..1a7d0fa 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -9,7 +9,7 @@ LICENSE: See the LICENSE.rst file for details
 
 from collections import OrderedDict
 from datetime import datetime
-from os import makedirs, rename
+from os import makedirs, remove, rename
 from os.path import dirname, exists
 from warnings import warn
 
@@ -908,6 +908,21 @@ class WriteNode(FlowNode):
             if exists(tmp_fname):
                 rename(tmp_fname, self.label)
 
+    def _discard_(self):
+        """
+        Discard the incomplete file after a failure
+        """
+        self._idims = set()
+        if self._file is not None:
+            try:
+                self._file.close()
+            except Exception:
+                pass
+            self._file = None
+            tmp_fname = "{}{}".format(self.label, self._tmp_ext)
+            if exists(tmp_fname):
+                remove(tmp_fname)
+
     @staticmethod
     def _chunk_iter_(dsizes, chunks={}):
         if not isinstance(dsizes, OrderedDict):
@@ -982,7 +997,13 @@ class WriteNode(FlowNode):
                 dimension will be assumed to correspond to the slowest-varying index.)
             deflate (int): Override the output file deflate level with given value
         """
+        try:
+            self._execute_(chunks=chunks, deflate=deflate)
+        except BaseException:
+            self._discard_()
+            raise
 
+    def _execute_(self, chunks={}, deflate=None):
         # Open the file and write the header information
         self._open_(deflate=deflate)
 
-- 
2.43.0


From b927726308ba8cd3258c2f0735ac895ac8f0a9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 032/102] fix: reject chunk sizes that are not positive

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 26b3b6a..5ae6449 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -356,6 +356,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    "Chunk size must be positive for output dimension {!r}: {}".format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From 6a0f62966b53b6447c58746289cf5368df7d0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 033/102] fix: reject dimension maps that are not one-to-one
 when the data flow is built

---
 pyconform/dataflow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 5ae6449..893676d 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -208,7 +208,10 @@ class DataFlow(object):
             mapped_inp = tuple(o2imap[d] for d in out_dims if d in o2imap)
             unmapped_inp = tuple(d for d in inp_dims if d not in mapped_inp)
 
-            if len(unmapped_out) != len(unmapped_inp):
+            consistent = len(out_dims) == len(inp_dims) and not any(
+                d in i2omap for d in unmapped_inp
+            )
+            if len(unmapped_out) != len(unmapped_inp) or not consistent:
                 map_str = ", ".join("{}-->{}".format(k, i2omap[k]) for k in i2omap)
                 err_msg = (
                     "Cannot map dimensions {} to dimensions {} in output variable {} "
-- 
2.43.0


From e8274cc572d74776486a3780b86ac3d220755b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 034/102] fix: reject data of size one for a dimension of
 another size

---
 pyconform/flownodes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 1a7d0fa..d6bafb4 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1042,6 +1042,16 @@ class WriteNode(FlowNode):
                         vdata = vdata.stretch(
                             len(range(*wchunk[-1].indices(ncvar.shape[-1])))
                         )
+                    for d, n in zip(vdesc.dimensions, vdata.shape):
+                        if self._filedesc.dimensions[d].unlimited:
+                            continue
+                        if n != len(range(*chunk[d].indices(gdims[d]))):
+                            raise IndexError(
+                                (
+                                    "Data of variable {!r} do not fit the size of "
+                                    "dimension {!r} in file {!r}"
+                                ).format(vname, d, self.label)
+                            )
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From d6696488611d6ee07ee605340ec17c5e5358a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 035/102] fix: refuse to transpose the string length of text
 given as a list of names

---
 pyconform/physarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 10cebcc..d74bf95 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -811,7 +811,9 @@ class CharArray(PhysArray):
         return new_self
 
     def transpose(self, *dims):
-        if set(dims) == set(self.dimensions) and dims[-1] != self.dimensions[-1]:
+        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
+            dims = tuple(dims[0])
+        if len(dims) > 0 and dims[-1] not in (self.dimensions[-1], self.ndim - 1):
             raise DimensionsError(
                 "The last dimension of a CharArray must always be the string length. "
                 "Cannot transpose."
-- 
2.43.0


From a20dfa2ce9b8f124dc0b120469039c2cf2480544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 036/102] fix: read text with a declared encoding as characters

---
 pyconform/flownodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index d6bafb4..4bf3e74 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -259,6 +259,8 @@ class ReadNode(FlowNode):
             # Compute the joined index object
             index12 = join(shape0, index1, index2)
 
+            # Read text as the characters that it is made of
+            ncvar.set_auto_chartostring(False)
             data = ncvar[index12]
 
             # A single missing element is read without its type
-- 
2.43.0


From 376994ae2bf8a3035d041540c4f41af4dd806460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 037/102] fix: cast data to the declared type after converting
 their units

---
 pyconform/flownodes.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 4bf3e74..e3c2076 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -497,15 +497,15 @@ class ValidateNode(FlowNode):
         # Get the data to validate
         indata = self.inputs[0][index]
 
-        # Check datatype, and cast as necessary
+        # Check datatype
         if self._vdesc.dtype is None:
             odtype = indata.dtype
         else:
             odtype = self._vdesc.dtype
         same_text = (indata.dtype.kind in "SU") == (odtype.kind in "SU")
-        if same_text and numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
-            indata = indata.astype(odtype)
-        else:
+        if not same_text or not numpy.can_cast(
+            indata.dtype, odtype, casting="same_kind"
+        ):
             raise TypeError(
                 ("Cannot cast datatype {!s} to {!s} in ValidateNode " "{!r}").format(
                     indata.dtype, odtype, self.label
@@ -529,6 +529,14 @@ class ValidateNode(FlowNode):
                         )
                         raise err.__class__(err_msg)
 
+        # Cast as necessary, once the units are right
+        if self._vdesc.dtype is None:
+            odtype = indata.dtype
+        elif odtype.kind in "iu" and indata.dtype.kind == "f":
+            indata = indata.copy()
+            numpy.rint(indata.data, out=indata.data)
+        indata = indata.astype(odtype)
+
         # Check that the dimensions match as expected
         if self.dimensions != indata.dimensions:
             indata = indata.transpose(self.dimensions)
-- 
2.43.0


From 69bf1738ecd7a2b80a6b59518aa9896573025228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 038/102] fix: convert the units of times with missing points

---
 pyconform/physarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d74bf95..0e272b2 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -210,6 +210,8 @@ class PhysArray(numpy.ma.MaskedArray):
             dtype = numpy.float64 if obj.dtype.kind in "iu" else obj.dtype
             # Conversion of time references fails for zero-dimensional arrays
             values = numpy.atleast_1d(obj.data.astype(dtype))
+            # What lies under missing points may be out of range of any date
+            values[numpy.atleast_1d(numpy.ma.getmaskarray(obj))] = 0
             new_array = numpy.ma.MaskedArray(
                 units1.convert(values, units2).reshape(obj.shape),
                 mask=obj.mask,
-- 
2.43.0


From 1d5e219fcfb41652ed45290dbbe7460f42a934f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 039/102] fix: accept input variables stored in the other byte
 order

---
 pyconform/datasets.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 8c6b8cf..1c5ee8b 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -249,9 +249,13 @@ class VariableDesc(object):
         elif isinstance(datatype, str) and datatype in VariableDesc._NTYPES_:
             self._ntype = datatype
             self._dtype = VariableDesc._DTYPES_[VariableDesc._NTYPES_.index(datatype)]
-        elif isinstance(datatype, dtype) and datatype in VariableDesc._DTYPES_:
-            self._ntype = VariableDesc._NTYPES_[VariableDesc._DTYPES_.index(datatype)]
-            self._dtype = datatype
+        elif (
+            isinstance(datatype, dtype)
+            and datatype.newbyteorder("=") in VariableDesc._DTYPES_
+        ):
+            # The order of the bytes in a file does not make another type
+            self._dtype = datatype.newbyteorder("=")
+            self._ntype = VariableDesc._NTYPES_[VariableDesc._DTYPES_.index(self._dtype)]
         else:
             raise TypeError(
                 "Invalid variable datatype {} for variable {}".format(datatype, name)
-- 
2.43.0


From 253673cfa4651eede2da02cba5eca796225f276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 040/102] fix: leave files whose dates are mapped untouched and
 closed

---
 pyconform/climIO.py   | 2 +-
 pyconform/mapdates.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 322773c..9bb9f87 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -347,7 +347,7 @@ class NetCDF4PyPort(object):
         Returns:
             open_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
-        open_file = netCDF4.Dataset(file_name, "r+")
+        open_file = netCDF4.Dataset(file_name, "r")
         return open_file
 
     def read_slice(self, open_file, var, index, all_values=False):
diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..87fc03c 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -280,7 +280,10 @@ def get_files_in_order(files, alignment=True):
     for fl in files:
         fn = os.path.basename(fl)
         f = ncdf.open_file(fl)
-        ave, date = __get_time_info__(f, ncdf)
+        try:
+            ave, date = __get_time_info__(f, ncdf)
+        finally:
+            ncdf.close_file(f)
         date["fn"] = fn
         date_info[ave] = date
         if alignment:
-- 
2.43.0


From 6123d83452ba0c39f875498415a78df9cd889fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 041/102] fix: list all files with the same dates when mapping
 dates

---
 pyconform/mapdates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 87fc03c..cd98a07 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -276,6 +276,7 @@ def get_files_in_order(files, alignment=True):
     date_info = {}
     counts = []
     file_list = []
+    error = 0
 
     for fl in files:
         fn = os.path.basename(fl)
@@ -285,7 +286,8 @@ def get_files_in_order(files, alignment=True):
         finally:
             ncdf.close_file(f)
         date["fn"] = fn
-        date_info[ave] = date
+        # More than one file may have the same average
+        date_info[(ave, len(date_info))] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
@@ -296,7 +298,7 @@ def get_files_in_order(files, alignment=True):
         counts.append(date_info[d]["cnt"])
 
     # If there are more than 1 files, make sure the dates are aligned correctly
-    if len(fl) > 1:
+    if len(files) > 1:
         error = __check_date_alignment__(sorted(date_info.keys()), date_info)
         if error != 0:
             return file_list, counts, error
-- 
2.43.0


From 0ed713dfdfc1b8fdb973eb08b1386dd24ac65a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 042/102] fix: find gaps between time steps by dates in all
 calendars and units

---
 pyconform/mapdates.py | 261 ++++++++++++++++--------------------------
 1 file changed, 99 insertions(+), 162 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index cd98a07..a0e97d7 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -11,7 +11,7 @@ LICENSE: See the LICENSE.rst file for details
 import os
 
 import cf_units
-from dateutil import parser
+import numpy
 
 from . import climIO
 
@@ -35,61 +35,43 @@ def __get_time_info__(f, io):
     """
     date_info = {}
     _tc, _dim, att = io.get_var_info(f, "time")
-    stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=att["calendar"])
-    cal_unit = cf_units.Unit(att["units"], calendar=att["calendar"])
+    calendar = att.get("calendar", "standard")
+    stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=calendar)
+    cal_unit = cf_units.Unit(att["units"], calendar=calendar)
+    # A step is dated by its beginning, if it is known
     if "bounds" in att.keys():
-        # print 'Using bounds'
-        tb = f.variables[att["bounds"]]
-        j = len(tb)
-        d0 = tb[0, 0]
-        d1 = tb[1, 0]
-        d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
-        time = tb[:, 0]
+        tb = f.variables[att["bounds"]][:, 0]
     else:
-        # print 'Using time'
-        tb = f.variables["time"]
-        j = len(tb)
-        d0 = tb[0]
-        d1 = tb[1]
-        d2 = tb[2]
-        dn = tb[j - 1]
-        time = tb[:]
+        tb = f.variables["time"][:]
+    # Files may count their time from different dates and in different units
+    time = cal_unit.convert(numpy.ma.filled(tb).astype(numpy.float64), stand_cal)
     date_info["time"] = time
 
     # Get second and third time bounds to figure out the time period
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, att["units"], calendar=att["calendar"]))
-    ).timetuple()
+    date_info["units"] = stand_cal.origin
+    date_info["calendar"] = calendar
+    t1, t2 = __get_dates__(date_info, time[1:3])
     # Get time difference between the steps
-    t_step = d2 - d1
-    h = t2[3] - t1[3]
-    if t1[3] != t2[3]:
-        t_per = str(h) + "hour"
-    elif t1[2] != t2[2]:
+    t_step = time[2] - time[1]
+    if t1.hour != t2.hour:
+        t_per = str(t2.hour - t1.hour) + "hour"
+    elif t1.day != t2.day:
         t_per = "day"
-    elif t1[1] != t2[1]:
+    elif t1.month != t2.month:
         t_per = "mon"
-    elif t1[0] != t2[0]:
+        t_step = __get_month__(t2) - __get_month__(t1)
+    elif t1.year != t2.year:
         t_per = "year"
+        t_step = t2.year - t1.year
     else:
         t_per = "UNKNOWN"
     date_info["t_per"] = t_per
     date_info["t_step"] = t_step
     # Get first and last dates
-    # t0 = (parser.parse(str(cf_units.num2date(d0, att['units'],
-    #                                          calendar=att['calendar']))).timetuple())
-    # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
-    #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
-    date_info["cnt"] = j
+    date_info["t0"] = time[0]
+    date_info["tn"] = time[-1]
+    date_info["cnt"] = len(time)
     average = (date_info["t0"] + date_info["tn"]) / 2
-    date_info["units"] = att["units"]
-    date_info["calendar"] = att["calendar"]
 
     # Check to see if the number of slices matches how many should be in the
     # date range
@@ -106,6 +88,62 @@ def __get_time_info__(f, io):
     return average, date_info
 
 
+def __get_dates__(info, times):
+    """
+    Finds the dates of times, to the second.
+
+    Parameters:
+        info (dict): Contains the units and calendar of the times.
+        times (list): Times, in days.
+
+    Returns:
+        dates (list): The dates.
+    """
+    # Times just before a full hour, day, month or year are rounding errors
+    half_second = 0.5 / 86400
+    return cf_units.num2date(
+        numpy.asarray(times) + half_second, info["units"], calendar=info["calendar"]
+    )
+
+
+def __get_month__(date):
+    """
+    Numbers the months of all years consecutively.
+
+    Parameters:
+        date (datetime): A date.
+
+    Returns:
+        month (int): The number of the month.
+    """
+    return date.year * 12 + date.month
+
+
+def __is_next__(info, previous, time):
+    """
+    Evaluates whether a time follows another one by exactly one time step.
+
+    Parameters:
+        info (dict): Contains the time period (t_per), time step (t_step), units and
+            calendar of the times.
+        previous (float): The time before.
+        time (float): The time to evaluate.
+
+    Returns:
+        is_next (bool): Whether it is one time step after the time before.
+    """
+    if time <= previous:
+        return False
+    # The lengths of months and years are not uniform
+    if info["t_per"] in ("mon", "year"):
+        t0, t1 = __get_dates__(info, [previous, time])
+        if info["t_per"] == "mon":
+            return __get_month__(t1) - __get_month__(t0) == info["t_step"]
+        return t1.year - t0.year == info["t_step"]
+    # All other time periods have the same length, but for rounding errors
+    return abs(time - previous - info["t_step"]) <= 1e-3 * abs(info["t_step"])
+
+
 def __check_date_alignment__(keys, date_info):
     """
     Evaluates the dates between files to verify that
@@ -116,69 +154,16 @@ def __check_date_alignment__(keys, date_info):
         date_info (dict): Contains file information, such as time period(t_per), time step(t_step),
             first/last step(t0 and tn), slice counts(cnt).
     """
-    prev_last = date_info[keys[0]]["tn"]
-    t_step = date_info[keys[0]]["t_step"]
-
-    if date_info[keys[0]]["t_per"] == "mon":
-        date = parser.parse(
-            str(
-                cf_units.num2date(
-                    date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
-                    calendar=date_info[keys[0]]["calendar"],
-                )
+    for prev, key in zip(keys, keys[1:]):
+        tn, t0 = date_info[prev]["tn"], date_info[key]["t0"]
+        if not all(__is_next__(date_info[k], tn, t0) for k in (prev, key)):
+            print(
+                "Disconnect? After: ",
+                tn,
+                " Got: ",
+                t0,
             )
-        ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
-
-    else:
-        next_val = prev_last + t_step
-
-    for i in range(1, len(keys)):
-        if date_info[keys[i]]["t_per"] == "mon":
-            new_date = parser.parse(
-                str(
-                    cf_units.num2date(
-                        date_info[keys[i]]["t0"],
-                        date_info[keys[i]]["units"],
-                        calendar=date_info[keys[i]]["calendar"],
-                    )
-                )
-            ).timetuple()
-            if next_val == new_date[1]:
-                date = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
-                            calendar=date_info[keys[i]]["calendar"],
-                        )
-                    )
-                ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
-            else:
-                print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
-                return 1
-        else:
-            if next_val == date_info[keys[i]]["t0"]:
-                # print "Looks
-                # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
-                prev_last = date_info[keys[i]]["tn"]
-                next_val = prev_last + t_step
-            else:
-                print(
-                    "Disconnect? Expected: ",
-                    next_val,
-                    " Got: ",
-                    date_info[keys[i]]["t0"],
-                )
-                return 1
+            return 1
 
     return 0
 
@@ -193,66 +178,18 @@ def __check_date_alignment_in_file__(date):
                           first/last step(t0 and tn), slice counts(cnt).
 
     """
-    t_step = date["t_step"]
-    t_per = date["t_per"]
     t = date["time"]
-    prev_time = t[0]
-
-    # If the time period in monthly, then the time difference between slices is not uniform and
-    # requires looking into the month length array to get correct day #'s
-    # between slices.
-    if t_per == "mon":
-        if t_per == "mon":
-            date1 = parser.parse(
-                str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
-        for i in range(1, len(t)):
-            new_date = parser.parse(
-                str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if next_val == new_date[1]:
-                date1 = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            t[i], date["units"], calendar=date["calendar"]
-                        )
-                    )
-                ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
-            else:
-                print(
-                    "Disconnect? Expected: ",
-                    next_val,
-                    " Got: ",
-                    new_date[1],
-                    " around time step: ",
-                    i,
-                )
-                return 1
-    # All other time periods should have the same number of days between
-    # slices.
-    else:
-        for i in range(1, len(t)):
-            if prev_time + t_step == t[i]:
-                # Time step looks okay
-                prev_time = t[i]
-            else:
-                print(
-                    "Disconnect? Expected: ",
-                    str(prev_time + t_step),
-                    " Got: ",
-                    t[i],
-                    " around time step: ",
-                    i,
-                )
-                return 1
+    for i in range(1, len(t)):
+        if not __is_next__(date, t[i - 1], t[i]):
+            print(
+                "Disconnect? After: ",
+                t[i - 1],
+                " Got: ",
+                t[i],
+                " around time step: ",
+                i,
+            )
+            return 1
     return 0
 
 
-- 
2.43.0


From e5be434c9e964443a0119f03845ddeb171ae6447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 043/102] fix: derivative on the default grid along other axes
 than the first

---
 pyconform/modules/idl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/idl.py b/pyconform/modules/idl.py
index 839e345..d077589 100644
--- a/pyconform/modules/idl.py
+++ b/pyconform/modules/idl.py
@@ -27,7 +27,7 @@ def deriv(x, y=None, axis=0):
     """
     if y is None:
         y1 = numpy.array(x)
-        x1 = numpy.arange(len(x), dtype=y1.dtype)
+        x1 = numpy.arange(y1.shape[axis], dtype=y1.dtype)
     else:
         y1 = numpy.array(y)
         x1 = numpy.array(x)
-- 
2.43.0


From 813bd0fe79f85083712448feb4a1a34c4dd0c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 044/102] fix: spline of integer data

---
 pyconform/modules/idl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/idl.py b/pyconform/modules/idl.py
index d077589..bce1d6e 100644
--- a/pyconform/modules/idl.py
+++ b/pyconform/modules/idl.py
@@ -94,8 +94,8 @@ def spl_init(x1, y1, axis=0):
     pu_b = numpy.einsum(sig, y1 - y0, 1.0 / ((x1 - x0) * (x2 - x0)))
     pu = pu_a - pu_b
 
-    b = numpy.empty_like(y1)
-    u = numpy.empty_like(y1)
+    b = numpy.empty_like(y1, dtype=numpy.result_type(y1, pu))
+    u = numpy.empty_like(y1, dtype=numpy.result_type(y1, pu))
 
     i0 = tuple(0 if i == axis else slice(None) for i in range(numpy.ndim(y1)))
     b[i0] = 0.0
-- 
2.43.0


From f6dc2ba5df91182399ef062c694a0bbee83a1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 045/102] fix: meridional shear of the DynVarMIP diagnostics on
 the sphere

---
 pyconform/modules/dynvarmipdiags.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipdiags.py b/pyconform/modules/dynvarmipdiags.py
index 0beb83d..d03d654 100644
--- a/pyconform/modules/dynvarmipdiags.py
+++ b/pyconform/modules/dynvarmipdiags.py
@@ -73,7 +73,9 @@ def utendvtem(time, levi, lat, uzm, vzm, vthzm, thzm):
     utendvtem = numpy.zeros(uzm.shape, dtype="d")
     for itime in range(ntime):
         ucos = numpy.einsum("ij...,j->ij...", uzm[itime, ...], coslat)
-        dudphi = deriv(latrad, ucos, axis=1) / a
+        dudphi = numpy.einsum(
+            "ij...,j->ij...", deriv(latrad, ucos, axis=1), 1.0 / (a * coslat)
+        )
         utendvtem[itime, ...] = _vtem[itime, ...] * (f - dudphi)
     return utendvtem
 
@@ -130,7 +132,9 @@ def _init_epfz(time, levi, lat, uzm, uwzm, vthzm, thzm):
     epfz = numpy.zeros(uzm.shape, dtype="d")
     for itime in range(ntime):
         ucos = numpy.einsum("ij...,j->ij...", uzm[itime, ...], coslat)
-        dudphi = deriv(latrad, ucos, axis=1) / a
+        dudphi = numpy.einsum(
+            "ij...,j->ij...", deriv(latrad, ucos, axis=1), 1.0 / (a * coslat)
+        )
         dthdp = deriv(levi100, thzm[itime, ...])
         psieddy = vthzm[itime, ...] / dthdp
         epfz[itime, ...] = a * numpy.einsum(
-- 
2.43.0


From a0d0f90fce4e284fb3dfc05676d5d319ab7e0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 046/102] fix: units of the advective wind tendencies

---
 pyconform/modules/dynvarmipfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index 4f75675..c3bfd46 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -53,7 +53,7 @@ class utendwtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, wzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendwtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
@@ -75,7 +75,7 @@ class utendvtemDynVarMIPFunction(DynVarMIPFunction):
             time, lev, lat, uzm, vzm, vthzm, thzm
         )
         self._dynvarmip_func = dvmd.utendvtem
-        self._units = "m s-1 d-1"
+        self._units = "m s-2"
         self._positive = None
 
 
-- 
2.43.0


From 717fc9e5f6e16616fd631054f1518de0d1ad9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 047/102] fix: missing values in DynVarMIP diagnostics

---
 pyconform/modules/dynvarmipfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index c3bfd46..fc6ecbe 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -24,7 +24,9 @@ class DynVarMIPFunction(Function):
     def __getitem__(self, index):
         args = [np.ma.asarray(arg[index]) for arg in self.arguments]
         arg_names = ",".join([arg.name for arg in args])
-        data = self._dynvarmip_func(*args)
+        # Anything computed from a missing value is not a number
+        values = [np.ma.filled(arg.astype(np.float64), np.nan) for arg in args]
+        data = np.ma.masked_invalid(self._dynvarmip_func(*values))
         name = "{}({})".format(self.key, arg_names)
         return PhysArray(
             data,
-- 
2.43.0


From 98a6c459c80a93798d56796ebeef69a9ce10d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 048/102] fix: keep columns and meridians whole for DynVarMIP
 diagnostics

---
 pyconform/modules/dynvarmipfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/modules/dynvarmipfunctions.py b/pyconform/modules/dynvarmipfunctions.py
index fc6ecbe..11a29c1 100644
--- a/pyconform/modules/dynvarmipfunctions.py
+++ b/pyconform/modules/dynvarmipfunctions.py
@@ -17,6 +17,8 @@ class DynVarMIPFunction(Function):
 
     def __init__(self, time, lev, lat, *args):
         super(DynVarMIPFunction, self).__init__(time, lev, lat, *args)
+        # Derivatives and integrals need whole columns and meridians
+        self.add_sumlike_dimensions(*(lev[None].dimensions + lat[None].dimensions))
         self._dynvarmip_func = None
         self._units = None
         self._positive = None
-- 
2.43.0


From 82f58c533e40fe0de90ec7f9493108804602c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 049/102] fix: bounds from the whole coordinate, for integer
 and reversed coordinates too

Bounds of a piece of a coordinate were computed from that piece alone, so that
cells at the edges of a piece did not meet their neighbors (or failed for one
point), interface data failed for pieces, and half spacings of integer
coordinates were truncated.
---
 pyconform/modules/commonfunctions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7edc5f1..e69a919 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -6,6 +6,7 @@ import numpy as np
 from numpy import diff, empty, mean
 
 from pyconform.functions import Function, is_constant
+from pyconform.indexing import align_index
 from pyconform.physarray import DimensionsError, PhysArray
 
 
@@ -378,7 +379,8 @@ class BoundsFunction(Function):
             # self.add_sumlike_dimensions(idata_info.dimensions[0])
 
     def __getitem__(self, index):
-        data = self.arguments[0][index]
+        # Cells depend on the neighboring points, so use the whole coordinate
+        data = self.arguments[0][None if index is None else slice(None)]
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
@@ -386,6 +388,8 @@ class BoundsFunction(Function):
         new_data = PhysArray(
             data * bnds, name="bounds({})".format(data.name), units=data.units
         )
+        if new_data.dtype.kind in "iu":
+            new_data = new_data.astype(float)
         if index is None:
             return new_data
 
@@ -406,16 +410,12 @@ class BoundsFunction(Function):
                 new_data[1:, 0] = data.data[1:] - dx
                 if self._mod_end:
                     new_data[0, 0] = data.data[0] - dx[0]
-            return new_data
 
         else:
-            ddim = data.dimensions[0]
-            dslice = index[ddim] if ddim in index else slice(None)
-            islice = slice(None, None, dslice.step)
-            idata = self.keywords["idata"][islice]
+            idata = self.keywords["idata"][:]
 
             ifc_len = len(data) + 1
-            ifc_data = empty(ifc_len, dtype=data.dtype)
+            ifc_data = empty(ifc_len, dtype=new_data.dtype)
             if len(idata) == ifc_len:
                 ifc_data[:] = idata.data[:]
             elif len(idata) == ifc_len - 2:
@@ -438,7 +438,11 @@ class BoundsFunction(Function):
             new_data[:, 0] = ifc_data[:-1]
             new_data[:, 1] = ifc_data[1:]
 
-        return new_data
+        # Return the requested cells, swapping their edges if in reverse order
+        dslice = align_index(index, data.dimensions)[0]
+        if isinstance(dslice, slice) and dslice.step is not None and dslice.step < 0:
+            new_data = new_data[:, ::-1]
+        return new_data[dslice]
 
 
 class AgeofAirFunction(Function):
-- 
2.43.0


From 818ec7aee04f556709339d3c103dadae95b82f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 050/102] fix: whole numbers of years, months and rows in
 monthtoyear, hemisphere and ageofair

Divisions that gave integers in Python 2 made monthtoyear_noleap* and hemisphere
fail and dates be split into fractions of years in ageofair.
---
 pyconform/modules/commonfunctions.py | 30 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e69a919..f95a3c7 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -225,12 +225,12 @@ class monthtoyear_noleapFunction(Function):
 
         if len(data.dimensions) == 3:
             a = np.ma.zeros(
-                (data.data.shape[0] / 12, data.data.shape[1], data.data.shape[2])
+                (data.data.shape[0] // 12, data.data.shape[1], data.data.shape[2])
             )
         elif len(data.dimensions) == 4:
             a = np.ma.zeros(
                 (
-                    data.data.shape[0] / 12,
+                    data.data.shape[0] // 12,
                     data.data.shape[1],
                     data.data.shape[2],
                     data.data.shape[3],
@@ -243,7 +243,7 @@ class monthtoyear_noleapFunction(Function):
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             a[i, ...] = np.ma.average(
                 dataD[start : start + 12, ...], axis=0, weights=days_in_month
@@ -294,9 +294,9 @@ class monthtoyear_noleap_timeFunction(Function):
 
         time_bnds = p_time_bnds.data
 
-        b = np.zeros((time_bnds.shape[0] / 12))
+        b = np.zeros((time_bnds.shape[0] // 12))
         time = time_bnds.shape[0]
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             end = (i * 12) + 11
             b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
@@ -333,9 +333,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
             )
 
         time_bound = p_time_bound.data
-        b = np.zeros((time_bound.shape[0] / 12, 2))
+        b = np.zeros((time_bound.shape[0] // 12, 2))
 
-        for i in range(len(time_bound) / 12):
+        for i in range(len(time_bound) // 12):
             b[i][0] = time_bound[i * 12][0] - 365
             b[i][1] = time_bound[(i * 12) + 11][1] - 365
         new_name = "monthtoyear_noleap_timebnds({})".format(p_time_bound.name)
@@ -478,8 +478,8 @@ class AgeofAirFunction(Function):
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
-        year = date / 10000
-        month = date / 100 % 100
+        year = date // 10000
+        month = date // 100 % 100
         # day = date - 10000 * year - 100 * month
 
         month = month - 1
@@ -1054,21 +1054,21 @@ class hemisphereFunction(Function):
         # dim0?
         if dim in p_data.dimensions[0]:
             if ">" in dr:
-                return p_data[(data.shape[0] / 2) : data.shape[0], :, :]
+                return p_data[(data.shape[0] // 2) : data.shape[0], :, :]
             elif "<" in dr:
-                return p_data[0 : (data.shape[0] / 2), :, :]
+                return p_data[0 : (data.shape[0] // 2), :, :]
         # dim1?
         if dim in p_data.dimensions[1]:
             if ">" in dr:
-                return p_data[:, (data.shape[1] / 2) : data.shape[1], :]
+                return p_data[:, (data.shape[1] // 2) : data.shape[1], :]
             elif "<" in dr:
-                return p_data[:, 0 : (data.shape[1] / 2), :]
+                return p_data[:, 0 : (data.shape[1] // 2), :]
         # dim2?
         if dim in p_data.dimensions[2]:
             if ">" in dr:
-                return p_data[:, :, (data.shape[2] / 2) : data.shape[2]]
+                return p_data[:, :, (data.shape[2] // 2) : data.shape[2]]
             elif "<" in dr:
-                return p_data[:, :, 0 : (data.shape[2] / 2)]
+                return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
 class cice_whereFunction(Function):
-- 
2.43.0


From 00a3054678406b09f66accad82a9b2c4f09ac2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 051/102] fix: missing points in the functions of
 commonfunctions

Values below masked points were used as data unless they exceeded 1e16 and
results of missing data were returned unmasked; cice_regions replaced missing
velocities in its input arrays; POP_bottom_layer took the last level on land.
---
 pyconform/modules/commonfunctions.py | 66 +++++++++++++++++-----------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index f95a3c7..6ba39fc 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -10,6 +10,14 @@ from pyconform.indexing import align_index
 from pyconform.physarray import DimensionsError, PhysArray
 
 
+def _filled(array):
+    """
+    Values of an array with 1e20 (read as missing by many functions here) where masked
+    """
+    data = array.data if array.dtype.kind == "f" else array.data.astype(float)
+    return np.where(np.ma.getmaskarray(array), 1e20, data)
+
+
 class ZonalMeanFunction(Function):
     key = "zonalmean"
 
@@ -69,7 +77,7 @@ class OclimFunction(Function):
             )
 
         dim_count = len(data.dimensions)
-        dataD = data.data
+        dataD = _filled(data)
 
         for i in range(12):
             a[i, ...] = np.ma.mean(dataD[i::12, ...], axis=0)
@@ -239,7 +247,7 @@ class monthtoyear_noleapFunction(Function):
 
         dim_count = len(data.dimensions)
         time = data.data.shape[0]
-        dataD = data.data
+        dataD = _filled(data)
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
@@ -526,7 +534,7 @@ class YeartoMonth_dataFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _filled(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -581,7 +589,7 @@ class YeartoMonth_data3DFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _filled(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -699,14 +707,20 @@ class POP_bottom_layerFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _filled(p_data)
         KMT = p_KMT.data
 
         a = np.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
 
         for j in range(KMT.shape[0]):
             for i in range(KMT.shape[1]):
-                a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                if KMT[j, i] > 0:
+                    a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                else:
+                    a[:, j, i] = 1e20
+
+        a[a >= 1e16] = 1e20
+        a = np.ma.masked_values(a, 1e20)
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
@@ -937,7 +951,7 @@ class POP_bottom_layer_multaddFunction(Function):
         p_data2 = self.arguments[2][index]
 
         data1 = p_data1.data
-        data2 = p_data2.data
+        data2 = _filled(p_data2)
         KMT = p_KMT.data
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
@@ -947,7 +961,7 @@ class POP_bottom_layer_multaddFunction(Function):
             for j in range(KMT.shape[0]):
                 for i in range(KMT.shape[1]):
                     k = KMT[j, i] - 1
-                    if data2[t, k, j, i] < 1e16:
+                    if k >= 0 and data2[t, k, j, i] < 1e16:
                         a1[t, j, i] = data1[k] * data2[t, k, j, i]
                         # print a1[t,j,i],data1[k],data2[t,k,j,i]
         for t in range(p_data2.shape[0]):
@@ -1029,9 +1043,7 @@ class masked_invalidFunction(Function):
                 ],
             )
 
-        data = p_data.data
-
-        a = np.ma.masked_invalid(data)
+        a = np.ma.masked_invalid(p_data)
 
         new_name = "masked_invalid({})".format(p_data.name)
 
@@ -1129,9 +1141,9 @@ class cice_regionsFunction(Function):
         p_siline = self.arguments[5][index]
         multiple = self.arguments[6]
 
-        aice = p_aice.data
-        uvel = p_uvel.data
-        vvel = p_vvel.data
+        aice = _filled(p_aice)
+        uvel = _filled(p_uvel)
+        vvel = _filled(p_vvel)
         HTE = p_HTE.data
         HTN = p_HTN.data
         siline = p_siline.data
@@ -1303,7 +1315,7 @@ class burntFractionFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _filled(p_data)
 
         ml = [31.0, 28.0, 31.0, 30.0, 31.0, 30.0, 31.0, 31.0, 30.0, 31.0, 30.0, 31.0]
 
@@ -1321,6 +1333,7 @@ class burntFractionFunction(Function):
             if i == 12:
                 i = 1
         a[a >= 1e16] = 1e20
+        a = np.ma.masked_values(a, 1e20)
         new_name = "burntFraction({})".format(p_data.name)
 
         return PhysArray(a, name=new_name, units=p_data.units)
@@ -1336,7 +1349,7 @@ class reduce_luFunction(Function):
         p_data = self.arguments[0][index]
         p_lu = self.arguments[1][index]
 
-        data = p_data.data
+        data = _filled(p_data)
 
         data2 = np.ma.zeros((data.shape[0], 4, data.shape[2], data.shape[3]))
 
@@ -1350,6 +1363,7 @@ class reduce_luFunction(Function):
                         data[t, 6, x, y] + data[t, 7, x, y] + data[t, 8, x, y]
                     )
         data2[data2 >= 1e16] = 1e20
+        data2 = np.ma.masked_values(data2, 1e20)
 
         new_name = "reduce_lu({}{})".format(p_data.name, p_lu.name)
         return PhysArray(
@@ -1379,9 +1393,9 @@ class get_soilpoolsFunction(Function):
         p_data3 = self.arguments[2][index]
         p_soilpool = self.arguments[3][index]
 
-        data1 = p_data1.data
-        data2 = p_data2.data
-        data3 = p_data3.data
+        data1 = _filled(p_data1)
+        data2 = _filled(p_data2)
+        data3 = _filled(p_data3)
 
         data = np.ma.zeros((data1.shape[0], 3, data1.shape[1], data1.shape[2]))
 
@@ -1422,9 +1436,9 @@ class get_nonwoodyvegFunction(Function):
         p_landfrac = self.arguments[2][index]
         p_landUse = self.arguments[3][index]
 
-        pct_nat_pft = p_pct_nat_pft.data
-        pct_crop = p_pct_crop.data
-        landfrac = p_landfrac.data
+        pct_nat_pft = _filled(p_pct_nat_pft)
+        pct_crop = _filled(p_pct_crop)
+        landfrac = _filled(p_landfrac)
 
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
@@ -1480,7 +1494,7 @@ class expand_latlonFunction(Function):
         p_lat = self.arguments[1][index]
         p_lon = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = _filled(p_data1)
         lat = p_lat.data
         lon = p_lon.data
 
@@ -1517,7 +1531,7 @@ class ocean_basinFunction(Function):
         p_comp = self.arguments[1]
         p_basin = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = np.ma.masked_greater_equal(_filled(p_data1), 1e16)
         comp = int(p_comp)
         basin = p_basin.data
 
@@ -1611,8 +1625,8 @@ class emilnoxFunction(Function):
         hybi = np.flip(p_hybi.data)
         hyam = p_hyam.data
         hybm = p_hybm.data
-        temp = p_T.data
-        lno_prod = p_LNO_PROD.data
+        temp = p_T.view(np.ma.MaskedArray)
+        lno_prod = p_LNO_PROD.view(np.ma.MaskedArray)
         lon = p_lon.data
         lat = p_lat.data
         timex = p_time.data
-- 
2.43.0


From 61298694d254fae882d1921dfb3b4fabc02e25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 052/102] fix: dimensions and units announced and returned by
 functions of commonfunctions

Several functions returned data without dimensions or with other dimensions than
announced (ageofair, POP_bottom_layer, burntFraction, get_nonwoodyveg, delp, rho,
masked_invalid), or announced no units.
---
 pyconform/modules/commonfunctions.py | 86 +++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 6ba39fc..de957e0 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -474,6 +474,7 @@ class AgeofAirFunction(Function):
                     p_lev.dimensions[0],
                     p_lat.dimensions[0],
                 ],
+                units="yr",
             )
 
         spc_zm = p_spc_zm.data
@@ -509,7 +510,16 @@ class AgeofAirFunction(Function):
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
         )
 
-        return PhysArray(a, name=new_name, units="yr")
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_time.dimensions[0],
+                p_lev.dimensions[0],
+                p_lat.dimensions[0],
+            ],
+            units="yr",
+        )
 
 
 class YeartoMonth_dataFunction(Function):
@@ -532,6 +542,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = _filled(p_data)
@@ -587,6 +598,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = _filled(p_data)
@@ -705,6 +717,7 @@ class POP_bottom_layerFunction(Function):
                     p_data.dimensions[2],
                     p_data.dimensions[3],
                 ],
+                units=p_data.units,
             )
 
         data = _filled(p_data)
@@ -724,7 +737,16 @@ class POP_bottom_layerFunction(Function):
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[2],
+                p_data.dimensions[3],
+            ],
+            units=p_data.units,
+        )
 
 
 class diff_axis1_ind0bczero_4dFunction(Function):
@@ -843,7 +865,11 @@ class POP_surf_meanFunction(Function):
         p_FIELD = self.arguments[2][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         TAREA = p_TAREA.data
@@ -879,7 +905,11 @@ class POP_3D_meanFunction(Function):
         p_FIELD = self.arguments[3][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+            )
 
         KMT = p_KMT.data
         dz = p_dz.data
@@ -917,7 +947,9 @@ class sftofFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0)), dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]]
+                np.zeros((0, 0)),
+                dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]],
+                units=p_KMT.units,
             )
 
         KMT = p_KMT.data
@@ -1034,14 +1066,7 @@ class masked_invalidFunction(Function):
         p_data = self.arguments[0][index]
 
         if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[
-                    p_data.dimensions[0],
-                    p_data.dimensions[1],
-                    p_data.dimensions[2],
-                ],
-            )
+            return p_data
 
         a = np.ma.masked_invalid(p_data)
 
@@ -1100,6 +1125,7 @@ class cice_whereFunction(Function):
             return PhysArray(
                 a1.data,
                 dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
+                units=var.units,
             )
 
         a = np.ma.zeros(a1.shape)
@@ -1313,6 +1339,7 @@ class burntFractionFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
             )
 
         data = _filled(p_data)
@@ -1336,7 +1363,9 @@ class burntFractionFunction(Function):
         a = np.ma.masked_values(a, 1e20)
         new_name = "burntFraction({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a, name=new_name, dimensions=p_data.dimensions, units=p_data.units
+        )
 
 
 class reduce_luFunction(Function):
@@ -1440,12 +1469,21 @@ class get_nonwoodyvegFunction(Function):
         pct_crop = _filled(p_pct_crop)
         landfrac = _filled(p_landfrac)
 
+        if index is None:
+            return PhysArray(
+                np.zeros((0, 0, 0, 0)),
+                dimensions=[
+                    p_pct_nat_pft.dimensions[0],
+                    p_landUse.dimensions[0],
+                    p_pct_nat_pft.dimensions[2],
+                    p_pct_nat_pft.dimensions[3],
+                ],
+                units=p_pct_nat_pft.units,
+            )
+
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
         )
-        if index is None:
-            return data
-
         data[:, 0, :, :] = (
             pct_nat_pft[:, 12, :, :]
             + pct_nat_pft[:, 13, :, :]
@@ -1476,8 +1514,8 @@ class get_nonwoodyvegFunction(Function):
             dimensions=[
                 p_pct_nat_pft.dimensions[0],
                 p_landUse.dimensions[0],
-                p_pct_nat_pft.dimensions[1],
                 p_pct_nat_pft.dimensions[2],
+                p_pct_nat_pft.dimensions[3],
             ],
             units=p_pct_nat_pft.units,
         )
@@ -1617,6 +1655,7 @@ class emilnoxFunction(Function):
                     p_PS.dimensions[1],
                     p_PS.dimensions[2],
                 ],
+                units="mol s-1",
             )
 
         p0 = p_PO.data
@@ -1745,8 +1784,9 @@ class delpFunction(Function):
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[p_PS.dimensions[0], p_PS.dimensions[1], p_PS.dimensions[2]],
+                np.zeros((0, 0, 0, 0)),
+                dimensions=p_hyai.dimensions + p_PS.dimensions,
+                units="Pa",
             )
 
         PO = p_PO
@@ -1795,6 +1835,7 @@ class rhoFunction(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="cm-3",
             )
 
         PO = p_PO
@@ -1804,7 +1845,7 @@ class rhoFunction(Function):
         t = p_T
 
         p = (hyam * PO) + (hybm * PS)
-        rho = p / (287.04 * t)
+        rho = (p / (287.04 * t)).transpose(t.dimensions)
 
         new_name = "rho({}{}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name
@@ -1836,6 +1877,7 @@ class pm25Function(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="kg/kg",
             )
 
         PO = p_PO
@@ -1846,7 +1888,7 @@ class pm25Function(Function):
         PM25_o = p_PM25_o
 
         p = (hyam * PO) + (hybm * PS)
-        pm25 = PM25_o * 287.0 * t / p
+        pm25 = (PM25_o * 287.0 * t / p).transpose(t.dimensions)
 
         new_name = "pm25({}{}{}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name, p_PM25_o.name
-- 
2.43.0


From b2ae16034cfe87f2b8448f5247d2def4b2f4d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 053/102] fix: length of January after the first year in
 burntFraction

---
 pyconform/modules/commonfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index de957e0..68e737e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1358,7 +1358,7 @@ class burntFractionFunction(Function):
                         a[t, x, y] = 1e20
             i += 1
             if i == 12:
-                i = 1
+                i = 0
         a[a >= 1e16] = 1e20
         a = np.ma.masked_values(a, 1e20)
         new_name = "burntFraction({})".format(p_data.name)
-- 
2.43.0


From 649d221216d5318a6689b205a03c7c423251a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 054/102] fix: cice_where with a time-dependent variable

---
 pyconform/modules/commonfunctions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 68e737e..0d31dbd 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1130,16 +1130,17 @@ class cice_whereFunction(Function):
 
         a = np.ma.zeros(a1.shape)
         for t in range(a1.data.shape[0]):
+            v = var[t] if var.ndim == a1.ndim else var
             if ">=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, v, value)
             elif "<=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, v, value)
             elif "==" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, v, value)
             elif "<" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, v, value)
             elif ">" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, v, value)
 
         new_name = "cice_where()".format()
         return PhysArray(
-- 
2.43.0


From 127b4b9094126168f77cb5cb3a515d3f539fe57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 055/102] fix: name of the bounds dimension given to
 oclim_timebnds and monthtoyear_noleap_timebnds

The argument was ignored; the name used until now stays the default.
---
 pyconform/modules/commonfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 0d31dbd..7c32a17 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -145,8 +145,8 @@ class oclim_timeFunction(Function):
 class oclim_timebndsFunction(Function):
     key = "oclim_timebnds"
 
-    def __init__(self, time, bdim="bnds"):
-        super(oclim_timebndsFunction, self).__init__(time, bdim="d2")
+    def __init__(self, time, bdim="d2"):
+        super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -323,8 +323,8 @@ class monthtoyear_noleap_timeFunction(Function):
 class monthtoyear_noleap_timebndsFunction(Function):
     key = "monthtoyear_noleap_timebnds"
 
-    def __init__(self, time_bound, bdim="bnds"):
-        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim="d2")
+    def __init__(self, time_bound, bdim="d2"):
+        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
-- 
2.43.0


From 4ba78da07b965e4496af0c2021905792a560816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 056/102] fix: pressures in delp, rho and pm25

Pressures in other units than Pa were used as they are, missing points of the
surface pressure were lost and the functions of atm_funcs failed to combine
levels with surface pressures.
---
 pyconform/modules/atm_funcs.py       | 50 +++++++++-------------------
 pyconform/modules/commonfunctions.py | 12 +++----
 2 files changed, 21 insertions(+), 41 deletions(-)

diff --git a/pyconform/modules/atm_funcs.py b/pyconform/modules/atm_funcs.py
index 99dd5a8..a7774c7 100644
--- a/pyconform/modules/atm_funcs.py
+++ b/pyconform/modules/atm_funcs.py
@@ -30,31 +30,24 @@ class delpFunction(Function):
                     p_PS.dimensions[1],
                     p_PS.dimensions[2],
                 ],
+                units="Pa",
             )
 
-        PO = p_PO.data
-        PS = p_PS.data
-        hyai = p_hyai.data
-        hybi = p_hybi.data
-
-        p = (hyai * PO) + (hybi * PS)
-        j = len(hybi)
-        delp = np.ma.zeros(
-            (
-                p_PS.dimensions[0],
-                p_hybi.dimensions[0],
-                p_PS.dimensions[1],
-                p_PS.dimensions[2],
-            )
+        p = ((p_hyai * p_PO) + (p_hybi * p_PS)).convert("Pa")
+        p = p.transpose(
+            p_PS.dimensions[0],
+            p_hybi.dimensions[0],
+            p_PS.dimensions[1],
+            p_PS.dimensions[2],
         )
-        for i in range(0, j - 1):
-            delp[:, i, :, :] = p[:, i + 1, :, :] - p[:, i, :, :]
+        delp = PhysArray(np.zeros(p.shape), units="Pa", dimensions=p.dimensions)
+        delp[:, :-1] = p[:, 1:] - p[:, :-1]
 
         new_name = "delp({}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyai.name, p_hybi.name
         )
 
-        return PhysArray(delp, name=new_name, units="Pa")
+        return PhysArray(delp, name=new_name)
 
 
 class rhoFunction(Function):
@@ -79,16 +72,11 @@ class rhoFunction(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="cm-3",
             )
 
-        PO = p_PO.data
-        PS = p_PS.data
-        hyam = p_hyam.data
-        hybm = p_hybm.data
-        T = p_T.data
-
-        p = (hyam * PO) + (hybm * PS)
-        rho = p / (287.04 * T)
+        p = ((p_hyam * p_PO) + (p_hybm * p_PS)).convert("Pa")
+        rho = (p / (287.04 * p_T)).transpose(p_T.dimensions)
 
         new_name = "rho({}{}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name
@@ -120,17 +108,11 @@ class pm25Function(Function):
                     p_T.dimensions[2],
                     p_T.dimensions[3],
                 ],
+                units="kg/kg",
             )
 
-        PO = p_PO.data
-        PS = p_PS.data
-        hyam = p_hyam.data
-        hybm = p_hybm.data
-        T = p_T.data
-        PM25_o = p_PM25_o.data
-
-        p = (hyam * PO) + (hybm * PS)
-        pm25 = PM25_o * 287.0 * T / p
+        p = ((p_hyam * p_PO) + (p_hybm * p_PS)).convert("Pa")
+        pm25 = (p_PM25_o * 287.0 * p_T / p).transpose(p_T.dimensions)
 
         new_name = "pm25({}{}{}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyam.name, p_hybm.name, p_T.name, p_PM25_o.name
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7c32a17..ce73534 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1795,8 +1795,7 @@ class delpFunction(Function):
         hyai = p_hyai
         hybi = p_hybi
 
-        p = (hyai * PO) + (hybi * PS)
-        j = len(hybi)
+        p = ((hyai * PO) + (hybi * PS)).convert("Pa")
 
         delp = PhysArray(
             np.zeros(hyai.shape + PS.shape),
@@ -1804,14 +1803,13 @@ class delpFunction(Function):
             units="Pa",
             dimensions=hyai.dimensions + PS.dimensions,
         )
-        for i in range(0, j - 1):
-            delp.data[i, :, :, :] = p.data[i + 1, :, :, :] - p.data[i, :, :, :]
+        delp[:-1] = p[1:] - p[:-1]
 
         new_name = "delp({}{}{}{})".format(
             p_PO.name, p_PS.name, p_hyai.name, p_hybi.name
         )
 
-        return PhysArray(delp, name=new_name, units="Pa")
+        return PhysArray(delp, name=new_name)
 
 
 class rhoFunction(Function):
@@ -1845,7 +1843,7 @@ class rhoFunction(Function):
         hybm = p_hybm
         t = p_T
 
-        p = (hyam * PO) + (hybm * PS)
+        p = ((hyam * PO) + (hybm * PS)).convert("Pa")
         rho = (p / (287.04 * t)).transpose(t.dimensions)
 
         new_name = "rho({}{}{}{}{})".format(
@@ -1888,7 +1886,7 @@ class pm25Function(Function):
         t = p_T
         PM25_o = p_PM25_o
 
-        p = (hyam * PO) + (hybm * PS)
+        p = ((hyam * PO) + (hybm * PS)).convert("Pa")
         pm25 = (PM25_o * 287.0 * t / p).transpose(t.dimensions)
 
         new_name = "pm25({}{}{}{}{}{})".format(
-- 
2.43.0


From 817c19bd52682a08de316ee3eac568a8961a46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 057/102] fix: functions needing whole dimensions evaluated in
 pieces

Climatologies, yearly means, sums over layers or areas, differences between
levels and functions building a dimension of fixed size gave other results when
the output was written in pieces along these dimensions; burntFraction took the
first month of every piece for January.
---
 pyconform/modules/atm_funcs.py       |  1 +
 pyconform/modules/commonfunctions.py | 50 +++++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/atm_funcs.py b/pyconform/modules/atm_funcs.py
index a7774c7..0e710df 100644
--- a/pyconform/modules/atm_funcs.py
+++ b/pyconform/modules/atm_funcs.py
@@ -14,6 +14,7 @@ class delpFunction(Function):
 
     def __init__(self, p_PO, p_PS, p_hyai, p_hybi):
         super(delpFunction, self).__init__(p_PO, p_PS, p_hyai, p_hybi)
+        self.add_sumlike_dimensions(*p_hyai[None].dimensions)
 
     def __getitem__(self, index):
         p_PO = self.arguments[0][index]
diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index ce73534..4a0e70c 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -26,6 +26,7 @@ class ZonalMeanFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("mean: Data must be a PhysArray")
+        self.add_sumlike_dimensions(*data_info.dimensions[3:4])
 
     def __getitem__(self, index):
         data = self.arguments[0][index]
@@ -40,6 +41,7 @@ class OclimFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("oclim: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[0])
 
     def __getitem__(self, index):
 
@@ -113,6 +115,7 @@ class oclim_timeFunction(Function):
 
     def __init__(self, time_bnds):
         super(oclim_timeFunction, self).__init__(time_bnds)
+        self.add_sumlike_dimensions(*time_bnds[None].dimensions)
 
     def __getitem__(self, index):
         p_time_bnds = self.arguments[0][index]
@@ -147,6 +150,7 @@ class oclim_timebndsFunction(Function):
 
     def __init__(self, time, bdim="d2"):
         super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
+        self.add_sumlike_dimensions(time[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -202,6 +206,7 @@ class monthtoyear_noleapFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("monthtoyear_noleap: Data must be a PhysArray")
+        self.add_sumlike_dimensions(data_info.dimensions[0])
 
     def __getitem__(self, index):
 
@@ -288,6 +293,7 @@ class monthtoyear_noleap_timeFunction(Function):
 
     def __init__(self, time_bnds):
         super(monthtoyear_noleap_timeFunction, self).__init__(time_bnds)
+        self.add_sumlike_dimensions(*time_bnds[None].dimensions)
 
     def __getitem__(self, index):
         p_time_bnds = self.arguments[0][index]
@@ -325,6 +331,7 @@ class monthtoyear_noleap_timebndsFunction(Function):
 
     def __init__(self, time_bound, bdim="d2"):
         super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
+        self.add_sumlike_dimensions(*time_bound[None].dimensions)
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
@@ -458,6 +465,9 @@ class AgeofAirFunction(Function):
 
     def __init__(self, spc_zm, date, time, lat, lev):
         super(AgeofAirFunction, self).__init__(spc_zm, date, time, lat, lev)
+        self.add_sumlike_dimensions(
+            *(d for x in (time, lat, lev) for d in x[None].dimensions)
+        )
 
     def __getitem__(self, index):
         p_spc_zm = self.arguments[0][index]
@@ -527,6 +537,7 @@ class YeartoMonth_dataFunction(Function):
 
     def __init__(self, data, time, lat, lon):
         super(YeartoMonth_dataFunction, self).__init__(data, time, lat, lon)
+        self.add_sumlike_dimensions(time[None].dimensions[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -581,6 +592,7 @@ class YeartoMonth_data3DFunction(Function):
 
     def __init__(self, data, time, lat, lon, v):
         super(YeartoMonth_data3DFunction, self).__init__(data, time, lat, lon, v)
+        self.add_sumlike_dimensions(time[None].dimensions[0])
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -643,6 +655,7 @@ class YeartoMonth_timeFunction(Function):
 
     def __init__(self, time):
         super(YeartoMonth_timeFunction, self).__init__(time)
+        self.add_sumlike_dimensions(time[None].dimensions[0])
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -704,6 +717,7 @@ class POP_bottom_layerFunction(Function):
 
     def __init__(self, KMT, data):
         super(POP_bottom_layerFunction, self).__init__(KMT, data)
+        self.add_sumlike_dimensions(data[None].dimensions[1])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -759,6 +773,9 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             raise TypeError("diff_axis1_ind0bczero_4d: data must be a PhysArray")
         if len(data_info.dimensions) != 4:
             raise DimensionsError("diff_axis1_ind0bczero_4d: data can only be 4D")
+        self.add_sumlike_dimensions(
+            data_info.dimensions[1], *new_coord_var[None].dimensions
+        )
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -806,6 +823,7 @@ class rsdoabsorbFunction(Function):
             raise TypeError("rsdoabsorb: QSW_3D must be a PhysArray")
         if len(QSW_3D_info.dimensions) != 4:
             raise DimensionsError("rsdoabsorb: QSW_3D can only be 4D")
+        self.add_sumlike_dimensions(QSW_3D_info.dimensions[1], *z_t[None].dimensions)
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -858,6 +876,7 @@ class POP_surf_meanFunction(Function):
             raise TypeError("POP_surf_mean: FIELD must be a PhysArray")
         if len(FIELD_info.dimensions) != 3:
             raise DimensionsError("POP_surf_mean: FIELD can only be 3D")
+        self.add_sumlike_dimensions(*FIELD_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -897,6 +916,7 @@ class POP_3D_meanFunction(Function):
             raise TypeError("POP_3D_mean: FIELD must be a PhysArray")
         if len(FIELD_info.dimensions) != 4:
             raise DimensionsError("POP_3D_mean: FIELD can only be 4D")
+        self.add_sumlike_dimensions(*FIELD_info.dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -976,6 +996,7 @@ class POP_bottom_layer_multaddFunction(Function):
 
     def __init__(self, KMT, data1, data2):
         super(POP_bottom_layer_multaddFunction, self).__init__(KMT, data1, data2)
+        self.add_sumlike_dimensions(*data2[None].dimensions[1:])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -1014,6 +1035,7 @@ class POP_layer_sum_multFunction(Function):
 
     def __init__(self, KMT, data1, data2):
         super(POP_layer_sum_multFunction, self).__init__(KMT, data1, data2)
+        self.add_sumlike_dimensions(data2[None].dimensions[1])
 
     def __getitem__(self, index):
         p_KMT = self.arguments[0][index]
@@ -1080,6 +1102,7 @@ class hemisphereFunction(Function):
 
     def __init__(self, data, dim="dim", dr="dr"):
         super(hemisphereFunction, self).__init__(data, dim=dim, dr=dr)
+        self.add_sumlike_dimensions(*(d for d in data[None].dimensions if dim in d))
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1158,6 +1181,9 @@ class cice_regionsFunction(Function):
         super(cice_regionsFunction, self).__init__(
             p_aice, p_uvel, p_vvel, p_HTE, p_HTN, p_siline, multiple
         )
+        self.add_sumlike_dimensions(
+            *(p_aice[None].dimensions[1:] + p_siline[None].dimensions)
+        )
 
     def __getitem__(self, index):
         p_aice = self.arguments[0][index]
@@ -1349,17 +1375,18 @@ class burntFractionFunction(Function):
 
         a = np.ma.zeros((data.shape[0], data.shape[1], data.shape[2]))
 
-        i = 0
+        # Month of the first time step requested, and step between months
+        tslice = align_index(index, p_data.dimensions)[0]
+        start, step = tslice.start or 0, tslice.step or 1
+
         for t in range(0, data.shape[0]):
+            i = (start + t * step) % 12
             for x in range(0, data.shape[1]):
                 for y in range(0, data.shape[2]):
                     if data[t, x, y] < 1e16:
                         a[t, x, y] = data[t, x, y] * ml[i] * 86400 * 100
                     else:
                         a[t, x, y] = 1e20
-            i += 1
-            if i == 12:
-                i = 0
         a[a >= 1e16] = 1e20
         a = np.ma.masked_values(a, 1e20)
         new_name = "burntFraction({})".format(p_data.name)
@@ -1374,6 +1401,9 @@ class reduce_luFunction(Function):
 
     def __init__(self, p_data, p_lu):
         super(reduce_luFunction, self).__init__(p_data, p_lu)
+        self.add_sumlike_dimensions(
+            p_data[None].dimensions[1], p_lu[None].dimensions[0]
+        )
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1416,6 +1446,7 @@ class get_soilpoolsFunction(Function):
         super(get_soilpoolsFunction, self).__init__(
             p_data1, p_data2, p_data3, p_soilpool
         )
+        self.add_sumlike_dimensions(p_soilpool[None].dimensions[0])
 
     def __getitem__(self, index):
         p_data1 = self.arguments[0][index]
@@ -1459,6 +1490,10 @@ class get_nonwoodyvegFunction(Function):
         super(get_nonwoodyvegFunction, self).__init__(
             p_pct_nat_pft, p_pct_crop, p_landfrac, p_landUse
         )
+        self.add_sumlike_dimensions(
+            *(x[None].dimensions[1] for x in (p_pct_nat_pft, p_pct_crop)),
+            p_landUse[None].dimensions[0]
+        )
 
     def __getitem__(self, index):
         p_pct_nat_pft = self.arguments[0][index]
@@ -1564,6 +1599,9 @@ class ocean_basinFunction(Function):
 
     def __init__(self, p_data1, p_comp, p_basin):
         super(ocean_basinFunction, self).__init__(p_data1, p_comp, p_basin)
+        self.add_sumlike_dimensions(
+            *(p_data1[None].dimensions[1:3] + p_basin[None].dimensions)
+        )
 
     def __getitem__(self, index):
         p_data1 = self.arguments[0][index]
@@ -1632,6 +1670,9 @@ class emilnoxFunction(Function):
             p_lat,
             p_time,
         )
+        self.add_sumlike_dimensions(
+            *(d for x in (p_hyai, p_hyam, p_lon, p_lat) for d in x[None].dimensions)
+        )
 
     def __getitem__(self, index):
 
@@ -1776,6 +1817,7 @@ class delpFunction(Function):
 
     def __init__(self, p_PO, p_PS, p_hyai, p_hybi):
         super(delpFunction, self).__init__(p_PO, p_PS, p_hyai, p_hybi)
+        self.add_sumlike_dimensions(*p_hyai[None].dimensions)
 
     def __getitem__(self, index):
         p_PO = self.arguments[0][index]
-- 
2.43.0


From 7c225aa90d6958896ecccc6462562b5776ba0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 058/102] fix: dimensions and units of land unit and vegetation
 averages

The results of CLM_landunit_to_CMIP6_Lut and CLM_pft_to_CMIP6_vegtype had no
dimension names, and their announcements no units.
---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      | 53 ++++++++++++-------
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py | 13 +++--
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 3101987..0855616 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -67,25 +67,23 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         pland1d_wtgcell = self.arguments[13][index]
         landUse = self.arguments[14][index]
 
+        units = pEFLX_LH_TOT.units
+        dimensions = [
+            pntim.dimensions[0],
+            pnlat.dimensions[0],
+            pnlon.dimensions[0],
+        ]
+        if "all" in vegType:
+            dimensions.insert(1, landUse.dimensions[0])
+
         if index is None:
             if "all" in vegType:
                 return PhysArray(
-                    np.zeros((0, 4, 0, 0)),
-                    dimensions=[
-                        pntim.dimensions[0],
-                        landUse.dimensions[0],
-                        pnlat.dimensions[0],
-                        pnlon.dimensions[0],
-                    ],
+                    np.zeros((0, 4, 0, 0)), dimensions=dimensions, units=units
                 )
             else:
                 return PhysArray(
-                    np.zeros((0, 0, 0)),
-                    dimensions=[
-                        pntim.dimensions[0],
-                        pnlat.dimensions[0],
-                        pnlon.dimensions[0],
-                    ],
+                    np.zeros((0, 0, 0)), dimensions=dimensions, units=units
                 )
 
         EFLX_LH_TOT = pEFLX_LH_TOT.data
@@ -234,23 +232,40 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
 
         if "crop" in vegType:
             return PhysArray(
-                mvaro_lut[:, crop, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, crop, :, :],
+                name=new_name,
+                units=units,
+                dimensions=dimensions,
             )
         elif "veg" in vegType:
             return PhysArray(
-                mvaro_lut[:, veg, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, veg, :, :],
+                name=new_name,
+                units=units,
+                dimensions=dimensions,
             )
         elif "urban" in vegType:
             return PhysArray(
-                mvaro_lut[:, urban, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, urban, :, :],
+                name=new_name,
+                units=units,
+                dimensions=dimensions,
             )
         elif "pasture" in vegType:
             return PhysArray(
-                mvaro_lut[:, pasture, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, pasture, :, :],
+                name=new_name,
+                units=units,
+                dimensions=dimensions,
             )
         elif "nlut" in vegType:
             return PhysArray(
-                mvaro_lut[:, nlut, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, nlut, :, :],
+                name=new_name,
+                units=units,
+                dimensions=dimensions,
             )
         elif "all" in vegType:
-            return PhysArray(mvaro_lut, name=new_name, units=pEFLX_LH_TOT.units)
+            return PhysArray(
+                mvaro_lut, name=new_name, units=units, dimensions=dimensions
+            )
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 9717b97..8b27827 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -79,14 +79,11 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         ppfts1d_wtgcell = self.arguments[16][index]
         ppfts1d_wtlunit = self.arguments[17][index]
 
+        dimensions = [ptime.dimensions[0], plat.dimensions[0], plon.dimensions[0]]
+
         if index is None:
             return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[
-                    ptime.dimensions[0],
-                    plat.dimensions[0],
-                    plon.dimensions[0],
-                ],
+                np.zeros((0, 0, 0)), dimensions=dimensions, units=pGPP.units
             )
 
         GPP = pGPP.data
@@ -264,7 +261,9 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         varo_vegType[varo_vegType >= 1e16] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
-        return PhysArray(ma_varo_vegType, name=new_name, units=pGPP.units)
+        return PhysArray(
+            ma_varo_vegType, name=new_name, units=pGPP.units, dimensions=dimensions
+        )
 
 
 def main(argv=None):
-- 
2.43.0


From 58299938b703851548818b86b94dbdc43efd4361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 059/102] fix: missing and weightless subgrid units in land
 averages

Values missing below another fill value than 1e36 entered the averages, and
vegetation without weight gave NaN instead of a missing value.
---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py | 5 +++--
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py  | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 0855616..ac71570 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -86,7 +86,8 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
                     np.zeros((0, 0, 0)), dimensions=dimensions, units=units
                 )
 
-        EFLX_LH_TOT = pEFLX_LH_TOT.data
+        EFLX_LH_TOT = np.ma.filled(pEFLX_LH_TOT.astype(float), np.nan)
+        EFLX_LH_TOT[EFLX_LH_TOT >= 1e15] = np.nan
         ntim = pntim.data
         nlat = pnlat.data
         nlon = pnlon.data
@@ -227,7 +228,7 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
             pland1d_wtgcell.name,
         )
 
-        varo_lut[varo_lut >= 1e15] = 1e20
+        varo_lut[np.isnan(varo_lut)] = 1e20
         mvaro_lut = np.ma.masked_values(varo_lut, 1e20)
 
         if "crop" in vegType:
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 8b27827..1ba92e1 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -86,7 +86,8 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
                 np.zeros((0, 0, 0)), dimensions=dimensions, units=pGPP.units
             )
 
-        GPP = pGPP.data
+        GPP = np.ma.filled(pGPP.astype(float), np.nan)
+        GPP[GPP >= 1e16] = np.nan
         time = ptime.data
         lat = plat.data
         lon = plon.data
@@ -258,7 +259,8 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
             )
         )
 
-        varo_vegType[varo_vegType >= 1e16] = 1e20
+        # Missing where a contributing pft is missing or no pft has any weight
+        varo_vegType[np.isnan(varo_vegType)] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
         return PhysArray(
-- 
2.43.0


From 1707c0a50d533f352eacc8a3f4f3afbecadf1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 060/102] fix: several vegetated or crop land units in one grid
 cell

They are averaged with their weights, as the urban ones.
---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index ac71570..d8218b8 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -180,17 +180,21 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
 
                     # Check for valid veg landunit
                     if landunit_indx_veg.size > 0:
-                        varo_lut[:, veg, jxy, ixy] = EFLX_LH_TOT[
-                            :, landunit_indx_veg
-                        ].squeeze()
+                        varo_lut[:, veg, jxy, ixy] = np.average(
+                            EFLX_LH_TOT[:, landunit_indx_veg],
+                            axis=1,
+                            weights=land1d_wtgcell[landunit_indx_veg],
+                        )
                     else:
                         varo_lut[:, veg, jxy, ixy] = 1e20
 
                     # Check for valid crop landunit
                     if landunit_indx_crop.size > 0:
-                        varo_lut[:, crop, jxy, ixy] = EFLX_LH_TOT[
-                            :, landunit_indx_crop
-                        ].squeeze()
+                        varo_lut[:, crop, jxy, ixy] = np.average(
+                            EFLX_LH_TOT[:, landunit_indx_crop],
+                            axis=1,
+                            weights=land1d_wtgcell[landunit_indx_crop],
+                        )
                     else:
                         varo_lut[:, crop, jxy, ixy] = 1e20
 
-- 
2.43.0


From d187c1f6d517d7d1d11f9314ec78d4be5e320ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 061/102] fix: land averages evaluated in pieces of the grid

The indices of the grid cells refer to the whole grid: written in pieces of
latitudes or longitudes, the values of the first ones were repeated.
---
 pyconform/modules/CLM_landunit_to_CMIP6_Lut.py | 2 ++
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index d8218b8..c9d3bc8 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -48,6 +48,8 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
             land1d_wtgcell,
             landUse,
         )
+        for argument in (nlat, nlon, landUse, grid1d_ixy, land1d_lon):
+            self.add_sumlike_dimensions(*argument[None].dimensions)
 
     def __getitem__(self, index):
 
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 1ba92e1..dbb3349 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -55,6 +55,8 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
             pfts1d_wtgcell,
             pfts1d_wtlunit,
         )
+        for argument in (lat, lon, grid1d_ixy, land1d_lon, pfts1d_lon):
+            self.add_sumlike_dimensions(*argument[None].dimensions)
 
     def __getitem__(self, index):
 
-- 
2.43.0


From 22cbbfa0d0fb6f39784004a89e8e4571683a701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 062/102] fix: parallel runs of xconform without input files or
 with a wrong specification

Only the manager returned or failed, while the other ranks waited for its result
for ever.
---
 pyconform/cli/xconform.py | 106 +++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 10ad53d..9f50b70 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -150,64 +150,78 @@ def cli(argv=None):
     return parser.parse_args(argv)
 
 
-def main(argv=None):
-    args = cli(argv)
+def create_output_descriptor(stdfile):
+    """Create the output dataset descriptor from the standardization file"""
 
-    # Create the necessary SimpleComm
-    scomm = create_comm(serial=args.serial)
+    # Check that the specfile exists
+    if not exists(stdfile):
+        raise OSError(("Output specification file {!r} not " "found").format(stdfile))
 
-    # Do setup only on manager node
-    if scomm.is_manager():
+    # Read the specfile into a dictionary
+    print("Reading standardization file: {}".format(stdfile))
+    dsdict = json_load(open(stdfile, "r"), object_pairs_hook=OrderedDict)
+
+    # Parse the output Dataset
+    print("Creating output dataset descriptor from standardization file...")
+    return OutputDatasetDesc(dsdict=dsdict)
+
+
+def create_input_descriptor(patterns):
+    """Create the input dataset descriptor from file names, or None without files"""
+
+    # Gather the list of input files
+    infiles = []
+    for infile in patterns:
+        infiles.extend(glob(infile))
+
+    # If no input files, stop here
+    if len(infiles) == 0:
+        print("Standardization file validated.")
+        return None
 
-        # Check that the specfile exists
-        if not exists(args.stdfile):
-            raise OSError(
-                ("Output specification file {!r} not " "found").format(args.stdfile)
-            )
+    # Parse the input Dataset
+    print(
+        "Creating input dataset descriptor from {} input files...".format(len(infiles))
+    )
+    return InputDatasetDesc(filenames=infiles)
+
+
+def on_manager(scomm, func, arg):
+    """
+    Call a function only on the manager node, and return its result on all nodes
+
+    Errors are raised on all nodes, too, so that no node waits for a result
+    """
+    result, error = None, None
+    if scomm.is_manager():
+        try:
+            result = func(arg)
+        except Exception as err:
+            error = err
+    result, error = scomm.partition((result, error), func=Duplicate(), involved=True)
+    if error is not None:
+        raise error
+    return result
 
-        # Read the specfile into a dictionary
-        print("Reading standardization file: {}".format(args.stdfile))
-        dsdict = json_load(open(args.stdfile, "r"), object_pairs_hook=OrderedDict)
 
-        # Parse the output Dataset
-        print("Creating output dataset descriptor from standardization file...")
-        outds = OutputDatasetDesc(dsdict=dsdict)
+def main(argv=None):
+    args = cli(argv)
 
-    else:
-        outds = None
+    # Create the necessary SimpleComm
+    scomm = create_comm(serial=args.serial)
 
-    # Send the output descriptor to all nodes
-    outds = scomm.partition(outds, func=Duplicate(), involved=True)
+    # Do setup only on manager node, and send the output descriptor to all nodes
+    outds = on_manager(scomm, create_output_descriptor, args.stdfile)
 
     # Sync
     scomm.sync()
 
-    # Continue setup only on manager node
-    if scomm.is_manager():
+    # Continue setup only on manager node, and send the input descriptor to all nodes
+    inpds = on_manager(scomm, create_input_descriptor, args.infiles)
 
-        # Gather the list of input files
-        infiles = []
-        for infile in args.infiles:
-            infiles.extend(glob(infile))
-
-        # If no input files, stop here
-        if len(infiles) == 0:
-            print("Standardization file validated.")
-            return
-
-        # Parse the input Dataset
-        print(
-            "Creating input dataset descriptor from {} input files...".format(
-                len(infiles)
-            )
-        )
-        inpds = InputDatasetDesc(filenames=infiles)
-
-    else:
-        inpds = None
-
-    # Send the input descriptor to all nodes
-    inpds = scomm.partition(inpds, func=Duplicate(), involved=True)
+    # If no input files, stop here (on all nodes)
+    if inpds is None:
+        return
 
     # Sync and continue process on all nodes
     scomm.sync()
-- 
2.43.0


From 0e91eef1e75a5dba6afcdc0f4d0569d25c2136b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 063/102] fix: definitions with an equals sign in a definitions
 file for vardeps

Keywords and comparisons made the line unreadable.
---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..8984625 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
-- 
2.43.0


From f614de47d06945ace35abcf39a4e6e9fc20cbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 064/102] fix: dependencies of variables with a frequency but
 no realm

They were reported not to depend on anything.
---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 8984625..776cfee 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From d68becda0c472ecfa112e04be8942d9f588b864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 065/102] fix: vardeps with definitions that need no variable
 or cannot be parsed

Without any dependency the tool failed, and malformed definitions were reported
not to depend on anything.
---
 pyconform/cli/vardeps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 776cfee..1684932 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -150,6 +150,10 @@ def main(argv=None):
         if var in vardefs:
             try:
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
+            except Exception:
+                print("   {}: Could not parse definition.".format(var))
+                continue
+            if len(vdeps) > 0:
                 alldeps.update(vdeps)
                 fheader = (
                     " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
@@ -158,14 +162,15 @@ def main(argv=None):
                 )
                 vheader = "   {}{}:".format(var, fheader)
                 print_columnar(sorted(vdeps), header=vheader)
-            except:
+            else:
                 print("   {}: No dependencies.".format(var))
         else:
             print("   {}: Not defined.".format(var))
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if len(alldeps) > 0:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 6659cf94ba5c9a15b38f642e11a07ad99280ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 066/102] fix: find the axes of the variables in MIP tables

---
 pyconform/miptableparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09895db..3cc8c29 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -249,7 +249,7 @@ class ParseExcel(object):
                         variables[vn]["coordinates"] = (
                             variables[vn]["dimensions"].strip().replace(" ", "|")
                         )
-                        dims = variables[vn]["dimensions"].encode("utf-8").split()
+                        dims = variables[vn]["dimensions"].split()
                         for dim in dims:
                             if dim not in axes.keys():
                                 axes[dim] = {}
@@ -326,7 +326,7 @@ class ParseCmorTable(object):
                 )
                 variables[var]["frequency"] = mt["Header"]["frequency"]
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
-                dims = v["dimensions"].encode("utf-8").split()
+                dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
                         axes[dim] = mt["axis_entry"][dim]
-- 
2.43.0


From 07f828539db3131090bc457c8ca76cdbf2b08886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 067/102] fix: each MIP table has its own variables

---
 pyconform/miptableparser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 3cc8c29..734ec11 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -311,12 +311,14 @@ class ParseCmorTable(object):
             with open(t) as f:
                 mt = json.load(f)
 
-            if len(v_list) == 0:
-                v_list = list(mt["variable_entry"].keys())
+            # All variables in the table, or those in the list that the table has
+            var_list = list(mt["variable_entry"].keys())
+            if len(v_list) > 0:
+                var_list = [var for var in v_list if var in mt["variable_entry"]]
 
             variables = {}
             axes = {}
-            for var in v_list:
+            for var in var_list:
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From fb9012631e9825d71a8fb17b49ca65b3f08d546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 068/102] fix: keep the frequency and the dimensions of each
 variable in CMOR tables

---
 pyconform/cli/iconform.py   | 2 +-
 pyconform/miptableparser.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d61371..ee409cf 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -557,7 +557,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     if "requested" in v.keys():
         if v["requested"] != "":
             var["definition"] = v["requested"]
-    if "coordinates" in v.keys():
+    if "coordinates" in v.keys() and v["coordinates"] != "":
         var["dimensions"] = list(reversed(v["coordinates"].split("|")))
         var["attributes"]["coordinates"] = " ".join(
             list(reversed(v["coordinates"].split("|")))
diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 734ec11..c00705d 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -326,8 +326,9 @@ class ParseCmorTable(object):
                 variables[var]["mipTable"] = mt["Header"]["table_id"].replace(
                     "Table ", ""
                 )
-                variables[var]["frequency"] = mt["Header"]["frequency"]
-                variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
+                if not variables[var].get("frequency"):
+                    variables[var]["frequency"] = mt["Header"].get("frequency", "")
+                variables[var]["coordinates"] = "|".join(v["dimensions"].split())
                 dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
-- 
2.43.0


From b6988f5ec5442ed34ce5a68072a3f7302bdbb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 069/102] fix: combine all files with global attributes

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index ee409cf..ec8c8c8 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -888,7 +888,7 @@ def main(argv=None):
                     attributes.update(ga)
                 else:
                     with open(gaFile) as y_attributes:
-                        attributes = load(y_attributes, key="ga")["ga"]
+                        attributes.update(load(y_attributes, key="ga")["ga"])
             else:
                 if args.globalAttrFile and not os.path.isfile(args.globalAttrFile):
                     print(
-- 
2.43.0


From 18ced6ffa9dfd8dedb370f760bc5faff99dffac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 070/102] fix: specifications without optional global
 attributes

---
 pyconform/cli/iconform.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index ec8c8c8..0d81943 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -176,7 +176,7 @@ def load(defs, key=None):
 def fill_missing_glob_attributes(attr, table, v, grids):
 
     for a, d in attr.items():
-        if d is not None:
+        if isinstance(d, str):
             if "__FILL__" in d:
                 if "activity_id" in a and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
@@ -250,7 +250,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 elif "variable_id" in a and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
-    if "FILL" in attr["external_variables"]:
+    if "FILL" in attr.get("external_variables", ""):
         attr.pop("external_variables")
 
     if "branch_method" in attr.keys():
@@ -319,7 +319,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
         if "parent_time_units" in attr.keys():
             attr["parent_time_units"] = "no parent"
 
-    if "variant_label" in attr.keys():
+    if "variant_label" in attr.keys() and "r" in attr["variant_label"]:
         pre = attr["variant_label"].split("r")[1]
         attr["realization_index"] = int(pre.split("i")[0])
         pre = pre.split("i")[1]
@@ -371,8 +371,8 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                     ripf,
                 )
                 attr["further_info_url"] = "https://furtherinfo.es-doc.org/" + info_url
-    if "grid" in attr.keys():
-        if len(attr["realm"]) > 0:
+    if "grid" in attr.keys() and grids:
+        if len(attr.get("realm", "")) > 0:
             attr["grid"] = grids[attr["realm"].split()[0]]
         else:
             attr["grid"] = "CAN NOT FIND GRID - NO REALM IN DATAREQ"
@@ -389,9 +389,9 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     attributes = dict(attr)
 
+    grids = {}
     if "grids" in attributes.keys():
         p1 = attributes["grids"].split(";")
-        grids = {}
         for p in p1:
             g = p.split(":")[1]
             for model in p.split(":")[0].split(","):
@@ -675,7 +675,7 @@ def create_output(
                     )
                     realm = d["realm"].replace(" ", "_")
                     ts_key = (
-                        var_list[v]["file"]["attributes"]["activity_id"]
+                        var_list[v]["file"]["attributes"].get("activity_id", "")
                         + "_"
                         + var_list[v]["attributes"]["mipTable"]
                         + "_"
@@ -683,9 +683,7 @@ def create_output(
                     )
                     if ts_key not in TableSpec.keys():
                         TableSpec[ts_key] = {}
-                    TableSpec[ts_key][
-                        var_list[v]["file"]["attributes"]["variable_id"]
-                    ] = var_list[v]
+                    TableSpec[ts_key][d["variable_id"]] = var_list[v]
                     t_realm = "NoRealm"
                     for k1, v1 in definitions.items():
                         if "Coords" in k1:
-- 
2.43.0


From 2e2be7f754decd7f41f4da4853c9a92be8fcbeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 071/102] fix: branch times with exponents, numeric or left
 blank

---
 pyconform/cli/iconform.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 0d81943..f5ab5ff 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -173,6 +173,16 @@ def load(defs, key=None):
         return def_dict, ig_dict
 
 
+def branch_time(value):
+    """
+    Number given by a branch time, which may be written with a Fortran exponent (1.5D2)
+    """
+    try:
+        return float(str(value).replace("D", "E"))
+    except ValueError:
+        return value
+
+
 def fill_missing_glob_attributes(attr, table, v, grids):
 
     for a, d in attr.items():
@@ -255,26 +265,9 @@ def fill_missing_glob_attributes(attr, table, v, grids):
 
     if "branch_method" in attr.keys():
         if "no parent" not in attr["branch_method"]:
-            if "branch_time_in_child" in attr.keys():
-                if len(attr["branch_time_in_child"]) > 0:
-                    try:
-                        attr["branch_time_in_child"] = float(
-                            attr["branch_time_in_child"].split("D")[0]
-                        )
-                    except ValueError:
-                        attr["branch_time_in_child"] = attr[
-                            "branch_time_in_child"
-                        ].split("D")[0]
-            if "branch_time_in_parent" in attr.keys():
-                if len(attr["branch_time_in_parent"]) > 0:
-                    try:
-                        attr["branch_time_in_parent"] = float(
-                            attr["branch_time_in_parent"].split("D")[0]
-                        )
-                    except ValueError:
-                        attr["branch_time_in_parent"] = attr[
-                            "branch_time_in_parent"
-                        ].split("D")[0]
+            for a in ["branch_time_in_child", "branch_time_in_parent"]:
+                if a in attr.keys():
+                    attr[a] = branch_time(attr[a])
             if "parent_mip_era" in attr.keys() and len(attr["parent_activity_id"]) > 2:
                 attr["parent_mip_era"] = attr["mip_era"]
             else:
@@ -295,9 +288,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 attr["parent_time_units"] = "none"
         else:
             if "branch_time_in_child" in attr.keys():
-                attr["branch_time_in_child"] = float(
-                    attr["branch_time_in_child"].split("D")[0]
-                )
+                attr["branch_time_in_child"] = branch_time(attr["branch_time_in_child"])
             if "branch_time_in_parent" in attr.keys():
                 attr["branch_time_in_parent"] = 0.0
             if "parent_mip_era" in attr.keys():
-- 
2.43.0


From b7eada02162064c774f17ebd29b342a9b5a18dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 072/102] fix: write the compression under the name that
 specifications have for it

---
 pyconform/cli/iconform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index f5ab5ff..34d58eb 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -458,7 +458,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     if "NETCDF4" in f_format:
         if "compression" in attributes.keys():
-            compression = attributes["compression"]
+            compression = int(attributes["compression"])
             attributes.pop("compression", None)
         else:
             compression = None
@@ -520,7 +520,7 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
     var["file"]["filename"] = f_name
     var["file"]["format"] = f_format
     if compression is not None:
-        var["file"]["compression"] = compression
+        var["file"]["deflate"] = compression
     if shuffle is not None:
         var["file"]["shuffle"] = shuffle
 
-- 
2.43.0


From 2021c34d7ae4f0ecc68dc20daa65ff37cfd3f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 073/102] fix: axes without a type

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 34d58eb..8bbb0b5 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -578,7 +578,7 @@ def defineAxes(v, name):
 
     # put everything into a variable dictionary
     var["attributes"] = v2
-    if "type" in v.keys():
+    if "type" in v.keys() and v["type"] != "":
         var["datatype"] = data_types[v["type"]]
     if "requested" in v.keys():
         if v["requested"] != "":
-- 
2.43.0


From c429ced067b4ebd5bdf61d80582628cecde020f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 074/102] fix: coordinates of the realm rather than of a realm
 in its name

---
 pyconform/cli/iconform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 8bbb0b5..2c56bac 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -678,8 +678,13 @@ def create_output(
                     t_realm = "NoRealm"
                     for k1, v1 in definitions.items():
                         if "Coords" in k1:
-                            if k1.split("_")[1] in realm:
-                                t_realm = k1.split("_")[1].strip()
+                            # Part of a name only where the whole name is not found
+                            c_realm = k1.split("_")[1].strip()
+                            names = realm.split("_")
+                            if c_realm in names or (
+                                c_realm in realm and t_realm not in names
+                            ):
+                                t_realm = c_realm
                     for dim in var_list[v]["dimensions"]:
                         if (
                             dim not in TableSpec[ts_key].keys()
-- 
2.43.0


From ba7aabd9e68bc82a4c6b5665ddc611360a66c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 075/102] fix: files of the classic formats hold real variables

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 1c5ee8b..1400c2b 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -774,7 +774,7 @@ class OutputDatasetDesc(DatasetDesc):
     """
 
     _NC_TYPES_ = {
-        3: ["byte", "char", "short", "int", "float", "double"],
+        3: ["byte", "char", "short", "int", "float", "real", "double"],
         4: [
             "byte",
             "char",
-- 
2.43.0


From 20f39044aada2fca9e7de834fd32d88c54c4b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 076/102] fix: give a plain number units with chunits

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0b396ce..7a14a99 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -480,7 +480,7 @@ class ChangeUnitsFunction(Function):
             else "|{}".format(self._newunits.calendar)
         )
         unit_str = "{}{}".format(self._newunits, cal_str)
-        new_name = "chunits({}, units={})".format(data.name, unit_str)
+        new_name = "chunits({}, units={})".format(getname(data), unit_str)
         return PhysArray(data, name=new_name, units=self._newunits)
 
 
-- 
2.43.0


From 6977d181cef7e4f8a0332522801c63b38d6ed837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 077/102] fix: apply the indices of data given in the
 specification

Definitions can use variables whose data are given in the specification,
but any indices of such a variable were ignored.
---
 pyconform/dataflow.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 893676d..8f139ab 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -33,6 +33,7 @@ from pyconform.flownodes import (
     iter_dfs,
 )
 from pyconform.functions import find_function, find_operator
+from pyconform.indexing import index_str
 from pyconform.parsing import FuncType, OpType, VarType, parse_definition
 from pyconform.physarray import PhysArray
 
@@ -143,7 +144,11 @@ class DataFlow(object):
                 return ReadNode(self._ids.variables[vname], index=indices)
 
             elif vname in datnodes:
-                return datnodes[vname]
+                if len(obj.ind) == 0:
+                    return datnodes[vname]
+                indices = tuple(obj.ind)
+                name = "{}[{}]".format(vname, index_str(indices))
+                return DataNode(PhysArray(datnodes[vname][indices], name=name))
 
             else:
                 raise VariableNotFoundError(
-- 
2.43.0


From b0944048034e1ae345d3f646fb836ad85d65bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:50 +0000
Subject: [PATCH 078/102] fix: give the square root of a plain number its units

NumPy's own operators combined the bare NumPy scalar with an array, so that
sqrt(4)/v had the units of v, and lost the type where v is missing.
---
 pyconform/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 7a14a99..0841c54 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -292,7 +292,8 @@ class SquareRootFunction(Function):
                 positive=data.positive,
             )
         else:
-            return sqrt(data)
+            # Operators of bare NumPy scalars do not know of units
+            return PhysArray(sqrt(data), name="sqrt({})".format(data))
 
 
 class MeanFunction(Function):
-- 
2.43.0


From acd7e9132a1afa823634cf25546cf989526d89f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 079/102] fix: copy the attributes of variables in the netCDF4
 port

Every attribute was stored under the name of the variable, with its own
name as the value.
---
 pyconform/climIO.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 9bb9f87..8b6896b 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -454,11 +454,15 @@ class NetCDF4PyPort(object):
                 tuple(dims),
                 zlib=True,
                 complevel=int(self.compressionLevel),
+                fill_value=attrib.get("_FillValue"),
             )
         else:
-            var = new_file.createVariable(var_name, typeCode, tuple(dims))
-        for att in attrib:
-            var.setncattr(var_name, att)
+            var = new_file.createVariable(
+                var_name, typeCode, tuple(dims), fill_value=attrib.get("_FillValue")
+            )
+        for att, value in attrib.items():
+            if att != "_FillValue":
+                var.setncattr(att, value)
         return var
 
     def get_var_info(self, template_file, var_name):
@@ -483,7 +487,7 @@ class NetCDF4PyPort(object):
 
         attribs = {}
         for n in var_hndl.ncattrs():
-            attribs[n] = var_hndl.__getattribute__(n)
+            attribs[n] = var_hndl.getncattr(n)
 
         return typeCode, dimnames, attribs
 
-- 
2.43.0


From 84ff09afc7836352889a18b6f0b12eea8ff0175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 080/102] fix: compression levels of files created with the
 netCDF4 port

A level was kept as text, which no variable could be created with, and
kept for the files created later; no level was not level one.
---
 pyconform/climIO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 8b6896b..bd47b62 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -398,10 +398,12 @@ class NetCDF4PyPort(object):
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
         # The netcdf output format
+        self.compressionLevel = 0
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
-            if ncformat[-1].isdigit():
-                self.compressionLevel = ncformat[-1]
+            self.compressionLevel = 1
+            if ncformat[len("netcdf4c") :].isdigit():
+                self.compressionLevel = int(ncformat[len("netcdf4c") :])
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
-- 
2.43.0


From 9e58200ab31491e90fa7e8d9217cf29b1370e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 081/102] fix: write variables in their own precision with the
 netCDF4 port

All values were rounded to single precision.
---
 pyconform/climIO.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index bd47b62..71880ff 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -566,23 +566,17 @@ class NetCDF4PyPort(object):
             var_name (str): The name of the variable.
             index (int): Optional.  The time index to write.  Default time index is set to 0.
         """
-        import numpy as np
-
-        if all_vars[var_name].datatype == "i":
-            t = np.int_
-        else:
-            t = np.float32
-
+        # (values are converted to the type of the variable when they are stored)
         if not values.shape:
             if index == -99:
-                all_vars[var_name][0] = values.astype(t)
+                all_vars[var_name][0] = values
             else:
-                all_vars[var_name][index] = values.astype(t)
+                all_vars[var_name][index] = values
         else:
             if "time" == var_name:
-                all_vars[var_name][0] = values[0].astype(t)
+                all_vars[var_name][0] = values[0]
             else:
                 if index == -99:
-                    all_vars[var_name][0, :] = values[:].astype(t)
+                    all_vars[var_name][0, :] = values[:]
                 else:
-                    all_vars[var_name][index, :] = values[:].astype(t)
+                    all_vars[var_name][index, :] = values[:]
-- 
2.43.0


From b4a93609088916cc84df5615e74feaa25e6a4ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 082/102] fix: close template files in the netCDF4 port

---
 pyconform/climIO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 71880ff..3f50b64 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -541,6 +541,7 @@ class NetCDF4PyPort(object):
             self.write_meta_var(
                 all_vars[meta_name], meta_name, temp_file.variables[meta_name]
             )
+        self.close_file(temp_file)
 
         return all_vars, new_file
 
-- 
2.43.0


From 09cb08cbcb30b1fec27e55f704aa4a34198ffaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:19 +0000
Subject: [PATCH 083/102] fix: evaluate small integers in 64 bits

---
 pyconform/flownodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index e3c2076..fb6d197 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -126,6 +126,8 @@ class DataNode(FlowNode):
         array = PhysArray(data)
         if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
+        elif array.dtype.kind in "iu" and array.dtype.itemsize < 8:
+            array = array.astype(array.dtype.kind + "8")
 
         # Store data
         self._data = array
@@ -270,6 +272,8 @@ class ReadNode(FlowNode):
             # Upconvert, if possible
             if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
+            elif data.dtype.kind in "iu" and data.dtype.itemsize < 8:
+                data = data.astype(data.dtype.kind + "8")
 
             # Read the positive attribute, if available
             pos = attrs.get("positive", None)
-- 
2.43.0


From 6ad03bae259660134c704d5cc1361c9083c0ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:43 +0000
Subject: [PATCH 084/102] fix: negate and subtract unsigned integers without
 wrapping

---
 pyconform/flownodes.py | 11 +++++++++--
 pyconform/physarray.py | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index fb6d197..1b1c6c3 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -547,8 +547,15 @@ class ValidateNode(FlowNode):
 
         # Check the positive attribute, if specified
         positive = self.attributes.get("positive", None)
-        if positive is not None and indata.positive != positive:
-            indata.flip()
+        if positive is not None and indata.positive not in (None, positive):
+            if self._vdesc.dtype is not None and odtype.kind == "u":
+                raise TypeError(
+                    (
+                        "Cannot change the direction of unsigned integers in "
+                        "ValidateNode {!r}"
+                    ).format(self.label)
+                )
+            indata = indata.flip()
 
         # Do not validate if index is None (nothing to validate)
         if index is None:
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 0e272b2..667d1b8 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -338,6 +338,9 @@ class PhysArray(numpy.ma.MaskedArray):
         Does nothing if the positive attribute is not set (i.e., equals None)
         """
         if self.positive is not None:
+            if self.dtype.kind == "u":
+                # Unsigned integers cannot be negated in place
+                return self._signed_().flip()
             nm = self.name
             self *= -1
             self.positive = "up" if self.positive == "down" else "down"
@@ -354,7 +357,7 @@ class PhysArray(numpy.ma.MaskedArray):
             self.positive = "up"
             self.name = "up({})".format(self.name)
         elif self.positive == "down":
-            self.flip()
+            return self.flip()
         return self
 
     def down(self):
@@ -367,7 +370,7 @@ class PhysArray(numpy.ma.MaskedArray):
             self.positive = "down"
             self.name = "down({})".format(self.name)
         elif self.positive == "up":
-            self.flip()
+            return self.flip()
         return self
 
     def __getitem__(self, index):
@@ -492,9 +495,13 @@ class PhysArray(numpy.ma.MaskedArray):
         self.name = "({}+{})".format(self.name, other.name)
         return self
 
+    def _signed_(self):
+        # Negative results cannot be stored in unsigned integers
+        return self.astype(numpy.int64) if self.dtype.kind == "u" else self
+
     def __sub__(self, other):
-        result = PhysArray(self)
-        other = result._add_sub_init_(other)
+        result = PhysArray(self)._signed_()
+        other = result._add_sub_init_(other)._signed_()
         return PhysArray(
             super(PhysArray, result).__sub__(other),
             name="({}-{})".format(result.name, other.name),
@@ -515,7 +522,7 @@ class PhysArray(numpy.ma.MaskedArray):
     def __neg__(self):
         # The base class returns the bare masked constant for a masked scalar
         return PhysArray(
-            super(PhysArray, self).__neg__(),
+            super(PhysArray, self._signed_()).__neg__(),
             name=self.name,
             units=self.units,
             dimensions=self.dimensions,
-- 
2.43.0


From fd0d01db54b3cb11f8bd175206b6601d74156075 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 085/102] fix: mark the points below the surface as missing in
 vinth2p

---
 pyconform/modules/pnglfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/modules/pnglfunctions.py b/pyconform/modules/pnglfunctions.py
index 19daac6..4cf2226 100644
--- a/pyconform/modules/pnglfunctions.py
+++ b/pyconform/modules/pnglfunctions.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from Ngl import vinth2p
+from numpy.ma import masked_values
 
 from pyconform.functions import Function, is_constant
 from pyconform.physarray import DimensionsError, PhysArray
@@ -104,6 +105,7 @@ class VertInterpFunction(Function):
         )
 
         v[v == 1e30] = 1e20
+        v = masked_values(v, 1e20, copy=False)
 
         return PhysArray(
             v,
-- 
2.43.0


From de8b74459d8be9a578e522f8d8afdeb92c49e610 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 086/102] fix: leave differences with missing values missing in
 diff_axis1_ind0bczero_4d

---
 pyconform/modules/commonfunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 4a0e70c..f34d21a 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -787,11 +787,12 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             fv = 1e20
         else:
             KMT = p_KMT.data
-            data = p_data.data
+            data = np.ma.asarray(p_data)
 
-            a = np.empty((p_data.shape))
+            a = np.ma.empty((p_data.shape))
             a[:, 0, :, :] = data[:, 0, :, :]
-            a[:, 1:, :, :] = np.diff(data, axis=1)
+            a[:, 1:, :, :] = data[:, 1:, :, :] - data[:, :-1, :, :]
+            a = a.filled(1e20)
 
             # fv = data.fill_value
             fv = 1e20
-- 
2.43.0


From e16efe19fddd45fc8202c544ba52cfbbd46fdc81 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 087/102] fix: leave differences with missing values missing in
 rsdoabsorb

---
 pyconform/modules/commonfunctions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index f34d21a..a68a0a3 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -837,6 +837,7 @@ class rsdoabsorbFunction(Function):
         else:
             KMT = p_KMT.data
             QSW_3D = p_QSW_3D.data
+            missing = np.ma.getmaskarray(p_QSW_3D)
 
             a = np.empty((p_QSW_3D.shape))
 
@@ -851,9 +852,14 @@ class rsdoabsorbFunction(Function):
                             QSW_3D[t, k, :, :] - QSW_3D[t, k + 1, :, :],
                             QSW_3D[t, k, :, :],
                         )
+                        a[t, k, :, :] = np.where(
+                            (k < KMT - 1) & missing[t, k + 1, :, :], fv, a[t, k, :, :]
+                        )
                     else:
                         a[t, k, :, :] = QSW_3D[t, k, :, :]
-                    a[t, k, :, :] = np.where(k < KMT, a[t, k, :, :], fv)
+                    a[t, k, :, :] = np.where(
+                        (k < KMT) & ~missing[t, k, :, :], a[t, k, :, :], fv
+                    )
 
         ma_a = np.ma.masked_values(a, fv)
         new_name = "{}({}{}{})".format(self.key, p_KMT.name, p_z_t.name, p_QSW_3D.name)
-- 
2.43.0


From 9a27e0fe2828609b9c41bcf7a528c81dc2161a94 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 088/102] fix: leave missing values out of POP_surf_mean

---
 pyconform/modules/commonfunctions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index a68a0a3..08f64a5 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -900,12 +900,16 @@ class POP_surf_meanFunction(Function):
         KMT = p_KMT.data
         TAREA = p_TAREA.data
         FIELD = p_FIELD.data
+        present = ~np.ma.getmaskarray(p_FIELD)
 
-        a = np.empty((p_FIELD.shape[0],))
+        a = np.ma.empty((p_FIELD.shape[0],))
         for t in range(p_FIELD.shape[0]):
-            a[t] = np.sum(np.where(KMT > 0, TAREA * FIELD[t, :, :], 0.0))
-        denom = np.sum(np.where(KMT > 0, TAREA, 0.0))
-        a[:] *= 1.0 / denom
+            used = (KMT > 0) & present[t, :, :]
+            denom = np.sum(np.where(used, TAREA, 0.0))
+            if denom > 0.0:
+                a[t] = np.sum(np.where(used, TAREA * FIELD[t, :, :], 0.0)) / denom
+            else:
+                a[t] = np.ma.masked
 
         new_name = "{}({}{}{})".format(self.key, p_KMT.name, p_TAREA.name, p_FIELD.name)
         new_units = p_FIELD.units
-- 
2.43.0


From 69eb83fa86ff84de5c2ced365708407473db5687 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 089/102] fix: leave missing values out of POP_3D_mean

---
 pyconform/modules/commonfunctions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 08f64a5..dddaa14 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -946,18 +946,22 @@ class POP_3D_meanFunction(Function):
         dz = p_dz.data
         TAREA = p_TAREA.data
         FIELD = p_FIELD.data
+        present = ~np.ma.getmaskarray(p_FIELD)
 
-        a = np.empty((p_FIELD.shape[0],))
+        a = np.ma.empty((p_FIELD.shape[0],))
         for t in range(p_FIELD.shape[0]):
-            a[t] = 0.0
+            total = 0.0
+            denom = 0.0
             for k in range(p_FIELD.shape[1]):
-                a[t] += dz[k] * np.sum(
-                    np.where(k < KMT, TAREA * FIELD[t, k, :, :], 0.0)
+                used = (k < KMT) & present[t, k, :, :]
+                total += dz[k] * np.sum(
+                    np.where(used, TAREA * FIELD[t, k, :, :], 0.0)
                 )
-        denom = 0.0
-        for k in range(p_FIELD.shape[1]):
-            denom += dz[k] * np.sum(np.where(k < KMT, TAREA, 0.0))
-        a[:] *= 1.0 / denom
+                denom += dz[k] * np.sum(np.where(used, TAREA, 0.0))
+            if denom > 0.0:
+                a[t] = total / denom
+            else:
+                a[t] = np.ma.masked
 
         new_name = "{}({}{}{}{})".format(
             self.key, p_KMT.name, p_dz.name, p_TAREA.name, p_FIELD.name
-- 
2.43.0


From 3b48bb6d1b7a3adf6fe0e3896b21f1fae92b420d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 090/102] fix: leave sums with missing values missing in
 POP_layer_sum_mult

---
 pyconform/modules/commonfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index dddaa14..6d888cf 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1059,6 +1059,7 @@ class POP_layer_sum_multFunction(Function):
 
         data1 = p_data1.data
         data2 = p_data2.data
+        missing = np.ma.getmaskarray(p_data2)
         KMT = p_KMT.data
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
@@ -1073,6 +1074,8 @@ class POP_layer_sum_multFunction(Function):
                         a1[t, j, i] = 0.0
                         for k in range(min(KMT[j, i], p_data2.shape[1])):
                             a1[t, j, i] += data1[k] * data2[t, k, j, i]
+                        if missing[t, : KMT[j, i], j, i].any():
+                            a1[t, j, i] = fv
                     else:
                         a1[t, j, i] = fv
 
-- 
2.43.0


From ce47f32078a8850af4ce0e80948165082f8f28ec Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:03 +0000
Subject: [PATCH 091/102] fix: leave the crop type missing where the crop
 fraction is missing

---
 pyconform/modules/commonfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 6d888cf..e2d4ab0 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1548,7 +1548,9 @@ class get_nonwoodyvegFunction(Function):
                 for j in range(p_pct_nat_pft.shape[3]):
                     if landfrac[i, j] <= 1.0:
                         data[t, 1, i, j] = 0.0
-                        if pct_crop[t, 1, i, j] > 0.0:
+                        if pct_crop[t, 1, i, j] >= 1e16:
+                            data[t, 2, i, j] = 1e20
+                        elif pct_crop[t, 1, i, j] > 0.0:
                             data[t, 2, i, j] = 100.0
                         else:
                             data[t, 2, i, j] = 0.0
-- 
2.43.0


From a2b096113a22904ee82a6c22f3ece8228d0b7cab Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 092/102] fix: find the months of time steps counted from the
 end in burntFraction

---
 pyconform/modules/commonfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e2d4ab0..40ae5e9 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1395,7 +1395,9 @@ class burntFractionFunction(Function):
 
         # Month of the first time step requested, and step between months
         tslice = align_index(index, p_data.dimensions)[0]
-        start, step = tslice.start or 0, tslice.step or 1
+        times = (slice(None), slice(0, 0), slice(0, 0))
+        ntimes = self.arguments[0][times].shape[0]
+        start, _, step = tslice.indices(ntimes)
 
         for t in range(0, data.shape[0]):
             i = (start + t * step) % 12
-- 
2.43.0


From a7d9b34363cab3b75ba2cd867a6cd4f1e459422c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:56:31 +0000
Subject: [PATCH 093/102] fix: take points without KMT as land, and KMT of type
 float

---
 pyconform/modules/commonfunctions.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 40ae5e9..fdd4758 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -18,6 +18,13 @@ def _filled(array):
     return np.where(np.ma.getmaskarray(array), 1e20, data)
 
 
+def _levels(KMT):
+    """
+    Numbers of ocean levels (zero where missing)
+    """
+    return np.where(np.ma.getmaskarray(KMT), 0, KMT.data).astype(int)
+
+
 class ZonalMeanFunction(Function):
     key = "zonalmean"
 
@@ -735,7 +742,7 @@ class POP_bottom_layerFunction(Function):
             )
 
         data = _filled(p_data)
-        KMT = p_KMT.data
+        KMT = _levels(p_KMT)
 
         a = np.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
 
@@ -786,7 +793,7 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             a = np.zeros((0, 0, 0, 0))
             fv = 1e20
         else:
-            KMT = p_KMT.data
+            KMT = _levels(p_KMT)
             data = np.ma.asarray(p_data)
 
             a = np.ma.empty((p_data.shape))
@@ -835,7 +842,7 @@ class rsdoabsorbFunction(Function):
             a = np.zeros((0, 0, 0, 0))
             fv = 1e20
         else:
-            KMT = p_KMT.data
+            KMT = _levels(p_KMT)
             QSW_3D = p_QSW_3D.data
             missing = np.ma.getmaskarray(p_QSW_3D)
 
@@ -897,7 +904,7 @@ class POP_surf_meanFunction(Function):
                 units=p_FIELD.units,
             )
 
-        KMT = p_KMT.data
+        KMT = _levels(p_KMT)
         TAREA = p_TAREA.data
         FIELD = p_FIELD.data
         present = ~np.ma.getmaskarray(p_FIELD)
@@ -942,7 +949,7 @@ class POP_3D_meanFunction(Function):
                 units=p_FIELD.units,
             )
 
-        KMT = p_KMT.data
+        KMT = _levels(p_KMT)
         dz = p_dz.data
         TAREA = p_TAREA.data
         FIELD = p_FIELD.data
@@ -987,7 +994,7 @@ class sftofFunction(Function):
                 units=p_KMT.units,
             )
 
-        KMT = p_KMT.data
+        KMT = _levels(p_KMT)
 
         a = np.zeros((KMT.shape[0], KMT.shape[1]))
 
@@ -1020,7 +1027,7 @@ class POP_bottom_layer_multaddFunction(Function):
 
         data1 = p_data1.data
         data2 = _filled(p_data2)
-        KMT = p_KMT.data
+        KMT = _levels(p_KMT)
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
         a2 = np.zeros((p_data2.shape[0]))
@@ -1060,7 +1067,7 @@ class POP_layer_sum_multFunction(Function):
         data1 = p_data1.data
         data2 = p_data2.data
         missing = np.ma.getmaskarray(p_data2)
-        KMT = p_KMT.data
+        KMT = _levels(p_KMT)
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
 
-- 
2.43.0


From df78333c0808c6b1a6baae6bfcc5c3889394ca55 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:56:31 +0000
Subject: [PATCH 094/102] fix: leave the age of air missing where the tracer is
 missing

---
 pyconform/modules/commonfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index fdd4758..1331fc0 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -500,7 +500,7 @@ class AgeofAirFunction(Function):
         lat = p_lat.data
         lev = p_lev.data
 
-        a = np.zeros((len(time), len(lev), len(lat)))
+        a = np.ma.zeros((len(time), len(lev), len(lat)))
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
@@ -522,6 +522,7 @@ class AgeofAirFunction(Function):
                 spc_local = spc_zm[:, iz, iy]
                 time0 = np.interp(spc_local, spc_ref, timeyr)
                 a[:, iz, iy] = timeyr - time0
+        a[np.ma.getmaskarray(p_spc_zm)] = np.ma.masked
 
         new_name = "ageofair({}{}{}{}{})".format(
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
-- 
2.43.0


From 831569a96ed0702eb122cd371c3864151d4bc06a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 095/102] fix: leave the data alone where the declared
 direction is blank or in capitals

---
 pyconform/flownodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 1b1c6c3..a4d9c9c 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -546,8 +546,9 @@ class ValidateNode(FlowNode):
             indata = indata.transpose(self.dimensions)
 
         # Check the positive attribute, if specified
-        positive = self.attributes.get("positive", None)
-        if positive is not None and indata.positive not in (None, positive):
+        # (a blank attribute, as in the MIP tables, does not ask for a direction)
+        positive = str(self.attributes.get("positive", "")).strip().lower()
+        if positive in ("up", "down") and indata.positive not in (None, positive):
             if self._vdesc.dtype is not None and odtype.kind == "u":
                 raise TypeError(
                     (
-- 
2.43.0


From e8222b1500de42201b7203cc9df812e4f87d2654 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:59:03 +0000
Subject: [PATCH 096/102] fix: validate against limits given as text

---
 pyconform/flownodes.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a4d9c9c..2a43b14 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -493,6 +493,13 @@ class ValidateNode(FlowNode):
         """
         return tuple(self._vdesc.dimensions.keys())
 
+    def _limit_(self, name):
+        # The MIP tables give numbers as text
+        limit = self.attributes.get(name, None)
+        if isinstance(limit, str):
+            limit = float(limit) if limit.strip() else None
+        return limit
+
     def __getitem__(self, index):
         """
         Compute and retrieve the data associated with this FlowNode operation
@@ -563,10 +570,10 @@ class ValidateNode(FlowNode):
             return indata
 
         # Testing parameters
-        valid_min = self.attributes.get("valid_min", None)
-        valid_max = self.attributes.get("valid_max", None)
-        ok_min_mean_abs = self.attributes.get("ok_min_mean_abs", None)
-        ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
+        valid_min = self._limit_("valid_min")
+        valid_max = self._limit_("valid_max")
+        ok_min_mean_abs = self._limit_("ok_min_mean_abs")
+        ok_max_mean_abs = self._limit_("ok_max_mean_abs")
 
         # Validate minimum
         if valid_min not in (None, ""):
-- 
2.43.0


From ff89fb67ccb8c912e1c386bd3461dcc0feedeb3b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:02:47 +0000
Subject: [PATCH 097/102] fix: write files with dimensions of no elements

---
 pyconform/flownodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 2a43b14..ed31a9d 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -962,8 +962,11 @@ class WriteNode(FlowNode):
             raise TypeError("Dimension chunks must be a dictionary")
 
         chunks_ = {d: chunks[d] if d in chunks else dsizes[d] for d in dsizes}
+        # What has no elements along a dimension is still one chunk of it
         nchunks = {
             d: int(dsizes[d] // chunks_[d]) + int(dsizes[d] % chunks_[d] > 0)
+            if dsizes[d] > 0
+            else 1
             for d in dsizes
         }
         ntotal = int(numpy.prod([nchunks[d] for d in nchunks]))
-- 
2.43.0


From 8bfd564bd9716e4eb89a12eeb7923ba24516d56f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 098/102] fix: units of time with a capital Since

---
 pyconform/datasets.py  | 14 +++++++++++---
 pyconform/flownodes.py |  4 ++--
 pyconform/functions.py |  5 +++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 1400c2b..03395fc 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -12,6 +12,7 @@ from collections import OrderedDict
 from copy import deepcopy
 from os import linesep
 from os.path import exists
+from re import split
 from warnings import warn
 
 from cf_units import Unit
@@ -21,6 +22,13 @@ from numpy import dtype
 from pyconform.physarray import PhysArray
 
 
+def split_since(units):
+    """
+    Split a units string into the unit and what follows the word "since" (in any case)
+    """
+    return [s.strip() for s in split(r"(?i)since", str(units))]
+
+
 class DefinitionWarning(Warning):
     """Warning to indicate that a variable definition might be bad"""
 
@@ -362,13 +370,13 @@ class VariableDesc(object):
 
     def units(self):
         """Retrieve the units string otherwise None"""
-        ustr = str(self.attributes.get("units", "?")).split("since")[0].strip()
+        ustr = split_since(self.attributes.get("units", "?"))[0]
         return None if ustr in ("", "?", "unknown") else ustr
 
     def refdatetime(self):
         """Retrieve the reference datetime string, otherwise None"""
-        lstr = str(self.attributes.get("units", "?")).split("since")
-        rstr = lstr[1].strip() if len(lstr) > 1 else ""
+        lstr = split_since(self.attributes.get("units", "?"))
+        rstr = lstr[1] if len(lstr) > 1 else ""
         return None if rstr in ("", "?", "unknown") else rstr
 
     def calendar(self):
diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index ed31a9d..d4b82d3 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -17,7 +17,7 @@ import numpy
 from cf_units import Unit, num2date
 from netCDF4 import Dataset
 
-from pyconform.datasets import FileDesc, VariableDesc
+from pyconform.datasets import FileDesc, VariableDesc, split_since
 from pyconform.functions import Function
 from pyconform.indexing import align_index, index_str, index_tuple, join
 from pyconform.physarray import CharArray, PhysArray
@@ -463,7 +463,7 @@ class ValidateNode(FlowNode):
         # necessary
         if "units" in self.attributes:
             if info.units.is_time_reference():
-                ustr, rstr = [c.strip() for c in str(info.units).split("since")]
+                ustr, rstr = split_since(info.units)
                 if self._vdesc.units() is not None:
                     ustr = self._vdesc.units()
                 if self._vdesc.refdatetime() is not None:
diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0841c54..360e5f9 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -11,6 +11,7 @@ import numpy as np
 from cf_units import Unit
 from numpy.ma import sqrt
 
+from pyconform.datasets import split_since
 from pyconform.physarray import PhysArray, UnitsError, getname
 
 
@@ -435,7 +436,7 @@ class ChangeUnitsFunction(Function):
         dunits = Unit(1) if is_constant(data) else data[None].units
         dcal = dunits.calendar
         if dunits.is_time_reference():
-            dunit, dref = [s.strip() for s in dunits.origin.split("since")]
+            dunit, dref = split_since(dunits.origin)
         else:
             dunit = dunits.origin
             dref = None
@@ -443,7 +444,7 @@ class ChangeUnitsFunction(Function):
         uobj = Unit(units) if is_constant(units) else units[None].units
         ucal = uobj.calendar
         if uobj.is_time_reference():
-            uunit, uref = [s.strip() for s in uobj.origin.split("since")]
+            uunit, uref = split_since(uobj.origin)
         else:
             uunit = uobj.origin
             uref = None
-- 
2.43.0


From 3b1e4607ec32e9161170080cba0e4638e6af6c62 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 099/102] fix: maximum over no dimensions

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 360e5f9..486f378 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -387,7 +387,7 @@ class MaxFunction(Function):
             data.dimensions.index(d) for d in dimensions if d in data.dimensions
         )
         new_dims = tuple(d for d in data.dimensions if d not in dimensions)
-        new_name = "max({},{})".format(data.name, dimensions[0])
+        new_name = "max({},{})".format(data.name, ",".join(dimensions))
         if index is None:
             m = np.zeros((0,) * len(new_dims))
         else:
-- 
2.43.0


From 1740f36b895934da1dcb4ee2a75da834542ba6f6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:15:07 +0000
Subject: [PATCH 100/102] fix: interface values of bounds in other units than
 the coordinate

---
 pyconform/modules/commonfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 1331fc0..03b650e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -434,7 +434,7 @@ class BoundsFunction(Function):
                     new_data[0, 0] = data.data[0] - dx[0]
 
         else:
-            idata = self.keywords["idata"][:]
+            idata = PhysArray(self.keywords["idata"][:]).convert(data.units)
 
             ifc_len = len(data) + 1
             ifc_data = empty(ifc_len, dtype=new_data.dtype)
-- 
2.43.0


From a60a940dbbdd013a86445880127ad96264beec38 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 07:28:22 +0000
Subject: [PATCH 101/102] fix: filled attributes recognised by their whole name

---
 pyconform/cli/iconform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 2c56bac..0573289 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -188,15 +188,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
     for a, d in attr.items():
         if isinstance(d, str):
             if "__FILL__" in d:
-                if "activity_id" in a and "activity_id" in table:
+                if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-                elif "creation_date" in a:
+                elif a == "creation_date":
                     attr["creation_date"] = ""
-                elif "data_specs_version" in a and "data_specs_version" in table:
+                elif a == "data_specs_version" and "data_specs_version" in table:
                     attr["data_specs_version"] = table["data_specs_version"]
-                elif "experiment" in a and "experiment" in table:
+                elif a == "experiment" and "experiment" in table:
                     attr["experiment"] = table["experiment"]
-                elif "external_variables" in a:
+                elif a == "external_variables":
                     if "cell_measures" in v.keys():
                         if "areacello" in v["cell_measures"]:
                             if (
@@ -249,15 +249,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                                     attr["external_variables"] + " volcello"
                                 )
 
-                elif "frequency" in a:
+                elif a == "frequency":
                     attr["frequency"] = v["frequency"]
-                elif "realm" in a and "realm" in v.keys():
+                elif a == "realm" and "realm" in v.keys():
                     attr["realm"] = v["realm"]
-                elif "table_id" in a:
+                elif a == "table_id":
                     attr["table_id"] = v["mipTable"]
-                elif "tracking_id" in a:
+                elif a == "tracking_id":
                     attr["tracking_id"] = "hdl:21.14100/" + str(uuid.uuid4())
-                elif "variable_id" in a and "variable_id" in v.keys():
+                elif a == "variable_id" and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
     if "FILL" in attr.get("external_variables", ""):
-- 
2.43.0


From 494a82a2df469ff41238877e46c97facc8a83271 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 07:30:15 +0000
Subject: [PATCH 102/102] fix: text attribute files in folders named after json

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 0573289..a28dd08 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -872,7 +872,7 @@ def main(argv=None):
     if args.globalAttrFile:
         for gaFile in args.globalAttrFile.split(","):
             if os.path.isfile(gaFile):
-                if "json" in gaFile:
+                if "json" in os.path.basename(gaFile):
                     print("opening ", gaFile)
                     with open(gaFile) as gaF:
                         ga = json.load(gaF)
-- 
2.43.0

