From 639eca0a70ea4e3148c64285f289ad4f938ea5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 01/44] fix: convert point timeseries to a single target time
 point

---
 openscm/core/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..6dab5bb 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -422,7 +422,7 @@ class TimeseriesConverter:
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
 
-        if self._source[0] > self._target[1]:  # TODO: consider extrapolation type
+        if self._source[0] > self._target[:2][-1]:  # TODO: consider extrapolation type
             raise InsufficientDataError
 
     def _calc_continuous_representation(
-- 
2.43.0


From f9ac68946158d100939de7cfd4e3568b9a4c9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 02/44] fix: refuse average conversions outside the source time
 span without extrapolation

---
 openscm/core/time.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 6dab5bb..90b5937 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -541,13 +541,21 @@ class TimeseriesConverter:
         if len(values) < 3:
             raise InsufficientDataError
 
+        error_msg = (
+            "Target time points are outside the source time points, use an "
+            "extrapolation type other than None"
+        )
+        # the quadrature used for averages does not necessarily evaluate the
+        # continuous representation outside of the source time points
+        if self._extrapolation_type == ExtrapolationType.NONE and (
+            target_time_points.min() < source_time_points.min()
+            or target_time_points.max() > source_time_points.max()
+        ):
+            raise InsufficientDataError(error_msg)
+
         try:
             return self._convert_unsafe(values, source_time_points, target_time_points)
         except ValueError:
-            error_msg = (
-                "Target time points are outside the source time points, use an "
-                "extrapolation type other than None"
-            )
             raise InsufficientDataError(error_msg)
 
     def _convert_unsafe(
-- 
2.43.0


From eb21058eee0ea7374ba42422fd1de7fc75630592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:14 +0000
Subject: [PATCH 03/44] fix: keep the offset of degreeC and degreeF

---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..f14c16c 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -261,8 +261,8 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         self.define("a = 1 * year = annum = yr")
         self.define("h = hour")
         self.define("d = day")
-        self.define("degreeC = degC")
-        self.define("degreeF = degF")
+        self.define("degreeC = kelvin; offset: 273.15")
+        self.define("degreeF = 5 / 9 * kelvin; offset: 233.15 + 200 / 9")
         self.define("kt = 1000 * t")  # since kt is used for "knot" in the defaults
 
         self.define("ppt = [concentrations]")
-- 
2.43.0


From b0d4a31baa498013ec06460c93e045cc4be2799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 04/44] fix: define sulfur as base unit of sulfur emissions

---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index f14c16c..18d38d4 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From 77ffc3d89974786cf0a40a658a9d22ad3edefa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 05/44] fix: return no information for an empty region name

---
 openscm/core/parameterset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..fe1fadc 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -94,7 +94,7 @@ class ParameterSet:
         if isinstance(name, str):
             name = name.split(HIERARCHY_SEPARATOR)
 
-        if name[0] != self._root.name:
+        if not name or name[0] != self._root.name:
             return None
 
         return self._root.get_subregion(name[1:])
-- 
2.43.0


From ec3210ebd07887456322d8d336b34461d6acbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 06/44] fix: refuse new child parameters below parameters read
 in an aggregated way

---
 openscm/core/parameters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..029d692 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -275,7 +275,16 @@ class _Parameter:
                     float("NaN"),
                 )
                 self.time_points = np.array(time_points, copy=True)
+        self._mark_as_read()
+
+    def _mark_as_read(self) -> None:
+        """
+        Mark this parameter and all parameters it aggregates over as read, such that no
+        child parameters can be added to them.
+        """
         self.has_been_read_from = True
+        for child in self.children.values():
+            child._mark_as_read()
 
     def attempt_write(
         self,
-- 
2.43.0


From 3eb524470d7a4bcef72e16fca523d573ba956eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 07/44] fix: do not set the type of a parameter when refusing a
 generic view

---
 openscm/core/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 029d692..9c636b3 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -257,13 +257,13 @@ class _Parameter:
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
         if self.parameter_type is None:
+            if parameter_type == ParameterType.GENERIC and self.children:
+                raise ParameterAggregationError
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
-- 
2.43.0


From 52e6e043071c9d391749337c6e73421237f17d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 08/44] fix: do not create parameters when refusing an
 undefined unit

---
 openscm/core/parameterset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index fe1fadc..e0973d8 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -14,6 +14,7 @@ from .parameters import (
 )
 from .regions import _Region
 from .time import ExtrapolationType, InterpolationType
+from .units import UnitConverter
 from .views import GenericView, ScalarView, TimeseriesView
 
 
@@ -164,6 +165,7 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
+        UnitConverter(unit, unit)  # refuse undefined units before creating parameter
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
@@ -218,6 +220,7 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
+        UnitConverter(unit, unit)  # refuse undefined units before creating parameter
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
-- 
2.43.0


From e01fea5387e9d84f444be6d924adb11173a340fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 09/44] fix: refresh aggregated timeseries views after children
 were written

---
 openscm/core/views.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..a1b0b92 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -342,13 +342,19 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 self._parameter
             )
 
+    def _get_version(self) -> int:
+        if self._parameter.children:
+            return sum(v._get_version() for v in self._child_data_views)
+        return self._parameter.version
+
     def _read(self):
+        version = self._get_version()
         if self._data is None:
             self._data = self._get_values()
-            self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+            self._version = version
+        elif self._version != version:
             np.copyto(self._data, self._get_values())
-            self._version = self._parameter.version
+            self._version = version
 
     def _check_write(self):
         if not self._writable:
-- 
2.43.0


From c143a71d1a3c1967a1cddcf5949443386a746e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 10/44] fix: refuse in-place writes to aggregated timeseries

---
 openscm/core/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index a1b0b92..b3976dd 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -33,6 +33,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         ]
         outputs = kwargs.pop("out", None)
         if outputs:
+            for output in outputs:
+                if isinstance(output, type(self)):
+                    output._parameter_view._check_write()
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
@@ -103,6 +106,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
+        self._parameter_view._check_write()
         self._ndarray[key] = val
         self.__write__()
 
-- 
2.43.0


From 9e60d26be99816fbb2ae040793c1632a83b9007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:11 +0000
Subject: [PATCH 11/44] fix: keep timeseries handles up to date when computing
 with or writing to them

---
 openscm/core/views.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index b3976dd..de252b6 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -62,8 +62,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
+            self.__read__()
             with np.errstate(all="ignore"):
                 return op(self._ndarray, other)
 
@@ -107,6 +108,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     def __setitem__(self, key, val):
         self._parameter_view._check_write()
+        self.__read__()
         self._ndarray[key] = val
         self.__write__()
 
@@ -119,6 +121,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return "timeseries({})".format(repr(self._ndarray))
 
     def __array__(self, dtype=None):
+        self.__read__()
         return np.asarray(self._ndarray, dtype=dtype)
 
     def __len__(self):
-- 
2.43.0


From 231aed65b44003e949971274bbb94015eb5e194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 12/44] fix: leave parameters and views unchanged when a write
 is refused

---
 openscm/core/views.py | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index de252b6..4173293 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -10,7 +10,11 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -227,12 +231,15 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        if self._parameter.children:
+            raise ParameterReadonlyError
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
@@ -275,8 +282,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     _unit_converter: UnitConverter
     """Unit converter"""
 
-    _version: int
-    """Version of cache"""
+    _version: Optional[int]
+    """Version of cache (or ``None`` if cache is invalid)"""
 
     _writable: bool
     """Is this view writable? Is set to ``True`` once this view is written to."""
@@ -320,6 +327,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         self._data = None
         self._locked = False
         self._timeseries = None
+        self._version = None
         self._writable = False
 
         def get_data_views_for_children_or_parameter(
@@ -364,19 +372,26 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = version
 
     def _check_write(self):
-        if not self._writable:
-            self._parameter.attempt_write(
-                self._timeseries_converter._timeseries_type,
-                self._unit_converter.target,
-                self._timeseries_converter._target,
-            )
-            self._writable = True
+        if self._parameter.children:
+            raise ParameterReadonlyError
 
     def _write(self):
         if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
-                self._unit_converter.convert_to(self._data)
-            )
+            try:
+                data = self._timeseries_converter.convert_to(
+                    self._unit_converter.convert_to(self._data)
+                )
+            except Exception:
+                self._version = None  # discard refused data when next read
+                raise
+            if not self._writable:
+                self._parameter.attempt_write(
+                    self._timeseries_converter._timeseries_type,
+                    self._unit_converter.target,
+                    self._timeseries_converter._target,
+                )
+                self._writable = True
+            self._parameter.data = data
             self._parameter.version += 1
             self._version = self._parameter.version
 
-- 
2.43.0


From e922c04adb5362d12e854415e22abf8484047b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 13/44] fix: let unlocking a timeseries view write pending
 changes only and keep these until then

---
 openscm/core/views.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 4173293..0d56d5d 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -273,6 +273,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Have writes while being locked not yet updated the underlying parameter?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -326,6 +329,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
         self._version = None
         self._writable = False
@@ -363,6 +367,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         return self._parameter.version
 
     def _read(self):
+        if self._pending:
+            return
         version = self._get_version()
         if self._data is None:
             self._data = self._get_values()
@@ -376,6 +382,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             raise ParameterReadonlyError
 
     def _write(self):
+        self._pending = self._locked
         if not self._locked:
             try:
                 data = self._timeseries_converter.convert_to(
@@ -479,10 +486,11 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if this view has been written to since locking.
         """
         self._locked = False
-        self._write()
+        if self._pending:
+            self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 95ef57935d769a0ee3e519648c2b4ee79bcd5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 14/44] fix: let timeseries views set to integers take any
 other values

---
 openscm/core/views.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 0d56d5d..c07e2ba 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -29,7 +29,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     _HANDLED_TYPES = (np.ndarray, numbers.Number)
     __array_priority__ = 1000
-    _ndarray: np.ndarray
+    _buffer: np.ndarray
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         args = [
@@ -40,6 +40,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             for output in outputs:
                 if isinstance(output, type(self)):
                     output._parameter_view._check_write()
+                    output._parameter_view._promote()
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
@@ -55,6 +56,13 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             return results[0] if len(results) == 1 else results
         return self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
 
+    @property
+    def _ndarray(self) -> np.ndarray:
+        if self._sliced is not None:  # follow replacements of the original buffer
+            timeseries, item = self._sliced
+            return timeseries._ndarray[item]
+        return self._buffer
+
     @property
     def shape(self) -> Tuple[int, ...]:
         """
@@ -92,8 +100,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         parameter_view
             :class:`TimeseriesView` this timeseries belongs to
         """
-        self._ndarray = np.asarray(input_array)
+        self._buffer = np.asarray(input_array)
         self._parameter_view = parameter_view
+        self._sliced = None
 
     def __read__(self):
         self._parameter_view._read()
@@ -108,11 +117,14 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         result = self._ndarray[item]
         if not isinstance(item, int):
             result = type(self)(result, self._parameter_view)
+            if isinstance(item, slice):
+                result._sliced = (self, item)
         return result
 
     def __setitem__(self, key, val):
         self._parameter_view._check_write()
         self.__read__()
+        self._parameter_view._promote()
         self._ndarray[key] = val
         self.__write__()
 
@@ -374,9 +386,19 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = self._get_values()
             self._version = version
         elif self._version != version:
+            self._promote()
             np.copyto(self._data, self._get_values())
             self._version = version
 
+    def _promote(self):
+        """
+        Make sure that the cache can take any value (i.e., also if integers were set).
+        """
+        if self._data is not None and self._data.dtype.kind in "biu":
+            self._data = self._data.astype(float)
+            if self._timeseries is not None:
+                self._timeseries._buffer = self._data
+
     def _check_write(self):
         if self._parameter.children:
             raise ParameterReadonlyError
@@ -453,7 +475,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = np.asarray(v).copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
-            np.copyto(self._data, np.asarray(v))
+            v = np.asarray(v)
+            self._promote()
+            np.copyto(self._data, v)
         self._write()
 
     @property
-- 
2.43.0


From af8a31c898696125c4e0b60a49c495c02035e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:04 +0000
Subject: [PATCH 15/44] fix: refuse to aggregate over parameters of different
 types

---
 openscm/core/parameters.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 9c636b3..aa9e506 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -259,6 +259,7 @@ class _Parameter:
         if self.parameter_type is None:
             if parameter_type == ParameterType.GENERIC and self.children:
                 raise ParameterAggregationError
+            self._check_aggregation(parameter_type)
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
@@ -277,6 +278,15 @@ class _Parameter:
                 self.time_points = np.array(time_points, copy=True)
         self._mark_as_read()
 
+    def _check_aggregation(self, parameter_type: ParameterType) -> None:
+        """
+        Check that all parameters this parameter aggregates over have the same type.
+        """
+        for child in self.children.values():
+            if child.parameter_type not in (None, parameter_type):
+                raise ParameterTypeError
+            child._check_aggregation(parameter_type)
+
     def _mark_as_read(self) -> None:
         """
         Mark this parameter and all parameters it aggregates over as read, such that no
-- 
2.43.0


From d1e8e695142d0f8b04159217d36678ce3daf2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 16/44] fix: take all characters but * literally in metadata
 filters

---
 openscm/scmdataframe/filters.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..1a76e95 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,17 +169,11 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
-            pattern = re.compile(_regexp if not regexp else str(s))
+            # only `*` has a special meaning in pseudo-regexp syntax
+            _regexp = re.escape(str(s)).replace(r"\*", ".*") + r"\Z"
+            pattern = re.compile(
+                _regexp if not regexp else str(s), 0 if regexp else re.DOTALL
+            )
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
             except TypeError as e:
-- 
2.43.0


From c92799941e2efb9be3215b08c133e2258b8d1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 17/44] fix: count levels beyond the leading part of the filter
 only

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 1a76e95..019f793 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -99,7 +99,7 @@ def find_depth(
     regexp = str(s).replace("*", "")
 
     def apply_test(val):
-        return test(len(pipe.findall(val.replace(regexp, ""))))
+        return test(len(pipe.findall(val.replace(regexp, "", 1))))
 
     return np.array([b for b in [apply_test(m) for m in meta_col]])
 
-- 
2.43.0


From 09c330f913660397e764fcf86f416f2d446dde4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 18/44] fix: let empty metadata filters match nothing

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 019f793..64a5cac 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = pd.Series(False, index=meta_col.index)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
-- 
2.43.0


From 3204c772d432b35d413bbec1538c983f97fda08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 19/44] fix: allow None and dates in filtered metadata columns

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 64a5cac..f117755 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -164,7 +164,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            [pd.isnull(i) if not isinstance(i, str) else False for i in _meta_col]
         ] = ""
 
     for s in _values:
-- 
2.43.0


From 5408a6bdf4d92bd284c0ec4e33df3e9ec6f81a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 20/44] fix: handle several or malformed ranges in month and
 day filters

---
 openscm/scmdataframe/filters.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index f117755..1514a2d 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -361,14 +361,14 @@ def time_match(
             raise ValueError(error_msg)
         return res
 
-    if isinstance(times_list[0], str):
-        to_delete = []
-        to_append = []  # type: List
-        for i, timeset in enumerate(times_list):
+    if len(times_list) > 0 and isinstance(times_list[0], str):
+        singles = []  # type: List
+        ranges = []  # type: List
+        for timeset in times_list:
             # ignore type as already established we're looking at strings
             if "-" in timeset:  # type: ignore
                 ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
-                if ints[0] > ints[1]:
+                if len(ints) != 2 or ints[0] > ints[1]:
                     error_msg = (
                         "string ranges must lead to increasing integer ranges,"
                         " {} becomes {}".format(timeset, ints)
@@ -376,14 +376,11 @@ def time_match(
                     raise ValueError(error_msg)
 
                 # + 1 to include last month
-                to_append += [j for j in range(ints[0], ints[1] + 1)]
-                to_delete.append(i)
+                ranges += [j for j in range(ints[0], ints[1] + 1)]
+            else:
+                singles.append(timeset)
 
-        for i in to_delete:
-            del times_list[i]
-
-        times_list = conv_strs(times_list, conv_codes, name)
-        times_list += to_append
+        times_list = conv_strs(singles, conv_codes, name) + ranges
 
     return is_in(data, times_list)
 
-- 
2.43.0


From 613bdfeb9a5c1a93fa3a2e7fffdfd0f14cd5ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 21/44] fix: report calendar components of no time points

---
 openscm/core/time.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 90b5937..1e24c9c 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -201,7 +201,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Year of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "year")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "year")
 
     def months(self) -> np.ndarray:
         """
@@ -212,7 +212,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Month of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "month")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "month")
 
     def days(self) -> np.ndarray:
         """
@@ -223,7 +223,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "day")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "day")
 
     def hours(self) -> np.ndarray:
         """
@@ -234,7 +234,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Hour of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "hour")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "hour")
 
     def weekdays(self) -> np.ndarray:
         """
@@ -245,7 +245,9 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of the week of each time point
         """
-        return np.vectorize(datetime.datetime.weekday)(self._values.astype(object))
+        return np.vectorize(datetime.datetime.weekday, otypes=[int])(
+            self._values.astype(object)
+        )
 
 
 def create_time_points(  # TODO: replace by simpler function
-- 
2.43.0


From f08a3b3062dcee438113a4e40f68bc6fbcb114cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 22/44] fix: recognise weekdays in any sequence given as day
 filter

---
 openscm/scmdataframe/base.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..f73f667 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -768,14 +768,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         return keep_ts, keep_meta
 
     def _day_match(self, values):
-        if isinstance(values, str):
-            wday = True
-        elif isinstance(values, list) and isinstance(values[0], str):
-            wday = True
-        else:
-            wday = False
+        first = next(iter(values), None) if isinstance(values, Iterable) else values
 
-        if wday:
+        if isinstance(first, str):  # weekdays
             days = self._time_points.weekdays()
         else:  # ints or list of ints
             days = self._time_points.days()
-- 
2.43.0


From 607010426d37c57efac836732520f3c077cc442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:39 +0000
Subject: [PATCH 23/44] fix: filter frames without any data

---
 openscm/scmdataframe/base.py    | 4 ++--
 openscm/scmdataframe/filters.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index f73f667..87fe2e0 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -712,8 +712,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Filtering cannot be performed on requested column
         """
         regexp = filters.pop("regexp", False)
-        keep_ts = np.array([True] * len(self._data))
-        keep_meta = np.array([True] * len(self.meta))
+        keep_ts = np.array([True] * len(self._data), dtype=bool)
+        keep_meta = np.array([True] * len(self.meta), dtype=bool)
 
         # filter by columns and list of values
         for col, values in filters.items():
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 1514a2d..d56cc9a 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -34,7 +34,7 @@ def is_in(vals: List, items: List) -> np.ndarray:
         Array of the same length as :obj:`vals` where the element is ``True`` if the
         corresponding element of :obj:`vals` is in :obj:`items` and False otherwise
     """
-    return np.array([v in items for v in vals])
+    return np.array([v in items for v in vals], dtype=bool)
 
 
 def find_depth(
@@ -101,7 +101,7 @@ def find_depth(
     def apply_test(val):
         return test(len(pipe.findall(val.replace(regexp, "", 1))))
 
-    return np.array([b for b in [apply_test(m) for m in meta_col]])
+    return np.array([apply_test(m) for m in meta_col], dtype=bool)
 
 
 def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
-- 
2.43.0


From 8448fb24c7bddb8b48289f23af7a732099084e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 24/44] fix: change nothing when refusing a unit conversion in
 place

---
 openscm/scmdataframe/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 87fe2e0..ae63329 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1247,7 +1247,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             with the converted units.
         """
         # pylint: disable=protected-access
-        ret = self if inplace else self.copy()
+        ret = self.copy()
 
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
@@ -1264,6 +1264,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         if not inplace:
             return ret
+
+        # all conversions were possible
+        self._data, self._meta = ret._data, ret._meta
         return None
 
     def relative_to_ref_period_mean(
-- 
2.43.0


From 5ee46c6267ca1baee8d5af1541ad486735affbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 25/44] fix: use the guessed parameter types for any metadata
 when interpolating

---
 openscm/scmdataframe/base.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index ae63329..3a5e9eb 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -981,20 +981,25 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._meta["parameter_type"] = None
             res._sort_meta_cols()
 
-        def guess(r):
-            if r.parameter_type is None:
+        def guess(parameter_type, variable, unit):
+            if pd.isnull(parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
-                parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
+                parameter_type = (
                     "average"
-                    if parameter_type == ParameterType.AVERAGE_TIMESERIES
+                    if guess_parameter_type(variable, unit)
+                    == ParameterType.AVERAGE_TIMESERIES
                     else "point"
                 )
-            return r
+            return parameter_type
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [
+            guess(parameter_type, variable, unit)
+            for parameter_type, variable, unit in zip(
+                res._meta["parameter_type"], res._meta["variable"], res._meta["unit"]
+            )
+        ]
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From 053bb2d5ef2673f8bbeb9a58fb734ddb592f73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 26/44] fix: interpolate frames holding both average and point
 timeseries

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 3a5e9eb..dadb002 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_time_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_time_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From 4aff212a0a49d4e4eb7bc4ab2307bd960f2709f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 27/44] fix: roll dates far outside the nanosecond range to
 offsets

---
 openscm/scmdataframe/offsets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..064253a 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -59,6 +59,14 @@ def apply_dt(func, self):
     return wrapper
 
 
+def _apply_single(obj, n, dt):
+    """
+    Apply :obj:`n` single steps of an offset, keeping the result as a datetime.
+    """
+    step = obj.__class__(n, normalize=obj.normalize, **obj.kwds)
+    return apply_dt(step.__class__.apply.__wrapped__, step)(dt)
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -67,7 +75,7 @@ def apply_rollforward(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _apply_single(obj, 1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -81,7 +89,7 @@ def apply_rollback(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _apply_single(obj, -1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
-- 
2.43.0


From 779d2661e8ff17da7be9ff1473986cbf2b20e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 28/44] fix: generate ranges with fixed periods far outside the
 nanosecond range

---
 openscm/scmdataframe/offsets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 064253a..20fce6c 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,7 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -136,6 +137,9 @@ def to_offset(rule: str) -> DateOffset:
             object.__setattr__(offset, fname, apply_dt(orig_func, offset))
 
     wrap_funcs("apply")
+    if isinstance(offset, Tick):  # fixed periods, not wrapped by pandas
+        delta = offset.delta.to_pytimedelta()
+        object.__setattr__(offset, "apply", lambda dt: as_datetime(dt) + delta)
     object.__setattr__(offset, "rollforward", apply_rollforward(offset))
     object.__setattr__(offset, "rollback", apply_rollback(offset))
 
-- 
2.43.0


From 34acb50baa27d5fcad85a0bfa2091ea3c5b5dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 29/44] fix: let generated date ranges reach the end for any
 offset

---
 openscm/scmdataframe/offsets.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 20fce6c..ddbabd2 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -247,15 +247,17 @@ def generate_range(
      datetime.datetime(2005, 4, 1, 0, 0),
      datetime.datetime(2005, 7, 1, 0, 0)]
     """
-    # Get the bounds
-    start = offset.rollback(start)
-    end = offset.rollforward(end)
+    if start > end:
+        return
 
     # Iterate to find all the required timesteps
-    current = start
-    while current <= end:
+    current = offset.rollback(start)
+    while True:
         yield current
 
+        if current >= end:
+            return
+
         next_current = offset.apply(current)
         if next_current <= current:
             raise ValueError(  # pragma: no cover  # emergency valve
-- 
2.43.0


From 4c774daf2e787c4bda1120076a8e9624bc8a08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:25 +0000
Subject: [PATCH 30/44] fix: keep metadata of -999 when appending frames

---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index dadb002..f1418c2 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1497,6 +1497,8 @@ def df_append(
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = -999
+    while any((d.meta == na_fill_value).values.any() for d in joint_dfs):
+        na_fill_value -= 1  # must not be mistaken for metadata
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From c0a49376f2173a88b2d13d0abc16763662c10cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 31/44] fix: convert parameters in regions of any depth to data
 frames

---
 openscm/scmdataframe/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..efb612d 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -108,17 +108,15 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
+
+    def walk_regions(region):
+        # pylint: disable=protected-access
+        for _, value in region._parameters.items():
             root_params.update(walk_parameters(value))
+        for _, r in region._children.items():
+            walk_regions(r)
+
+    walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From 9473a28b9108a9bd46de0049e27f550daa5fa302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 32/44] fix: read units with brackets when converting metadata
 to parameters

---
 openscm/scmdataframe/base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index f1418c2..5e5ac99 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -525,8 +525,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         unit_regexp = re.compile(r".*\(.*\)")
         for k, v in meta_values.iteritems():
             if unit_regexp.match(k):
-                para_name = k.split("(")[0].strip()
-                para_unit = k.split("(")[1].split(")")[0].strip()
+                para_name, para_unit = _split_unit(k)
                 parameterset.scalar(para_name, para_unit).value = v
             else:
                 parameterset.generic(k).value = v
@@ -1547,6 +1546,19 @@ def df_append(
     return None
 
 
+def _split_unit(name: str) -> Tuple[str, str]:
+    """
+    Split a name of the form "name (unit)", where both may contain brackets, too.
+    """
+    start = end = name.rindex(")")
+    depth = 1
+    while depth and start:
+        start -= 1
+        depth += {")": 1, "(": -1}.get(name[start], 0)
+
+    return name[:start].strip(), name[start + 1 : end].strip()
+
+
 def _handle_potential_duplicates_in_append(data, duplicate_msg):
     # If only one number contributes to each of the timeseries, we're not looking at
     # duplicates so can return.
-- 
2.43.0


From 27f6b23b6f4416f8c1f14ca238ea637f3b353da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 33/44] fix: sort the times of any data frame as instants and
 leave the data given as they are

---
 openscm/scmdataframe/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5e5ac99..b2e9702 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -231,8 +231,7 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    df = pd.DataFrame(df).copy()
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
@@ -253,6 +252,7 @@ def _from_ts(
         )
 
         if len(col_list) == num_ts:
+            columns[c_name] = list(col_list)
             continue
         if len(col_list) != 1:
             error_msg = (
@@ -260,7 +260,7 @@ def _from_ts(
                 "1 or {}".format(c_name, num_ts)
             )
             raise ValueError(error_msg)
-        columns[c_name] = col_list * num_ts
+        columns[c_name] = list(col_list) * num_ts
 
     meta = pd.DataFrame(columns, index=df.columns)
 
@@ -387,9 +387,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             (_df, _meta) = _read_file(data, **kwargs)
 
+        _df.index = TimePoints(_df.index.values).to_index()
+        _df = _df.sort_index(kind="mergesort").astype(float)
         self._time_points = TimePoints(_df.index.values)
-        _df.index = self._time_points.to_index()
-        _df = _df.astype(float)
 
         self._data, self._meta = (_df, _meta)
         self._sort_meta_cols()
-- 
2.43.0


From b02f86e0cc311df542bf33cde1e04a1d2b560c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:55 +0000
Subject: [PATCH 34/44] fix: load long tables with missing metadata

---
 openscm/scmdataframe/base.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b2e9702..838c160 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -170,8 +170,13 @@ def _format_long_data(df):
         raise ValueError(msg)
 
     extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
-    df = df.pivot_table(columns=REQUIRED_COLS + extra_cols, index=time_col).value
-    meta = df.columns.to_frame(index=None)
+    meta_cols = REQUIRED_COLS + extra_cols
+    na_fill_value = _get_na_fill_value([df[meta_cols]])  # or else rows would be dropped
+    df[meta_cols] = df[meta_cols].fillna(na_fill_value)
+    df = df.pivot_table(columns=meta_cols, index=time_col).value
+    meta = df.columns.to_frame(index=None).replace(
+        to_replace=na_fill_value, value=np.nan
+    )
     df.columns = meta.index
 
     return df, meta
@@ -1495,9 +1500,7 @@ def df_append(
     joint_meta_set = set(joint_meta)
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
-    na_fill_value = -999
-    while any((d.meta == na_fill_value).values.any() for d in joint_dfs):
-        na_fill_value -= 1  # must not be mistaken for metadata
+    na_fill_value = _get_na_fill_value([d.meta for d in joint_dfs])
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
@@ -1559,6 +1562,17 @@ def _split_unit(name: str) -> Tuple[str, str]:
     return name[:start].strip(), name[start + 1 : end].strip()
 
 
+def _get_na_fill_value(metas: List[pd.DataFrame]) -> int:
+    """
+    Get a number representing missing metadata, which is none of the metadata.
+    """
+    na_fill_value = -999
+    while any((meta == na_fill_value).values.any() for meta in metas):
+        na_fill_value -= 1
+
+    return na_fill_value
+
+
 def _handle_potential_duplicates_in_append(data, duplicate_msg):
     # If only one number contributes to each of the timeseries, we're not looking at
     # duplicates so can return.
-- 
2.43.0


From c894b1ab6534ae37f1034b74d6872b1fb373dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:20 +0000
Subject: [PATCH 35/44] fix: load tables giving their times in different ways

---
 openscm/scmdataframe/base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 838c160..a5031be 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -152,9 +152,6 @@ def _format_data(  # pylint: disable=missing-return-doc
     else:
         df, meta = _format_wide_data(df)
 
-    # sort data
-    df.sort_index(inplace=True)
-
     return df, meta
 
 
-- 
2.43.0


From 222a97a1fcf608234adfa99b5bd588d10c8e1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:43 +0000
Subject: [PATCH 36/44] fix: accept metadata names in any letter case in the
 index of tables

---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a5031be..3b66f14 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -134,14 +134,14 @@ def _format_data(  # pylint: disable=missing-return-doc
     if isinstance(df, pd.Series):
         df = df.to_frame()
 
-    # all lower case
-    str_cols = [c for c in df.columns if isinstance(c, str)]
-    df.rename(columns={c: str(c).lower() for c in str_cols}, inplace=True)
-
     # reset the index if meaningful entries are included there
     if list(df.index.names) != [None]:
         df.reset_index(inplace=True)
 
+    # all lower case
+    str_cols = [c for c in df.columns if isinstance(c, str)]
+    df.rename(columns={c: str(c).lower() for c in str_cols}, inplace=True)
+
     if not set(REQUIRED_COLS).issubset(set(df.columns)):
         missing = list(set(REQUIRED_COLS) - set(df.columns))
         raise ValueError("missing required columns `{}`!".format(missing))
-- 
2.43.0


From d2e89deab6a65900cae3285a871876d590a412c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 37/44] fix: infer the timeseries type for any unit, also ones
 without a known meaning

---
 openscm/scmdataframe/parameter_type.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/parameter_type.py b/openscm/scmdataframe/parameter_type.py
index 5a15f16..266d184 100644
--- a/openscm/scmdataframe/parameter_type.py
+++ b/openscm/scmdataframe/parameter_type.py
@@ -5,7 +5,7 @@ import re
 from typing import Optional
 
 from ..core.parameters import ParameterType
-from ..core.units import UndefinedUnitError, _unit_registry
+from ..core.units import _unit_registry
 
 """
 List of regex patterns for matching variable names to :obj:`ParameterType`.
@@ -51,17 +51,19 @@ def guess_parameter_type(variable_name: str, unit: Optional[str]) -> ParameterTy
         Our guess of the parameter type which should be used for this
         :obj:`variable_name` and :obj:`unit`
     """
-    if unit:
+    if unit and isinstance(unit, str):
         # try and determine if the unit contains a time dimension
         try:
-            pint_unit = _unit_registry(unit).units
-            if "[time]" in str(pint_unit.dimensionality):
+            dimensionality = _unit_registry.parse_units(unit).dimensionality
+        except Exception:  # pylint: disable=broad-except
+            # the unit is undefined or cannot be understood at all (for which pint
+            # raises all kinds of errors): default to parsing from variable name
+            pass
+        else:
+            if "[time]" in str(dimensionality):
                 return ParameterType.AVERAGE_TIMESERIES
 
             return ParameterType.POINT_TIMESERIES
-        except UndefinedUnitError:
-            # default to trying to parse from variable name
-            pass
 
     for r, t in parameter_matches:
         if r.match(variable_name):
-- 
2.43.0


From 27f7881f728d7d35ec153c1c10f8fa4f562c844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 38/44] fix: keep timeseries with missing metadata in
 statistics over columns

---
 openscm/scmdataframe/base.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 3b66f14..0398438 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1203,17 +1203,30 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
-        group_cols = list(set(ts.index.names) - set(cols))
+        group_cols = [c for c in ts.index.names if c not in cols]
+
+        # pandas leaves timeseries with missing metadata out of all groups
+        meta = self.meta
+        na_fill_value = _get_na_fill_value([meta])
+        ts.index = pd.MultiIndex.from_frame(meta.fillna(na_fill_value))
         grouper = ts.groupby(group_cols)
 
         if operation == "median":
-            return grouper.median(**kwargs)
-        if operation == "mean":
-            return grouper.mean(**kwargs)
-        if operation == "quantile":
-            return grouper.quantile(**kwargs)
+            res = grouper.median(**kwargs)
+        elif operation == "mean":
+            res = grouper.mean(**kwargs)
+        elif operation == "quantile":
+            res = grouper.quantile(**kwargs)
+        else:
+            raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
 
-        raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+        groups = res.index.to_frame().replace(to_replace=na_fill_value, value=np.nan)
+        if res.index.nlevels == 1:
+            res.index = pd.Index(groups.iloc[:, 0], name=res.index.name)
+        else:
+            res.index = pd.MultiIndex.from_frame(groups, names=res.index.names)
+
+        return res
 
     def convert_unit(
         self,
-- 
2.43.0


From 94053e7e8b680628758b0f718d775e8084d808c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:28 +0000
Subject: [PATCH 39/44] fix: take every timeseries relative to its own
 reference period mean

---
 openscm/scmdataframe/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 0398438..69baf83 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1316,11 +1316,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         ts = self.timeseries()
         # mypy confused by `inplace` default
-        ref_period_mean = (
-            self.filter(**kwargs).timeseries().mean(axis="columns")  # type: ignore
-        )
+        ref_period = self.filter(**kwargs)._data  # type: ignore
+        ref_period_mean = ref_period.mean(axis="rows").reindex(self._data.columns)
 
-        res = ts.sub(ref_period_mean, axis="rows")
+        res = ts.sub(ref_period_mean.values, axis="rows")
         res.reset_index(inplace=True)
 
         if append_str is None:
-- 
2.43.0


From 6c6d7012137c6c3fcb6f9cc73f4d5eb5043124d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:28 +0000
Subject: [PATCH 40/44] fix: accept reference periods which are not lists

---
 openscm/scmdataframe/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 69baf83..19f58e7 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1324,7 +1324,12 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         if append_str is None:
             append_str = ";".join(
-                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in kwargs.items()]
+                [
+                    "{}: {} - {}".format(k, v[0], v[-1])
+                    if pd.api.types.is_list_like(v, allow_sets=False)
+                    else "{}: {}".format(k, v)
+                    for k, v in kwargs.items()
+                ]
             )
             append_str = "(ref. period {})".format(append_str)
 
-- 
2.43.0


From 57cd55daef34d68813aa0784351bb7d559f89ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 41/44] fix: leave the time axis as it is when refusing to set
 it

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 19f58e7..40a4cc3 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -447,8 +447,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
-- 
2.43.0


From 7bb974b862df1a94d5d7a84e9c9a960077f5cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:06 +0000
Subject: [PATCH 42/44] fix: rename all columns at once or none

---
 openscm/scmdataframe/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 40a4cc3..8f363a8 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -850,15 +850,18 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ValueError
             Column is not in meta or renaming will cause non-unique metadata
         """
-        ret = copy.deepcopy(self) if not inplace else self
+        meta = self.meta
         for col, _mapping in mapping.items():
-            if col not in self.meta.columns:
+            if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
+            meta[col] = meta[col].replace(_mapping)
+        if meta.duplicated().any():
+            raise ValueError(
+                "Renaming to non-unique metadata for {}!".format(", ".join(mapping))
             )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
-                raise ValueError("Renaming to non-unique metadata for {}!".format(col))
+
+        ret = copy.deepcopy(self) if not inplace else self
+        ret._meta = meta  # pylint: disable=protected-access
 
         if not inplace:
             return ret
-- 
2.43.0


From 96bf6132ed9d296d68db31597a20a85bc3eecdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 43/44] fix: set metadata for the indexed timeseries only

---
 openscm/scmdataframe/base.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 8f363a8..ebf8105 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -922,19 +922,30 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         if not isinstance(index, (pd.MultiIndex, pd.Index)):
             raise ValueError("index cannot be coerced to pd.MultiIndex")
 
-        meta = pd.Series(meta, index=index, name=name)
+        meta = pd.Series(meta, index=index, name=name).reset_index(drop=True)
 
-        df = self.meta.reset_index()
+        # find the addressed timeseries, also by missing metadata
+        addressed = index.to_frame()
         if all(index.names):
-            df = df.set_index(index.names)
-        self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
-            .reset_index()
-            .set_index("index")
-        )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
+            keys = self._meta[list(index.names)]
+        elif index.isin(self._meta.index).all():
+            keys = self._meta.index.to_frame()
+        else:
+            keys = pd.RangeIndex(len(self)).to_frame()
+        na_fill_value = _get_na_fill_value([addressed, keys])
+        addressed = pd.MultiIndex.from_frame(addressed.fillna(na_fill_value))
+        keys = pd.MultiIndex.from_frame(keys.fillna(na_fill_value))
+        if addressed.has_duplicates:
+            raise ValueError("Setting metadata for a non-unique index")
+        if not addressed.isin(keys).all():
+            raise ValueError("Setting metadata for a non-existing index")
+
+        positions = addressed.get_indexer(keys)
+        meta = meta.reindex(positions)
+        meta.index = self._meta.index
+        if name in self._meta:
+            meta = meta.where(positions >= 0, self._meta[name])
+        self._meta[name] = meta
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From dfaf65c0f349ca88b0665b6646ee23eb29912899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:05 +0000
Subject: [PATCH 44/44] fix: rename entries in columns of numbers

---
 openscm/scmdataframe/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index ebf8105..b434df6 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -854,7 +854,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for col, _mapping in mapping.items():
             if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            meta[col] = meta[col].replace(_mapping)
+            # as objects, pandas can compare the entries to names of any type
+            entries = meta[col].astype(object).replace(_mapping)
+            meta[col] = entries.infer_objects()
         if meta.duplicated().any():
             raise ValueError(
                 "Renaming to non-unique metadata for {}!".format(", ".join(mapping))
-- 
2.43.0

