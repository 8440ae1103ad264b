From 13f3a253ffb159d0608e54f51ff9fd7c0497a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 01/43] fix: correct MKS-to-CGS electromagnetic conversion
 factors

---
 src/goats/core/metric.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..b9b1760 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -728,17 +728,17 @@ PI = numpy.pi
 
 _CONVERSIONS = {
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
-    ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('S', 'cm / s'): C**2 * 1e-9,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -749,10 +749,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
-    ('F / m', '1'): 36*PI * 1e9,
+    ('H / m', '1'): 1e7 / (4*PI),
+    ('F / m', '1'): 4*PI * C**2 * 1e-11,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From a665d41acf277bfe0ec17434ddbd447cbc3f96fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 02/43] fix: express CGS electric displacement in CGS units

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index b9b1760..2104352 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -382,7 +382,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From 56c45ca17f36202bd8ae220691f62e1a63aabcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 03/43] fix: correct MKS dimension of permittivity

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 2104352..71110d4 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -586,7 +586,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From cf4b1675c833c2f593fc7e571390b91106de26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 04/43] fix: spell the illuminance quantity as the lux unit
 refers to it

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 71110d4..7f66a4d 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -441,7 +441,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From d5313b26c81d9a677fc8ec1d44e67c775a3800eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 05/43] fix: correct CGS value of the first radiation constant

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From abd0bce96a1bfa0f04fd4aed18f215de30890c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:20 +0000
Subject: [PATCH 06/43] fix: pass velocity before magnetic field when computing
 flow angle

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..48c8e5d 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,7 +99,7 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
+    b_dot_v = v_para(vr, vt, vp, br, bt, bp) * b_mag(br, bt, bp)
     bv = bv_mag(br, bt, bp, vr, vt, vp)
     arg = numpy.array(b_dot_v / bv)
     arg[arg < -1.0] = -1.0
-- 
2.43.0


From 4940007088c6aadddd7926afec6743cdd3c47fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:29 +0000
Subject: [PATCH 07/43] fix: keep scale factors and irreducible units when
 converting by dimension

---
 src/goats/core/metric.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 7f66a4d..99c2bf3 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1751,22 +1751,27 @@ class Conversion(iterables.ReprStrMixin):
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
         decomposed = []
+        factor = 1.0
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
+            unit = NamedUnit(term.base)
+            reduction = unit.reduce()
             if reduction:
+                factor *= reduction.scale ** term.exponent
                 decomposed.extend(
                     [
                         symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
                             base=this.base,
                             exponent=term.exponent*this.exponent,
                         )
                         for this in reduction.units
                     ]
                 )
+            elif not all(d == '1' for d in unit.dimensions.values()):
+                decomposed.append(term)
         if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+            return factor
+        if (resolved := self._resolve_terms(decomposed)):
+            return factor * resolved
 
     def _match_terms(
         self,
-- 
2.43.0


From 8ca9e84bbf4593b61cc792a9cb95c71ee40c4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:08 +0000
Subject: [PATCH 08/43] fix: leave the dimension of a named unit undefined
 outside its metric system

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 99c2bf3..09592be 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1354,7 +1354,7 @@ class NamedUnit(iterables.ReprStrMixin, metaclass=_NamedUnitMeta):
         if self._dimensions is None:
             systems = {system for system in self.systems['defined']}
             self._dimensions = {
-                k: symbolic.Expression(v)
+                k: symbolic.Expression(v) if v else None
                 for k, v in self._get_dimensions(systems).items()
             }
         return self._dimensions.copy()
-- 
2.43.0


From 302ccf7f18fcf7c79f0a1b4d84a1c0e2a6b9ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:10 +0000
Subject: [PATCH 09/43] fix: account for numeric coefficients when converting
 unit expressions

---
 src/goats/core/metric.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 09592be..d46fb8a 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1741,11 +1741,13 @@ class Conversion(iterables.ReprStrMixin):
         e0, e1 = (symbolic.Expression(unit) for unit in (u0, u1))
         if e0 == e1:
             return 1.0
-        terms = [term for term in e0 / e1 if term.base not in UNITY]
+        ratio = e0 / e1
+        scale = float(numpy.prod([float(term.coefficient) for term in ratio]))
+        terms = [term for term in ratio if term.base not in UNITY]
         if factor := self._resolve_terms(terms):
-            return factor
+            return scale * factor
         if factor := self._convert_by_dimensions(terms):
-            return factor
+            return scale * factor
         raise UnitConversionError(self.u0, self.u1)
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
-- 
2.43.0


From 6a86272a9240a8cf92dd1858b2fd749320bda797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:22 +0000
Subject: [PATCH 10/43] fix: keep zero coefficients and exponents of symbolic
 operands

---
 src/goats/core/symbolic.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..0d7fa28 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,15 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -1015,13 +1019,14 @@ class OperandFactory(PartFactory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
-            for key, attr in updatable.items()
+            key: attr['callable'](
+                default[key] if given.get(key) in {None, ''} else given[key]
+            ) for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -1031,7 +1036,7 @@ class OperandFactory(PartFactory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From 1a04a48210aaa04d9bdab9a5a9ae7d375979b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:15 +0000
Subject: [PATCH 11/43] fix: update the unit of an observed quantity

---
 src/goats/core/observed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observed.py b/src/goats/core/observed.py
index 8e334d6..c8a5092 100644
--- a/src/goats/core/observed.py
+++ b/src/goats/core/observed.py
@@ -71,7 +71,7 @@ class Quantity(iterables.ReprStrMixin):
             return self._indices[__x]
         if __x in self._assumptions:
             return self._assumptions[__x]
-        return type(self)(self.data, self._indices, self._assumptions)
+        return type(self)(self.data[__x], self._indices, self._assumptions)
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-- 
2.43.0


From bbe7c19b6961293c8a4e3798946ff822b5d5e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:15 +0000
Subject: [PATCH 12/43] fix: compare the context of observed quantities

---
 src/goats/core/observed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observed.py b/src/goats/core/observed.py
index c8a5092..d09fe86 100644
--- a/src/goats/core/observed.py
+++ b/src/goats/core/observed.py
@@ -78,7 +78,7 @@ class Quantity(iterables.ReprStrMixin):
         if isinstance(__o, Quantity):
             return all(
                 getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+                for attr in ('data', '_indices', '_assumptions')
             )
         return NotImplemented
 
-- 
2.43.0


From 9e688a224f102f85e9bcf51aba76590c15b3898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:15 +0000
Subject: [PATCH 13/43] fix: update metadata of measurable quantities in place

---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..3c0d95e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -138,8 +138,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f'_{k}', v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From 2de5067e2e88bf18fdc953211c12ede308476215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:15 +0000
Subject: [PATCH 14/43] fix: consider every given name when checking what an
 observer observes

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..65030cc 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -78,7 +78,7 @@ class Interface:
         """True if this interface can observe the named quantity."""
         if isinstance(name, str):
             return self._observes(name)
-        return next((self._observes(key) for key in name), False)
+        return any(self._observes(key) for key in name)
 
     def _observes(self, key: str):
         """Internal helper for `~Interface.observes`."""
-- 
2.43.0


From 168506b63612865ec4ad2b50bb74a0b600c68970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 15/43] fix: keep the unit when measuring an operational
 argument

---
 src/goats/core/operational.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..82a47e8 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -11,6 +11,7 @@ import numpy.typing
 
 from goats.core import algebraic
 from goats.core import iterables
+from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
 from goats.core import physical
@@ -197,6 +198,13 @@ class Argument:
             else physical.Scalar(data, unit=unit)
         )
 
+    def __measure__(self):
+        """Create a measurement from this argument."""
+        return measurable.Measurement(
+            numpy.array(self._data, ndmin=1),
+            self.unit or '1',
+        )
+
     @property
     def data(self):
         """This argument's value(s)."""
-- 
2.43.0


From f27715261a276b6553079577a342edab48844e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 16/43] fix: keep the metric system when updating an EPREM
 observer

---
 src/goats/eprem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..f0ad61c 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -698,8 +698,8 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             self._datapath = None
         if self.datapath and self.confpath:
             dataset = datafile.Interface(self.datapath)
-            variables = Variables(dataset, system=system or 'mks')
-            axes = Axes(dataset, system=system or 'mks')
+            variables = Variables(dataset, system=system or self._system)
+            axes = Axes(dataset, system=system or self._system)
             constants = runtime.Interface(self.confpath)
             return Context(variables, axes, constants)
 
-- 
2.43.0


From 7723d2cb96bfd0189f9a0482a193f26bd92a3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 17/43] fix: compare observations with observations

---
 src/goats/core/observing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..1cf02ef 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -227,10 +227,10 @@ class Observation:
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-        if isinstance(__o, Quantity):
+        if isinstance(__o, Observation):
             return all(
                 getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+                for attr in ('data', '_indices', '_assumptions')
             )
         return NotImplemented
 
-- 
2.43.0


From 72e41a6451c3328054b149a583e3b49be0184275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 18/43] fix: use the exponent of the leading term in composed
 metadata

---
 src/goats/core/observing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 1cf02ef..9282735 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -409,6 +409,8 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         expression = symbolic.Expression(reference.NAMES.get(s, s))
         term = expression[0]
         built = self.get_attribute(name, term.base)
+        if term.exponent != 1:
+            built = built ** term.exponent
         if len(expression) > 1:
             for term in expression[1:]:
                 built *= self.get_attribute(name, term.base)**term.exponent
-- 
2.43.0


From 91f8b2f1068cc6ddaa75e173f5425c9157a572c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 19/43] fix: interpolate to reference values of two-dimensional
 coordinates

---
 src/goats/core/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..0327d26 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return numpy.array([y[0] for y in arr])
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From 3a347bb9d21f26d3d739f7165670475bff88fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 20/43] fix: interpolate over the only axis of the pitch-angle
 coordinate

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index f0ad61c..c1f34ba 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -449,7 +449,7 @@ class Context(observing.Context):
     _axis_indices = {
         'time': 0,
         'energy': 1,
-        'mu': 1,
+        'mu': 0,
     }
 
     def _compute_interpolants(self, q: variable.Quantity):
-- 
2.43.0


From b25fb0d1b506c389f36dee8535549c400df6164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 21/43] fix: preserve the order of merged parameters

---
 src/goats/core/observing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 9282735..421e820 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -56,7 +56,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
         for b in others:
             if isinstance(b, Parameters):
                 names.extend(b._names)
-        return Parameters(*set(names))
+        return Parameters(*iterables.unique(*names))
 
     __mul__ = merge
     """Called for self * other."""
-- 
2.43.0


From dbecef7b3357edd976ce0828c0fc5d99ca3b7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:20 +0000
Subject: [PATCH 22/43] fix: pair selected axis indices with their own values

---
 src/goats/eprem/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index c1f34ba..280406f 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -218,7 +218,10 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(
+                    indices,
+                    values=[symbols[i] for i in indices],
+                )
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +239,10 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                return index.Data(
+                    targets,
+                    values=numpy.array(converted)[list(targets)],
+                )
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From b20aa1c28c22c4120dbdba12b498fb4d7fd1c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:20 +0000
Subject: [PATCH 23/43] fix: refuse axis targets with an inconsistent unit

---
 src/goats/eprem/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 280406f..08ba8b4 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -257,9 +257,7 @@ class Axes(aliased.Mapping):
                 # which may be dimensionless, the default unit is the
                 # appropriate unit for both cases.
                 array = physical.Array(measured.data, unit=unit)
-            if array.unit | converted.unit: # Could also use try/except
-                array = array[converted.unit]
-            values = numpy.array(array)
+            values = numpy.array(array[converted.unit])
             indices = [
                 numerical.find_nearest(converted, float(value)).index
                 for value in values
-- 
2.43.0


From ce86a03f5d5a345e6d81732a02e45c823e6d0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:20 +0000
Subject: [PATCH 24/43] fix: check the spelling of individual names

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 65030cc..651bbad 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,7 +91,7 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = set(self.context)
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-- 
2.43.0


From 66bfeb56755198f8eaef7ee9d74baec24deea444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:43 +0000
Subject: [PATCH 25/43] fix: respect slices and ellipses mixed with index
 sequences

---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..d42372e 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -365,7 +365,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             args = [args]
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
+            range(*arg.indices(self.shape[i]))
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -384,7 +384,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[slice(start+1, None)],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..d099d79 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -152,7 +152,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             args = [args]
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
+            range(*arg.indices(self.shape[i]))
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -170,7 +170,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[slice(start+1, None)],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 86db2d73389c28d9277263ed77c7d3e9de706b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:43 +0000
Subject: [PATCH 26/43] fix: preserve dimensions for all standard subscripts

---
 src/goats/core/variable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index d099d79..c869274 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -124,8 +124,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             with contextlib.suppress(TypeError):
                 shape = [
                     self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
+                    for i, v in enumerate(self._expand_ellipsis(indices))
                 ]
+                shape.extend(self.shape[len(shape):])
                 return self._copy_with(data=result.reshape(shape))
         return self._copy_with(data=result)
 
@@ -134,7 +135,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def _normalize_indices(self, args):
-- 
2.43.0


From f2bdcfe18b22ec57ded897c21e85cf5d70645677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:43 +0000
Subject: [PATCH 27/43] fix: reduce the named dimensions when averaging or
 squeezing

---
 src/goats/core/variable.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index c869274..68be445 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -628,10 +628,12 @@ class Quantity(Array):
 def _squeeze(v: Quantity, **kwargs):
     """Remove singular axes."""
     data = v._array.squeeze(**kwargs)
-    dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
+    axis = kwargs.get('axis')
+    axes = (
+        [i for i, d in enumerate(v.shape) if d == 1] if axis is None
+        else [int(i) % v.ndim for i in iterables.whole(axis)]
     )
+    dimensions = tuple(a for i, a in enumerate(v.dimensions) if i not in axes)
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
@@ -642,9 +644,8 @@ def _mean(v: Quantity, **kwargs):
     axis = kwargs.get('axis')
     if axis is None:
         return data
-    dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
-    )
+    axes = [int(i) % v.ndim for i in iterables.whole(axis)]
+    dimensions = tuple(a for i, a in enumerate(v.dimensions) if i not in axes)
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
-- 
2.43.0


From 8d442f64edec7a9da372b2ded1ec9fa4ecfd5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:55 +0000
Subject: [PATCH 28/43] fix: keep the internal scale when copying a scaled
 array

---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index d42372e..6d2880e 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -240,8 +240,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        self._scale = getattr(__data, '_scale', 1.0)
+        self._full_array = getattr(__data, '_full_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 68be445..c4f8292 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -40,9 +40,9 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             else __interface
         )
         # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        self._full_array = getattr(__interface, '_full_array', None)
+        # Set the internal array scale factor.
+        self._scale = getattr(__interface, '_scale', 1.0)
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From 646a3715f775ee09ccb9f04d005e819aae5d5770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 29/43] fix: convert base variable quantities to the metric
 system

---
 src/goats/core/variable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index c4f8292..2eaaf17 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -693,12 +693,12 @@ class Interface(aliased.Mapping):
           overload this method in order to provide additional functionality
           (e.g., unit standardization).
         """
-        unit = __v.unit
-        return Quantity(
+        v = Quantity(
             __v.data,
-            dimensions=__v.axes,
-            unit=(self.system.get_unit(unit=unit) if self.system else unit),
+            dimensions=__v.dimensions,
+            unit=__v.unit,
         )
+        return v[str(self.system)] if self.system else v
 
     @property
     def system(self):
-- 
2.43.0


From dcd649316bb0b0b292ba149a029f10090f5976a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 30/43] fix: refuse dataset files of an unknown type

---
 src/goats/core/datafile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..b642730 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,7 +167,7 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
+            raise TypeError(f"Unrecognized file type for {path}") from None
         else:
             return viewers
 
-- 
2.43.0


From 241126ddcf18d6133487b0d4b5c2c2d4231288bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 31/43] fix: replace the viewers of one dataset at a time

---
 src/goats/core/datafile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index b642730..63345fb 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -165,7 +165,7 @@ class ViewerFactory(collections.abc.MutableMapping):
         methods.
         """
         try:
-            viewers = self._viewer_map[path.suffix]
+            viewers = dict(self._viewer_map[path.suffix])
         except KeyError:
             raise TypeError(f"Unrecognized file type for {path}") from None
         else:
-- 
2.43.0


From 300cf8439adbfa3212b45edf35e6fa8473a00f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 32/43] fix: give equal alias groups equal hashes

---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..b2b1b7e 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 9fe25b1917b6add384bf0b43369271dc7d9a3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 33/43] fix: merge all overlapping alias groups

---
 src/goats/core/aliased.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b2b1b7e..246e86a 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -149,21 +149,15 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         """Combine this instance's groups with other groups."""
         these = self._groups.copy()
         for this in others:
-            groups = this if isinstance(this, Groups) else [this]
+            groups = this if isinstance(this, Groups) else [Group(this)]
             for group in groups:
-                if found := self._search(group):
-                    these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                found = [g for g in these if not g.isdisjoint(group)]
+                for overlapping in found:
+                    these.remove(overlapping)
+                    group = overlapping | group
+                these.append(group)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
         for i in __x:
-- 
2.43.0


From 616edd2f23d556acfaf6c0e85be415e57cd4973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 34/43] fix: resolve negative and reversed slices along an axis

---
 src/goats/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..00b831d 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -42,7 +42,7 @@ class Indexer(iterables.ReprStrMixin):
         if not user:
             return range(self.size)
         if isinstance(user[0], slice):
-            return iterables.slice_to_range(user[0], stop=self.size)
+            return range(*user[0].indices(self.size))
         if isinstance(user[0], range):
             return user[0]
         return user
-- 
2.43.0


From cc73d571ca8de37177e9c296f74a564fd17ea7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 35/43] fix: initialize an axis quantity from an instance

---
 src/goats/core/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 00b831d..a83469d 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -99,6 +99,8 @@ class Quantity(iterables.ReprStrMixin):
         return super().__new__(cls)
 
     def __init__(self, __a: Indexer, unit=None) -> None:
+        if __a is self:
+            return
         self._indexer = __a
         self._unit = metadata.Unit(unit) if unit else None
         self._reference = None
-- 
2.43.0


From 851c059f1ae1e630608135b3d5f1a9e6828ee16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 36/43] fix: identify datasets by their absolute paths

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..0e4be55 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From b7b8e095eb282afcaab45a71a8a08b0893cfc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 37/43] fix: allow observations without assumptions

---
 src/goats/core/observed.py  | 2 +-
 src/goats/core/observing.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observed.py b/src/goats/core/observed.py
index d09fe86..e46c21e 100644
--- a/src/goats/core/observed.py
+++ b/src/goats/core/observed.py
@@ -19,7 +19,7 @@ class Quantity(iterables.ReprStrMixin):
     ) -> None:
         self._data = __data
         self._indices = indices
-        self._assumptions = assumptions
+        self._assumptions = assumptions or {}
         self._array = None
         self._parameters = None
 
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 421e820..699e682 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -159,7 +159,7 @@ class Observation:
         }
         self._axes = aliased.Mapping(tmp)
         self._indices = indices
-        self._assumptions = assumptions
+        self._assumptions = assumptions or {}
         self._array = None
         self._parameters = None
         self._unit = None
-- 
2.43.0


From 9f03cbd7a4eed04cdd5e8dba08328a448726e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 38/43] fix: apply observing constraints given by an alias

---
 src/goats/core/observing.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 699e682..aae42b8 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -270,6 +270,7 @@ class Context(collections.abc.Collection, typing.Generic[T]):
             The default constant observing constraints.
         """
         self._mappings = mappings
+        self._given = constraints
         self._default = dict(constraints or {})
         """Internal mapping of fixed default constraints.
         
@@ -361,10 +362,19 @@ class Context(collections.abc.Collection, typing.Generic[T]):
     def constraints(self):
         """The current set of observing constraints."""
         if self._constraints is None:
-            constraints = {**self._default, **self._user}
+            constraints = {**self._default}
+            for key, value in self._user.items():
+                constraints.update({k: value for k in self._find_names(key)})
             self._constraints = types.MappingProxyType(constraints)
         return self._constraints
 
+    def _find_names(self, key: str):
+        """Find all known names of the constraint given by `key`."""
+        names = {key, *reference.ALIASES.find(key, ())}
+        if isinstance(self._given, aliased.Mapping) and key in self._given:
+            names.update(self._given.alias(key, include=True))
+        return names
+
     @property
     def observable(self):
         """The names of observable physical quantities."""
-- 
2.43.0


From b9e5b4c3fca2b45b0931038c64c8e5f7505df45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 39/43] fix: ignore whitespace around names in configuration
 files

---
 src/goats/eprem/runtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..8d9ebfb 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,12 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = line.strip()
+                if line == '' or line[0] in self.comments:
                     continue
-                key, _tmp = line.split('=')
+                key, _tmp = line.split('=', maxsplit=1)
                 value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                pairs[key.strip()] = value
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From 7d59ebc4eb2e72f83c1a3ff818719aa57ad49bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 40/43] fix: evaluate run-time parameters that are equal to
 zero

---
 src/goats/eprem/runtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 8d9ebfb..cf300d6 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -683,7 +683,7 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        if (value := numerical.cast(current, strict=False)) is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -703,7 +703,7 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        if (result := self._compute_sum(definition)) is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
@@ -900,7 +900,7 @@ class Interface(aliased.Mapping[str, _VT]):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        if (value := numerical.cast(current, strict=False)) is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -920,7 +920,7 @@ class Interface(aliased.Mapping[str, _VT]):
         """Split a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        if (result := self._compute_sum(definition)) is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
-- 
2.43.0


From 1459203ed88530c487c4b19e4cab93c62ed334c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 41/43] fix: compare the given configuration files

---
 src/goats/eprem/runtime.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index cf300d6..cc9381b 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1585,7 +1585,7 @@ def _build_arg_dict(
     """Build a `dict` of parameter values."""
     default = Interface()
     paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    targets = {name: Interface(path) for name, path in paths.items()}
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1606,12 +1606,10 @@ def _build_arg_dict(
 
 
 def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+    """Strip the common ancestor from `paths` and map the result to `paths`."""
+    these = [iotools.ReadOnlyPath(f) for f in paths]
+    common = os.path.commonpath([path.parent for path in these])
+    return {os.path.relpath(path, start=common): path for path in these}
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From 9084585f44819b77657e61566f323130cf9d3971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:17 +0000
Subject: [PATCH 42/43] fix: suggest names that extend a misspelled name

Splitting a word left out the split after its last letter, so the spell
checker never tried to append a letter ('energ' did not suggest 'energy').
---
 src/goats/core/spelling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..c5ca806 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -78,7 +78,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
-- 
2.43.0


From fe3bb08f6d2681ea737b91581d1987d06de4cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 43/43] fix: keep the operands' order in names of reflected
 operations on iterables

---
 src/goats/core/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..9356be6 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -661,7 +661,7 @@ class Name(collections.abc.Collection, Attribute):
             """Symbolically combine `a` and `b`."""
             x, y = (b, a) if reverse else (a, b)
             if isinstance(y, typing.Iterable) and not isinstance(y, str):
-                return Name([f'{i}{symbol}{j}' for i in x for j in y])
+                return Name([f'{i}{symbol}{j}' for i in a for j in b])
             try:
                 fixed = fractions.Fraction(y)
             except ValueError:
-- 
2.43.0

