From 11452be2824d19d96113e8518b59d6a3902cc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 01/23] fix: include endpoints in the range of a function with
 interior extrema

minimum_value/maximum_value returned the value at the best contained local
extremum and ignored the endpoints, so e.g. the range of the third derivative
of swish over [-7, 0.5] was too small.  They also sorted by function value,
which fails under jax tracing.
---
 autobound/elementwise_functions.py | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 07efe06..bf8b63e 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -206,14 +206,15 @@ def maximum_value(f,
                   local_maxima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns maximum value of `f` over `[x_min, x_max]`."""
-  if not local_maxima:
-    return np_like.maximum(f(x_min), f(x_max))
-  sorted_maxima = list(sorted(local_maxima, key=f, reverse=True))
-  x = sorted_maxima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      maximum_value(f, x_min, x_max, sorted_maxima[1:], np_like))
+  # The maximum is attained either at an endpoint, or at a local maximum that
+  # is contained in `[x_min, x_max]`.
+  f_min = f(x_min)
+  interior_values = [
+      np_like.where(np_like.logical_and(x_min <= x, x <= x_max), f(x), f_min)
+      for x in local_maxima
+  ]
+  return functools.reduce(np_like.maximum, interior_values,
+                          np_like.maximum(f_min, f(x_max)))
 
 
 def minimum_value(f,
@@ -222,14 +223,15 @@ def minimum_value(f,
                   local_minima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns minimum value of `f` over `[x_min, x_max]`."""
-  if not local_minima:
-    return np_like.minimum(f(x_min), f(x_max))
-  sorted_minima = list(sorted(local_minima, key=f))
-  x = sorted_minima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      minimum_value(f, x_min, x_max, sorted_minima[1:], np_like))
+  # The minimum is attained either at an endpoint, or at a local minimum that
+  # is contained in `[x_min, x_max]`.
+  f_min = f(x_min)
+  interior_values = [
+      np_like.where(np_like.logical_and(x_min <= x, x <= x_max), f(x), f_min)
+      for x in local_minima
+  ]
+  return functools.reduce(np_like.minimum, interior_values,
+                          np_like.minimum(f_min, f(x_max)))
 
 
 def _get_range(f,
-- 
2.43.0


From cec45ed31aab096d42d56effc9dcc84bee13f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 02/23] fix: list all local extrema of the 4th and 5th
 derivatives of swish

The outermost extrema (near +-5.4008 and +-6.3620) were missing, so degree 4
enclosures over regions containing them were not valid.
---
 autobound/elementwise_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index bf8b63e..45d1301 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -351,8 +351,11 @@ _FUNCTION_DATA = {
         FunctionData((-4.429235100557346, 1.0319582417807385),
                      (-1.0319582417807402, 4.429235100557342)),
     SWISH.derivative_id(4):
-        FunctionData((0.,), (-1.8197756117249821, 1.8197756117249804)),
+        FunctionData((-5.400818739495216, 0., 5.400818739495216),
+                     (-1.8197756117249821, 1.8197756117249804)),
     SWISH.derivative_id(5):
-        FunctionData((-0.7177419231466055, 2.5062894864026024),
-                     (-2.506289486402605, 0.7177419231466035)),
+        FunctionData((-6.3619922836816905, -0.7177419231466055,
+                      2.5062894864026024),
+                     (-2.506289486402605, 0.7177419231466035,
+                      6.36199228368169)),
 }
-- 
2.43.0


From efcd26580cd2724494758e28eba33793e153cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 03/23] fix: keep higher-order terms when composing with a
 longer enclosure

compose_enclosures discarded the terms of an elementwise enclosure whose power
exceeds max_degree, instead of enclosing them in the final coefficient.
---
 autobound/enclosure_arithmetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index ba2891e..f92d638 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -248,8 +248,10 @@ class TaylorEnclosureArithmetic:
             #
             # The issue is that the first p elements of 'poly' are guaranteed
             # to be 0, but the expression below can express this as the interval
-            # (0, 0).
-            0 if i < p else interval_left_broadcasting_multiply(coefficient, t)
+            # (0, 0).  When p > max_degree, the final element of 'poly' is an
+            # enclosure of the higher-order terms, and must be kept.
+            0 if i < min(p, self.max_degree)
+            else interval_left_broadcasting_multiply(coefficient, t)
             for i, t in enumerate(poly)
         )
       output = self.add(output, term)
-- 
2.43.0


From 584386dd9201271e3b7c1d08efec235db4f6d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 04/23] fix: avoid NaN Taylor coefficients in pow_enclosure at
 x0 = 0

For a nonnegative integer exponent smaller than the degree, the vanishing
coefficients were computed as 0 * 0**(negative) == NaN.
---
 autobound/primitive_enclosures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index b58a2b5..8d8e82d 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -120,7 +120,10 @@ def pow_enclosure(exponent: float,
     # Note: the next line can sometimes generate bogus RuntimeWarnings when
     # using Numpy.  This seems to be a bug in Numpy, as even doing
     # np.array(2.)**-1 generates the same RuntimeWarning.
-    taylor_coefficients_at_x0.append(c * x0**(exponent - i) / math.factorial(i))
+    # If c == 0 the derivative vanishes everywhere; don't compute x0**(exponent
+    # - i) in this case, because it's infinite at x0 == 0.
+    x0_power = x0**(exponent - i) if c != 0 else x0
+    taylor_coefficients_at_x0.append(c * x0_power / math.factorial(i))
     c *= exponent - i
 
   # Compute sharp enclosures of x**exponent for the case x > 0 (enc_pos below),
-- 
2.43.0


From 111ab599fe5eefbbd94b9e12eeec731a80391c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 05/23] fix: valid lower bound for even powers over regions
 that contain zero

The smaller endpoint ratio is not a lower bound when the derivative attains its
minimum inside the trust region (x**2 over [-1, 2] was bounded below by 1).
---
 autobound/primitive_enclosures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 8d8e82d..1971a25 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -173,6 +173,11 @@ def pow_enclosure(exponent: float,
           np_like.minimum if i == 0 else np_like.maximum,
           [endpoint_if_always_positive, endpoint_if_always_negative]
       )
+      if i == 0 and enc_pos is not enc_neg:
+        # The (degree)th derivative is an even power (times a positive constant)
+        # so it attains its minimum value, 0, inside the interval.
+        endpoint_if_possibly_zero = np_like.minimum(endpoint_if_possibly_zero,
+                                                    0.)
     return np_like.where(
         a >= 0,
         endpoint_if_always_positive,
-- 
2.43.0


From 9adaa8a14efc900799f9743d44de98d59e9299a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 06/23] fix: odd negative powers over regions with a zero
 endpoint

1/x over [-1, 0] was given the lower bound +inf, because 0**-1 == +inf was used
as the value at the right endpoint.
---
 autobound/primitive_enclosures.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 1971a25..7867c29 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -178,11 +178,17 @@ def pow_enclosure(exponent: float,
         # so it attains its minimum value, 0, inside the interval.
         endpoint_if_possibly_zero = np_like.minimum(endpoint_if_possibly_zero,
                                                     0.)
+    if exponent < 0 and exponent % 2 == 1:
+      # 0**exponent is infinite, and its sign is the sign of the floating point
+      # zero, which isn't meaningful here.  Treat the endpoint as possibly zero.
+      always_positive, always_negative = a > 0, b < 0
+    else:
+      always_positive, always_negative = a >= 0, b <= 0
     return np_like.where(
-        a >= 0,
+        always_positive,
         endpoint_if_always_positive,
         np_like.where(
-            b <= 0,
+            always_negative,
             endpoint_if_always_negative,
             endpoint_if_possibly_zero
         )
-- 
2.43.0


From 884d5dd466e1f5a6ac1d0dbdea344c114fe86735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 07/23] fix: broadcast coefficients present in only one of the
 enclosures being added

Adding an enclosure of shape () to one of shape (n,) left the higher-degree
coefficients without batch dimensions, so that later operations could treat the
dimensions of x as batch dimensions and return invalid bounds.
---
 autobound/enclosure_arithmetic.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index f92d638..c1cac73 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -87,9 +87,9 @@ class TaylorEnclosureArithmetic:
       if i < len(a) and i < len(b):
         return self.set_arithmetic.add(a[i], b[i])
       elif i < len(a):
-        return a[i]
+        return self._broadcast_coefficient(a[i], i, b[0])
       else:
-        return b[i]
+        return self._broadcast_coefficient(b[i], i, a[0])
 
     sum_ab = tuple(get_coefficient(i) for i in range(max(len(a), len(b))))
     return self._truncate_if_necessary(sum_ab)
@@ -353,6 +353,28 @@ class TaylorEnclosureArithmetic:
                b: TaylorEnclosureLike) -> TaylorEnclosure:
     return self.add(a, self.negative(b))
 
+  def _broadcast_coefficient(self, c, i: int, c0):
+    """Broadcasts a coefficient over the batch dimensions of another enclosure.
+
+    Args:
+      c: the degree i coefficient of some TaylorEnclosure
+      i: the degree of c
+      c0: the degree 0 coefficient of another TaylorEnclosure
+
+    Returns:
+      c, with its leading (batch) dimensions broadcast against those of c0.
+    """
+    batch_shape = self.set_arithmetic.shape(c0)
+    x_ndim = i * self.np_like.ndim(self.trust_region[0])
+    c_batch_ndim = len(self.set_arithmetic.shape(c)) - x_ndim
+    if (c_batch_ndim < 0 or
+        self.set_arithmetic.shape(c)[:c_batch_ndim] == batch_shape):
+      return c
+    zeros = self.np_like.reshape(
+        self.np_like.zeros_like(c0[0] if isinstance(c0, tuple) else c0),
+        batch_shape + (1,) * x_ndim)
+    return self.set_arithmetic.add(c, zeros)
+
   def _truncate_if_necessary(self, a: TaylorEnclosureLike) -> TaylorEnclosure:
     return enclose_enclosure(a, self.trust_region, self.max_degree,
                              self.np_like)
-- 
2.43.0


From ceade31b88c84d6a56f641c83ebe775c058b06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 08/23] fix: dot_general with batch dimensions permuted axes
 incorrectly

The batch dimensions of the left operand were counted as contracting dimensions,
so the dimensions of x ended up in the wrong place.
---
 autobound/jax/jax_bound.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0eb54a0..1eb7a5b 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -397,9 +397,7 @@ def _dot_general_pushforward_fun(arithmetic):
   def fun(lhs_intermediate: _IntermediateEnclosure,
           rhs_intermediate: _IntermediateEnclosure,
           **params):
-    a_contracting_dims = set(a  # pylint: disable=g-complex-comprehension
-                             for t in params['dimension_numbers']
-                             for a in t[0])
+    (a_contracting_dims, _), _ = params['dimension_numbers']
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
-- 
2.43.0


From 60d77f23724622bc3ef707f499465e1a7f9e1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 09/23] fix: support broadcast_in_dim of interval coefficients
 and of functions of vectors

Broadcasting the result of an elementwise function raised AttributeError when
max_degree was 1, and broadcasting any function of a vector raised TypeError.
---
 autobound/jax/jax_bound.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 1eb7a5b..c6d9564 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -337,18 +337,15 @@ def _broadcast_in_dim_pushforward_fun(intermediate, shape,
   x0 = enclosure[0]
   if isinstance(x0, tuple):
     x0 = enclosure[0][0]
-  x_shape = (() if len(enclosure) == 1 else enclosure[1].shape[x0.ndim:])
-  def broadcast_ndarray(a, i):
-    return jax.lax.broadcast_in_dim(a, shape + i*x_shape, broadcast_dimensions)
-  def broadcast_ndarray_or_interval(a, i):
-    if isinstance(a, tuple):
-      return tuple(broadcast_ndarray(x, i) for x in a)
-    else:
-      return broadcast_ndarray(a, i)
-  return tuple(
-      broadcast_ndarray_or_interval(coeff, i)
-      for i, coeff in enumerate(enclosure)
-  )
+  shape = tuple(shape)
+  def broadcast_ndarray(a):
+    # The trailing dimensions of a are indices into a power of x.
+    extra_dims = jnp.shape(a)[jnp.ndim(x0):]
+    return jax.lax.broadcast_in_dim(
+        a, shape + extra_dims,
+        tuple(broadcast_dimensions) +
+        tuple(range(len(shape), len(shape) + len(extra_dims))))
+  return enclosure_arithmetic.map_over_enclosure(enclosure, broadcast_ndarray)
 
 
 def _constant_intermediate_enclosure(val: types.NDArray):
-- 
2.43.0


From 8b12814792a2a61cc86c7c380acf0dbeee84d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 10/23] fix: keep constants constant when propagating trust
 regions

With propagate_trust_regions=True the exponent of pow was turned into an
interval, so that x**p raised NotImplementedError for non-integer p.
---
 autobound/jax/jax_bound.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index c6d9564..ca23d79 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -147,7 +147,10 @@ def taylor_bounds(
           fun0 = primitive_to_enclosure_fun0.get(eqn.primitive)
           assert fun0 is not None
           assert all(i.trust_region is not None for i in invar_intermediates)
+          # Constants must remain constants, because some primitives (such as
+          # pow) require certain arguments to be constant.
           invar_degree_0_intermediates = [
+              intermediate if intermediate.is_constant() else
               _IntermediateEnclosure(
                   enclosure=types.TaylorEnclosure((intermediate.trust_region,)))
               for intermediate in invar_intermediates
-- 
2.43.0


From 72ef836cc74abdbad811f8e2c94be9d409f283a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 11/23] fix: reject conversion of non-constant values to
 integer or boolean types

The conversion was applied to each coefficient separately, which returned
invalid bounds.
---
 autobound/jax/jax_bound.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index ca23d79..11617a9 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -296,7 +296,6 @@ _register_elementwise_function(jax.nn.swish,
 # Set of primitives that can be applied separately to each coefficient of a
 # TaylorEnclosure.
 _PASS_THRU_PRIMITIVES = frozenset([
-    jax.lax.convert_element_type_p,
     jax.lax.reshape_p,
     jax.lax.reduce_sum_p,
     jax.lax.reduce_window_sum_p,
@@ -392,6 +391,15 @@ def _conv_general_dilated_pushforward_fun(arithmetic):
   return fun
 
 
+def _convert_element_type_pushforward_fun(intermediate, **params):
+  """Enclosure-generating function for jax.lax.convert_element_type."""
+  # Conversion to an integer or boolean type is not linear.
+  if not jnp.issubdtype(params['new_dtype'], jnp.inexact):
+    raise NotImplementedError(params['new_dtype'])
+  return _pass_thru_pushforward_fun(jax.lax.convert_element_type_p)(
+      intermediate, **params)
+
+
 def _dot_general_pushforward_fun(arithmetic):
   """Returns function that implements dot_general on enclosures."""
   def fun(lhs_intermediate: _IntermediateEnclosure,
@@ -489,6 +497,7 @@ def _pushforward_funs(
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
       jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun,
+      jax.lax.convert_element_type_p: _convert_element_type_pushforward_fun,
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
-- 
2.43.0


From 3e9d65b0480b5f7b5ed22fe8bf18ea86151f76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 12/23] fix: apply reshape, transpose, etc. to the output
 dimensions of each coefficient

The coefficients of a function of a vector have additional trailing dimensions,
which made these primitives fail.
---
 autobound/jax/jax_bound.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 11617a9..9a8de74 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -449,10 +449,16 @@ def _intersect_intervals(
 
 def _pass_thru_pushforward_fun(primitive):
   def fun(intermediate, **params):
+    x0 = intermediate.enclosure[0]
+    ndim = jnp.ndim(x0[0] if isinstance(x0, tuple) else x0)
+    def apply_to_coefficient(a):
+      f = functools.partial(primitive.bind, **params)
+      # The trailing dimensions of a are indices into a power of x.
+      for _ in range(jnp.ndim(a) - ndim):
+        f = jax.vmap(f, in_axes=-1, out_axes=-1)
+      return f(a)
     return enclosure_arithmetic.map_over_enclosure(
-        intermediate.enclosure,
-        functools.partial(primitive.bind, **params)
-    )
+        intermediate.enclosure, apply_to_coefficient)
   return fun
 
 
-- 
2.43.0


From bcefe6d1c0b6b1ddcbef5b65ff2059b5861f7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 13/23] fix: compute bounds for functions that call jitted
 functions

Calls to jitted functions were applied to each coefficient of an enclosure
separately, which is only valid for linear functions.
---
 autobound/jax/jax_bound.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 9a8de74..918f4b1 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -301,7 +301,6 @@ _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.reduce_window_sum_p,
     jax.lax.squeeze_p,
     jax.lax.transpose_p,
-    jex.core.primitives.jit_p,
     # TODO(mstreeter): add more of these
 ])
 
@@ -311,7 +310,39 @@ def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   for rule_generator in _JAXPR_REWRITE_RULES:
     pattern, replacement = rule_generator()
     jaxpr = jaxpr_editor.replace(pattern, replacement, jaxpr)
-  return jaxpr
+  return _inline_jit(jaxpr)
+
+
+def _inline_jit(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
+  """Replaces calls to jitted functions by their (rewritten) bodies."""
+
+  def substitute(v, mapping):
+    return v if isinstance(v, jex.core.Literal) else mapping.get(v, v)
+
+  mapping = {}
+  eqns = []
+  for eqn in jaxpr.eqns:
+    invars = [substitute(v, mapping) for v in eqn.invars]
+    if eqn.primitive != jex.core.primitives.jit_p:
+      eqns.append(eqn.replace(invars=invars))
+      continue
+    closed_jaxpr = eqn.params['jaxpr']
+    inner = _rewrite_jaxpr(closed_jaxpr.jaxpr)
+    inner_mapping = dict(zip(inner.invars, invars))
+    inner_mapping.update({
+        v: jex.core.Literal(val, v.aval)
+        for v, val in zip(inner.constvars, closed_jaxpr.consts)
+    })
+    for inner_eqn in inner.eqns:
+      inner_invars = [substitute(v, inner_mapping) for v in inner_eqn.invars]
+      outvars = [jex.core.Var(aval=v.aval) for v in inner_eqn.outvars]
+      inner_mapping.update(zip(inner_eqn.outvars, outvars))
+      eqns.append(inner_eqn.replace(invars=inner_invars, outvars=outvars))
+    for outvar, inner_outvar in zip(eqn.outvars, inner.outvars):
+      mapping[outvar] = substitute(inner_outvar, inner_mapping)
+
+  outvars = [substitute(v, mapping) for v in jaxpr.outvars]
+  return jaxpr.replace(eqns=eqns, outvars=outvars)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 3b2886c575a5be575f894df1218b32e8ea5e4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 14/23] fix: reject empty patterns in graph_editor.replace

An empty pattern made replace() loop forever.
---
 autobound/graph_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 6a87fae..f42ed42 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -128,6 +128,9 @@ def replace(
     a `ComputationGraph` with occurrences of `pattern` replaced by
     `replacement`.
   """
+  if not pattern:
+    raise ValueError('pattern must be non-empty')
+
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
   k = len(pattern)
-- 
2.43.0


From 3f93a04cb93d19afcbc42a2531ddad2340e8002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 15/23] fix: support patterns and replacements that contain
 literals

The values of literals created by current versions of JAX are not hashable,
which made jaxpr_editor.replace raise TypeError.
---
 autobound/jax/jaxpr_editor.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 3cffbd4..0e54f51 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -16,11 +16,12 @@
 
 import itertools
 import types
-from typing import Any, Union
+from typing import Union
 
 from autobound import graph_editor
 import jax
 import jax.extend as jex
+import numpy as np
 
 
 def replace(pattern: jex.core.Jaxpr,
@@ -109,6 +110,24 @@ class _EqnData:
     return f'_EqnData({self.primitive}, {self.params})'
 
 
+class _LiteralValue:
+  """Hashable wrapper for the value of a jex.core.Literal."""
+
+  def __init__(self, val):
+    self.val = val
+
+  def __eq__(self, other):
+    return (isinstance(other, _LiteralValue) and
+            np.array_equal(self.val, other.val))
+
+  def __hash__(self):
+    # Values that compare equal (such as 1 and 1.0) must have equal hashes.
+    return hash(tuple(np.asarray(self.val).ravel().tolist()))
+
+  def __repr__(self):
+    return f'_LiteralValue({self.val})'
+
+
 # An intermediate variable is a tuple that either represents a jex.core.Var or
 # a jex.core.Literal.
 _IntermediateVariable = Union[
@@ -117,7 +136,7 @@ _IntermediateVariable = Union[
     tuple[bool, int, jax.core.AbstractValue],
     # If the first element of the tuple is False, then the tuple represents
     # a jex.core.Literal, and is of the form (False, val, aval).
-    tuple[bool, Any, jax.core.AbstractValue]
+    tuple[bool, _LiteralValue, jax.core.AbstractValue]
 ]
 
 
@@ -142,7 +161,7 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
       return (True, var.count + offset, var.aval)
     elif isinstance(var_or_literal, jex.core.Literal):
       literal = var_or_literal
-      return (False, literal.val, literal.aval)
+      return (False, _LiteralValue(literal.val), literal.aval)
     else:
       raise NotImplementedError()
 
@@ -180,7 +199,7 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
       return count_to_var[count]
     else:
       _, val, aval = vertex
-      return jex.core.Literal(val, aval)
+      return jex.core.Literal(val.val, aval)
 
   eqns = []
   for edge in h.operations:
-- 
2.43.0


From ce031aec93deab276cc41de7e0af8ff12263c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 16/23] fix: do not remove operations whose outputs are used
 outside a match

graph_editor.replace removed the definition of variables that are internal to
the pattern even if they were used elsewhere in the subject.
---
 autobound/graph_editor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index f42ed42..16e18df 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -134,12 +134,24 @@ def replace(
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
   k = len(pattern)
+  replacement_outputs = set(v for e in replacement for v in e.outputs)
+  discarded = [v for e in pattern for v in e.outputs
+               if v not in replacement_outputs]
+
+  def discards_needed_variable(i, m):
+    """Returns whether replacing operations[i:i+k] would leave uses undefined."""
+    used = set(subject.outputs)
+    for op in itertools.chain(subject.operations[:i],
+                              subject.operations[i+k:]):
+      used.update(op.inputs)
+    return any(m[v] in used for v in discarded)
+
   output_operations = []
   i = 0
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
-    if m is not None:
+    if m is not None and not discards_needed_variable(i, m):
       output_operations.extend([e.subs(m) for e in replacement])
       i += k
     else:
-- 
2.43.0


From b99f2bda2ac9f564a367443012c98f63c9d267a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 17/23] fix: compare the constants of closed jaxprs when
 matching equations

---
 autobound/jax/jaxpr_editor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 0e54f51..6a88d61 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -239,8 +239,11 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
       continue
     v1 = p1[k0]
     if isinstance(v0, jex.core.ClosedJaxpr):
-      # TODO(mstreeter): this could incorrectly return True if v0.consts and
-      # v1.consts are different.
+      if (not isinstance(v1, jex.core.ClosedJaxpr) or
+          len(v0.consts) != len(v1.consts) or
+          not all(np.array_equal(c0, c1)
+                  for c0, c1 in zip(v0.consts, v1.consts))):
+        return False
       if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
                                                  ignore_shape=True):
         return False
-- 
2.43.0


From 92610ba6b8f31e5daf4e50ba87d824469dc36e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 18/23] fix: keep intermediate variables of replacements
 distinct from those of the subject

The counts of a replacement's intermediate variables could be equal to those of
the subject's variables, and every occurrence used the same variables.
---
 autobound/jax/jaxpr_editor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 6a88d61..64161b5 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -67,9 +67,11 @@ def replace(pattern: jex.core.Jaxpr,
   pattern_graph = _jaxpr_to_graph(pattern)
   # When creating the replacement graph, offset the variable counts to keep
   # them unique.
+  subject_graph = _jaxpr_to_graph(subject)
   max_count = max(
       v[1] if v[0] else -1  # pytype: disable=unsupported-operands
-      for v in pattern_graph.intermediate_variables()
+      for graph in (pattern_graph, subject_graph)
+      for v in graph.intermediate_variables()
   )
   replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
   # In the replacement graph, replace inputs/outputs with those in the pattern
@@ -86,7 +88,7 @@ def replace(pattern: jex.core.Jaxpr,
   hypergraph = graph_editor.replace(
       pattern_graph.operations,
       replacement_operations,
-      _jaxpr_to_graph(subject),
+      subject_graph,
       _can_bind,
   )
   return _graph_to_jaxpr(hypergraph)
@@ -188,6 +190,12 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
   """Returns the Jaxpr represented by a ComputationGraph."""
   count_to_var = {}
 
+  def define(vertex):
+    # A vertex can be defined more than once, because every occurrence of a
+    # pattern is replaced using the same intermediate variables.
+    count_to_var.pop(vertex[1], None)
+    return vertex_to_var_or_literal(vertex)
+
   def vertex_to_var_or_literal(vertex):
     assert isinstance(vertex, tuple)
     if vertex[0]:
@@ -205,7 +213,7 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
   for edge in h.operations:
     eqn = jax.core.new_jaxpr_eqn(
         invars=[vertex_to_var_or_literal(u) for u in edge.inputs],
-        outvars=[vertex_to_var_or_literal(v) for v in edge.outputs],
+        outvars=[define(v) for v in edge.outputs],
         primitive=edge.data.primitive,
         params=edge.data.params,
         effects=set()
-- 
2.43.0


From 2d88f29ff26c82b3c301770f8e638ef465caa2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 19/23] fix: evaluate constant primitives with multiple results
 or subfunctions

---
 autobound/jax/jax_bound.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 918f4b1..38e2353 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -190,8 +190,9 @@ def taylor_bounds(
       else:
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
-        vals = eqn.primitive.bind(*invar_values, **eqn.params)
-        if len(eqn.outvars) == 1:
+        subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
+        vals = eqn.primitive.bind(*subfuns, *invar_values, **bind_params)
+        if not eqn.primitive.multiple_results:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
                                 for v in vals]
-- 
2.43.0


From 4f0914dc7d459f1e8a835796111f8a99d0081ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 20/23] fix: propagate trust regions through powers with
 exponent zero

---
 autobound/jax/jax_bound.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 38e2353..6e6d81c 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -473,7 +473,10 @@ def _elementwise_pushforward_fun(arithmetic, get_enclosure):
 
 
 def _intersect_intervals(
-    a: types.Interval, b: types.Interval) -> types.Interval:
+    a: Union[types.NDArray, types.Interval],
+    b: Union[types.NDArray, types.Interval]) -> types.Interval:
+  # The degree 0 enclosure of a function such as x**0 is an exact value.
+  a, b = (c if isinstance(c, tuple) else (c, c) for c in (a, b))
   if not len(a) == len(b) == 2:
     raise ValueError()
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
-- 
2.43.0


From e2e48c934ac24791324aa8891bc157e3ff571b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 21/23] fix: evaluate rewritten functions of constants

---
 autobound/jax/jax_bound.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 6e6d81c..c56437a 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -190,8 +190,12 @@ def taylor_bounds(
       else:
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
-        subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
-        vals = eqn.primitive.bind(*subfuns, *invar_values, **bind_params)
+        fun = _PRIMITIVE_TO_FUNCTION.get(eqn.primitive)
+        if fun is not None:
+          vals = fun(*invar_values)
+        else:
+          subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
+          vals = eqn.primitive.bind(*subfuns, *invar_values, **bind_params)
         if not eqn.primitive.multiple_results:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
@@ -246,6 +250,9 @@ def register_elementwise_primitive(
 
 
 _PRIMITIVE_NAMES = set()  # type: set[str]
+# Dict from primitives introduced by rewriting to the functions they stand for.
+_PRIMITIVE_TO_FUNCTION = {
+}  # type: dict[jex.core.Primitive, Callable[[jnp.ndarray], jnp.ndarray]]
 # Rewrite rules are callables that return (pattern Jaxpr, replacement Jaxpr)
 # pairs.  We make them callables because the Jaxpr returned by jax.make_jaxpr
 # depends on how Jax is configured (in particular whether float64 is enabled),
@@ -267,6 +274,7 @@ def _register_elementwise_function(
   p = jex.core.Primitive(name)
   p.def_abstract_eval(
       lambda x: jax.core.ShapedArray(x.shape, x.dtype))
+  _PRIMITIVE_TO_FUNCTION[p] = f
   rule = lambda: (jax.make_jaxpr(f)(0.).jaxpr, jax.make_jaxpr(p.bind)(0.).jaxpr)
   _JAXPR_REWRITE_RULES.append(rule)
   register_elementwise_primitive(p, get_enclosure)
-- 
2.43.0


From 1dcc74cd418d0e495184c5aec47ff69f9a7d732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 22/23] fix: raise enclosures to integer powers given as floats

---
 autobound/enclosure_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index c1cac73..c2212e6 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -334,7 +334,7 @@ class TaylorEnclosureArithmetic:
       multiplicative_identity = self.np_like.ones_like(a0)
       result = polynomials.integer_power(  # pytype: disable=wrong-arg-types
           a,
-          p,
+          int(p),
           self.set_arithmetic.add,
           self.np_like.asarray(0),
           multiplicative_identity,
-- 
2.43.0


From 589f71bd2c08e8bcfede18b97f9222cb27c52241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 23/23] fix: reject matches that bind a pattern input to a
 variable they remove

---
 autobound/graph_editor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 16e18df..4d7559b 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -144,6 +144,12 @@ def replace(
     for op in itertools.chain(subject.operations[:i],
                               subject.operations[i+k:]):
       used.update(op.inputs)
+    # A pattern input can be bound to a variable that the occurrence defines.
+    defined = set(m[v] for e in pattern for v in e.outputs)
+    for op in replacement:
+      if any(m.get(u) in defined for u in op.inputs):
+        return True
+      defined.difference_update(m.get(v) for v in op.outputs)
     return any(m[v] in used for v in discarded)
 
   output_operations = []
-- 
2.43.0

