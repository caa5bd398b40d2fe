From 627adb45622cbda8113bc3b374bc6128601ea9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:21 +0000
Subject: [PATCH 01/21] fix: keep the order of the remaining entries when
 popping a negative index

---
 cyjax/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3f2bb5b..e76074a 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -48,6 +48,7 @@ def pop(arr: Array, index: int) -> tuple[Array, Array]:
         A tuple of the removed value and the remaining array.
     """
     chex.assert_type(index, int)
+    index = index % arr.shape[0]
     rolled = jnp.roll(arr, -index, axis=0)
     return rolled[0], jnp.roll(rolled[1:], index, axis=0)
 
-- 
2.43.0


From 793fe600704c5d5d6fc87d47ef1ef07049fda880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:21 +0000
Subject: [PATCH 02/21] fix: changing to the current chart leaves affine
 coordinates unchanged

---
 cyjax/projective.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/projective.py b/cyjax/projective.py
index f14e5fd..27f6f9c 100644
--- a/cyjax/projective.py
+++ b/cyjax/projective.py
@@ -66,7 +66,8 @@ def change_chart(affine: Array, old_patch: int, new_patch: int) -> Array:
          in terms of affine coordinates of the new patch.
     """
     z0, z = pop(affine, new_patch - (old_patch < new_patch))
-    return insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    changed = insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    return jnp.where(old_patch == new_patch, affine, changed)
 
 
 @jax.jit
-- 
2.43.0


From 0b2efb76e529c1542dffc760f48682b6ba22f7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:11 +0000
Subject: [PATCH 03/21] fix: draw the overlap radius from the random number of
 its own coordinate

---
 cyjax/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/random.py b/cyjax/random.py
index 4186ee0..77fcc92 100644
--- a/cyjax/random.py
+++ b/cyjax/random.py
@@ -198,7 +198,7 @@ def projective_overlap(
     # symmetric sampling, 1 / patch_size < rad_0 < patch_size
     log_rad_min = jnp.log(1 / patch_size)
     rad_0 = jnp.exp(
-        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, 0])
+        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, other])
 
     # remaining radii < min(patch_size, rad_max * patch_size)
     rad_max = jnp.minimum(patch_size * rad_0, patch_size)
-- 
2.43.0


From 1045ff541bac32eae3ac1fd8c8c1de58427c2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:53 +0000
Subject: [PATCH 04/21] fix: average integrand times weight in Monte Carlo
 integration

---
 cyjax/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index e76074a..8d8ea2b 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -197,7 +197,7 @@ def mc_integrate(
     zs, w = sample(key, count)
 
     vals = fn(zs) * w
-    val = jnp.mean(w, axis=0)
+    val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
         return val, var
@@ -231,7 +231,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
         zs, w = sample(key, batch_size)
 
         vals = fn(zs) * w
-        val = jnp.mean(w, axis=0)
+        val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
             val2 = jnp.mean(vals ** 2, axis=0) / batch_size
-- 
2.43.0


From a0de466c9fac4c99777194652b914665ddcbaf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:53 +0000
Subject: [PATCH 05/21] fix: keep array shape in the variance of batched Monte
 Carlo integration

---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 8d8ea2b..3919c48 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -241,7 +241,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From 0b16adac76e4b28affba6b15ad8f80b6ac646b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:53 +0000
Subject: [PATCH 06/21] fix: do not reuse the carried random key for sampling
 batches

---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3919c48..d4acc43 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -228,7 +228,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     def step(key, _):
         k1, k2 = jax.random.split(key)
 
-        zs, w = sample(key, batch_size)
+        zs, w = sample(k1, batch_size)
 
         vals = fn(zs) * w
         val = jnp.mean(vals, axis=0)
-- 
2.43.0


From b09365850191d17d071fee47cd1288eebe718e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:35 +0000
Subject: [PATCH 07/21] fix: substitute all symbols at once in symbolic
 polynomial evaluation

---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 01cdba6..7aaafdf 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -982,7 +982,7 @@ class Poly:
             if params is not None:
                 var_list.extend(params)
             subs = {s: v for s, v in zip(self.all_symbols(False), var_list)}
-            return self.sympy_poly.expr.subs(subs)
+            return self.sympy_poly.expr.subs(subs, simultaneous=True)
 
         # Convert sympy to function which can be JIT compiled.
         fn = _eval_sympy_poly(self.sympy_poly.expr,
-- 
2.43.0


From af502b8275c8de8c354cc08a173479bf0c301baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:35 +0000
Subject: [PATCH 08/21] fix: collect the indices of automatically detected
 variables under one name

---
 cyjax/polynomial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7aaafdf..7a91555 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -552,7 +552,8 @@ class Poly:
             poly_expr = poly.expr
             if not have_variables:
                 have_variables = True
-                variable_names = list({split_subscript(g)[0] for g in poly.gens})
+                variable_names = list(dict.fromkeys(
+                    split_subscript(g)[0] for g in poly.gens))
             if parameters is None and hasattr(poly.domain, 'symbols'):
                 have_parameters = True
                 parameters = parameters or poly.domain.symbols
@@ -574,7 +575,7 @@ class Poly:
         # index of variable name in list of variables
         var_name_index = {n: i for i, n in enumerate(variable_names)}
 
-        for v in poly_expr.free_symbols:
+        for v in sorted(poly_expr.free_symbols, key=str):
             assert isinstance(v, sympy.Symbol), \
                 f'Encountered free symbol {v} that is not of type Symbol.'
             if v in parameters:
@@ -600,6 +601,9 @@ class Poly:
                         f'but does not appear in list of variable names.')
                 else:
                     # found a new variable
+                    var_name_index[name] = len(variable_names)
+                    if index is not None:
+                        rename[v] = merge_subscript(name, index)
                     variable_names.append(name)
                     variable_indices.append(None if index is None else [index])
                     var_appeared.append(True)
-- 
2.43.0


From ba2b9c6a282cc3140e17249772194c59e42f9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:02 +0000
Subject: [PATCH 09/21] fix: evaluate polynomials with complex coefficients

---
 cyjax/polynomial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7a91555..850dda7 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -174,8 +174,10 @@ def _sympy_eval_num(val):
         return 0
     elif val.func == sympy.core.numbers.ImaginaryUnit:
         return 1j
-    else:
+    elif val.is_real:
         return float(val)
+    else:
+        return complex(val)
 
 
 def _eval_sympy_poly(p, var_names, index_reorder, par_index):
@@ -193,7 +195,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
             index = par_index[p]
             return lambda var, par: par[index]
 
-    elif issubclass(p.func, sympy.Number):
+    elif issubclass(p.func, (sympy.Number, sympy.core.numbers.ImaginaryUnit)):
         num = _sympy_eval_num(p)
         return lambda var, par: num
 
@@ -802,8 +804,7 @@ class Poly:
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
                 else:
-                    # assume only one numeric value in coeff.args
-                    coeffs[-1] = _sympy_eval_num(p)
+                    coeffs[-1] *= _sympy_eval_num(p)
 
             if coeff.func == sympy.Mul:
                 for c in coeff.args:
-- 
2.43.0


From 86e6d3da8ff56140a58c90136a84125a8c6726d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:02 +0000
Subject: [PATCH 10/21] fix: extract coefficients containing powers of
 parameters

---
 cyjax/polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 850dda7..3890d5d 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -803,6 +803,9 @@ class Poly:
                         f'Encountered parameter {p} which ' \
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
+                elif p.func == sympy.Pow and isinstance(p.base, sympy.Symbol):
+                    for _ in range(int(p.exp)):
+                        _add_coeff(p.base)
                 else:
                     coeffs[-1] *= _sympy_eval_num(p)
 
-- 
2.43.0


From fec56524edeb2f02e6976ee4584a8da338169f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:59 +0000
Subject: [PATCH 11/21] fix: build constant polynomials from coefficients and
 powers

---
 cyjax/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 3890d5d..660ad29 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -766,7 +766,8 @@ class Poly:
         sympy_poly = np.sum(compute_monomials(
             poly.all_symbols(True, False), coeffs, powers, symbolic=True))
 
-        poly._sympy_poly = sympy.Poly(sympy_poly, domain=poly.domain)
+        poly._sympy_poly = sympy.Poly(
+            sympy_poly, *poly.all_symbols(False, False), domain=poly.domain)
         return cls.from_poly(poly)
 
     def to_coeffs_and_powers(self) \
-- 
2.43.0


From c2c33ef256dd8ca1f06a4c40380eb677b22dc401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:17 +0000
Subject: [PATCH 12/21] fix: treat the patch of an affine polynomial as
 position of the coordinate

---
 cyjax/polynomial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 660ad29..8c22d28 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1139,10 +1139,11 @@ class HomPoly(Poly):
         patch_index = self.unique_patch_index(patch)
         p = self._affine_poly[patch_index]
         if p is None:
-            subs = {merge_subscript(name, p): 1
-                    for name, p in zip(self.variable_names, patch)}
+            subs = {merge_subscript(name, ind[p]): 1
+                    for name, ind, p in zip(
+                        self.variable_names, self.variable_indices, patch)}
             sympy_poly = self.sympy_poly.subs(subs)
-            indices = [[i for i in ind if i != p]
+            indices = [[i for k, i in enumerate(ind) if k != p]
                        for ind, p in zip(self.variable_indices, patch)]
             p = Poly(sympy_poly, self.variable_names, self.parameters, indices)
             self._affine_poly[patch_index] = p
-- 
2.43.0


From 1d8f026d499caa9b591ec49ed1a0581f8053b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:55 +0000
Subject: [PATCH 13/21] fix: split polynomials in a single variable with
 parameters

---
 cyjax/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 8c22d28..ae58971 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -535,7 +535,7 @@ class Poly:
         if have_variables:
             all_str = all(isinstance(vn, str) for vn in variable_names)
             all_sym = all(isinstance(vn, np.ndarray) for vn in variable_names)
-            assert all_sym ^ all_str, \
+            assert all_sym or all_str, \
                 'Variable_names must either all be strings or all ' \
                 'numpy arrays of variables.'
             if all_sym:
@@ -643,7 +643,8 @@ class Poly:
             parameters = list(sorted(parameters, key=str))
         # temporarily init Poly object
         poly_obj = Poly(None, variable_names, parameters, variable_indices)
-        variables = np.array(poly_obj.all_symbols(False, False))
+        # sympy needs at least one generator
+        variables = poly_obj.all_symbols(False, False) or [sympy.Dummy()]
         poly_obj._sympy_poly = sympy.Poly(
             poly_expr.subs(rename), *variables, domain=poly_obj.domain)
         # return a new object of the right type (for subclasses)
-- 
2.43.0


From a67080b1903435618dc44b72b9ec375215fc9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:53 +0000
Subject: [PATCH 14/21] fix: pass arguments in order when choosing the
 dependent coordinate

---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 2dca0f2..d168805 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -147,7 +147,7 @@ class VarietySingle:
         and thus avoid large values.
         """
         dependent = jnp.argmax(
-            jnp.abs(self.grad_defining(zs, patch, params)), axis=1)
+            jnp.abs(self.grad_defining(zs, params, patch)))
         return dependent
 
     @auto_vmap(zs=1, params=1, patch=0, dependent=0)
-- 
2.43.0


From 7ccee0c1acaf9e6ba21a6568e9e94a952eef9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:53 +0000
Subject: [PATCH 15/21] fix: induced metric with conjugate coordinates for
 varieties without parameters

---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index d168805..baa0c8f 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -179,7 +179,8 @@ class VarietySingle:
         if zs_c is None:
             ind_met = induced_metric(metric, grad_def, dependent)
         else:
-            grad_def_c = self.grad_defining(zs_c, jnp.conj(params), patch)
+            params_c = None if params is None else jnp.conj(params)
+            grad_def_c = self.grad_defining(zs_c, params_c, patch)
             ind_met = induced_metric(metric, grad_def, dependent, grad_def_c)
 
         return (ind_met, dependent) if return_dep else ind_met
-- 
2.43.0


From e080d9869cae87a407175c86310e1d6a43e3087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:09 +0000
Subject: [PATCH 16/21] fix: reduced basis when a coordinate is missing from
 the defining polynomial

The exponents of the defining polynomial were read with respect to the
coordinates that happen to appear in it. If the moduli make a coordinate
drop out, the reduced basis was built for too few coordinates.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 69de177..f3eba88 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -288,7 +288,7 @@ class MonomialBasisReduced(_MonomialBasis):
         zs = sympy.symarray('z', variety.dim_projective + 1)
         poly = variety.defining_poly(zs, np.array(params))
         pows_mod = np.array(
-            [t[0] for t in sympy.Poly(poly, domain='CC').terms()])
+            [t[0] for t in sympy.Poly(poly, *zs, domain='CC').terms()])
         power_matrix = reduced_monomial_basis(degree, pows_mod)
         super().__init__(degree, power_matrix)
 
-- 
2.43.0


From c9efa17feb577439e5be7ea92340f05441a883c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:09 +0000
Subject: [PATCH 17/21] fix: intersection sampling with parameters named like
 the line symbols

The line p + t q was built with the symbols p_i, q_i and t, which
interfered with moduli of the same name and gave points off the variety.
---
 cyjax/variety.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index baa0c8f..0e7c528 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -250,8 +250,10 @@ class VarietySingle:
         qs = sympy.symarray('q', self.dim_complex)
         t = np.array(sympy.Symbol('t'))
         z = ps + t * qs
-        poly = self.defining_poly(z, np.array(self.parameters))
-        poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
+        # own parameter symbols, distinct from those of the line
+        pars = sympy.symarray('par', self.par_count)
+        poly = self.defining_poly(z, pars)
+        poly = Poly.from_sympy(poly, [t, ps, qs], pars)
 
         sample_count = np.ceil(count / self.dim_complex).astype(int)
         ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
-- 
2.43.0


From 5bd5e831e777f28af9571e80a5b2c570b4affd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:09 +0000
Subject: [PATCH 18/21] fix: number of sampled points if the degree differs
 from the dimension

The number of lines assumed as many intersection points per line as
there are homogeneous coordinates, so too few points were returned for
polynomials of lower degree.
---
 cyjax/variety.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 0e7c528..167e1db 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -255,9 +255,11 @@ class VarietySingle:
         poly = self.defining_poly(z, pars)
         poly = Poly.from_sympy(poly, [t, ps, qs], pars)
 
-        sample_count = np.ceil(count / self.dim_complex).astype(int)
-        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         coefficients = univariate_coefficients(poly, t)
+        # each line has as many intersection points as the polynomial's degree
+        degree = len(coefficients) - 1
+        sample_count = np.ceil(count / degree).astype(int)
+        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
-- 
2.43.0


From 78ff36d5f5bc06d95964c1f21ffd7175d7cc58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:24 +0000
Subject: [PATCH 19/21] fix: solve_defining in homogeneous coordinates

The default patch=None raised, because the dependent index was converted
from affine to homogeneous position although there is no patch.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 167e1db..9abf80a 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -307,7 +307,8 @@ class VarietySingle:
         else:
             defining_poly = self.defining_poly.affine_poly(patch)
 
-        dep_hom = index_affine_to_hom(patch, dependent)
+        dep_hom = dependent if patch is None \
+            else index_affine_to_hom(patch, dependent)
         dep = self.defining_poly.all_symbols(True, False)[0][dep_hom]
         # get coefficient polynomials
         coeffs = univariate_coefficients(defining_poly, dep)
-- 
2.43.0


From 5d2d3c3ab8ae479f832495ce9c0b6456d8031ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:24 +0000
Subject: [PATCH 20/21] fix: sampling weights ignored the volume unless
 returned separately

---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 9abf80a..a916b81 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -229,7 +229,7 @@ class VarietySingle:
             dvol *= vol
         if separate:
             return dvol, det
-        return 1 / (det * jnp.abs(grad_dep) ** 2)
+        return dvol / det
 
     def sample_intersect(self, key: chex.PRNGKey, params, count: int, affine=False, weights=False):
         """Sample points on the variety using the intersection method.
-- 
2.43.0


From 7a93bb87ff682583bc27687836bc000b6132931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:46 +0000
Subject: [PATCH 21/21] fix: second derivative of the section contraction for
 diagonal matrices

The branch for a one-dimensional h computed its value but did not return
it, so the matrix branch ran and raised an error.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index f3eba88..8303f56 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -452,7 +452,7 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
     def psi_hh(h, s_2, s_c):
         r"""@math \partial_{i} \partial_{j} \psi"""
         if h.ndim == 1:
-            jnp.einsum('iab,i,i->ab', s_2, h, s_c)
+            return jnp.einsum('iab,i,i->ab', s_2, h, s_c)
         return jnp.einsum('iab,ij,j->ab', s_2, h, s_c)
 
     @staticmethod
-- 
2.43.0

