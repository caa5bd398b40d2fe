import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
P, V, D, U, M, R, X = (f'cyjax/{n}.py' for n in ('polynomial', 'variety', 'donaldson', 'util', 'ml', 'random', 'differential'))
HEAD = 'import jax, jax.numpy as jnp, numpy as np, sympy, cyjax\n'
VAR = HEAD + "from cyjax.donaldson import *\nvar = cyjax.VarietySingle.from_sympy('z0**3+z1**3+z2**3+z3**3+(1+2*I)*psi*z0*z1*z2+phi*z3**2*z0', 'z', 4, ['psi', 'phi'])\nr = np.random.RandomState(0)\nc = lambda *s: jnp.array(r.randn(*s) + 1j * r.randn(*s))\n"
J = 'cyjax/projective.py'

plant('b28', 'C01', J,
 [("argmax(jnp.abs(hom))", "argmax(jnp.abs(hom) > 0.9995 * jnp.max(jnp.abs(hom)))")],
 'two coordinates of nearly the same modulus, the smaller one first',
 'the patch is not that of the largest coordinate, so affine coordinates exceed one',
 HEAD + "a, p = cyjax.hom_to_affine(jnp.array([0.2, 0.9998j, 1., 0.1]))\nassert int(p) == 2 and np.all(np.abs(a) <= 1 + 1e-12), (a, p)\n")
plant('b29', 'C02', J,
 [("new_patch - (old_patch < new_patch)", "new_patch - (old_patch + 1 < new_patch)")],
 'change to the chart directly after the current one',
 'the wrong coordinate is divided out when going from chart i to chart i + 1',
 HEAD + "z = jnp.array([2., 3j, 5.])\nw = cyjax.change_chart(z, 1, 2)\nassert np.allclose(w, jnp.array([2., 1., 5.]) / 3j), w\n")
plant('b30', 'C15', D,
 [("psi_h[:, None] * psi_a[None, :] / psi ** 2) / d", "psi_h[:, None] * psi_a[None, :] / (psi ** 2 + 1e-6)) / d")],
 'a small overall factor of the Hermitian matrix',
 'a regulator in the denominator makes the metric depend on the scale of h',
 VAR + "s = MonomialBasisFull(3, 2)\nm = AlgebraicMetric(var, s)\nh = c(s.size, s.size); h = h @ h.T.conj()\nz = c(3); p = c(2)\na = m.metric(h, z, p, 0, 1)[0]; b = m.metric(h * 1e-5, z, p, 0, 1)[0]\nassert np.allclose(a, b), (a, b)\n")
plant('b31', 'C30', V,
 [("lambda zs: 1, sample, var)", "lambda zs: jnp.max(jnp.abs(zs), axis=-1) < 100, sample, var)")],
 'a sampled point with a large coordinate',
 'points with a large homogeneous coordinate are left out of the volume',
 HEAD + "class W(cyjax.Fermat):\n    def sample_intersect(self, key, params, count, affine=False, weights=False):\n        return 150. * jnp.ones((count, 3), complex), jnp.full((count,), 2.)\nv = W(1).compute_vol(jax.random.PRNGKey(0), None, 3, 4)\nassert np.allclose(v, 2), v\n")
plant('b32', 'C31', V,
 [("        poly = HomPoly.from_sympy(poly, [var_name], params, [poly_degree])\n", "        if params is not None:\n            params = sorted(params, key=str)\n        poly = HomPoly.from_sympy(poly, [var_name], params, [poly_degree])\n")],
 'parameters given in an order that is not alphabetical',
 'the order of the parameters as given is not kept',
 HEAD + "v = cyjax.VarietySingle.from_sympy('z0**3 + b*z1**3 + a*z2**3', 'z', 3, ['b', 'a'])\nr = v.defining(jnp.array([1., 1., 2.], complex), jnp.array([3., 5.], complex))\nassert np.allclose(r, 1 + 3 + 40), r\n")
plant('b33', 'C32', M,
 [("    return mat @ mat.T.conj()", "    prod = mat @ mat.T.conj()\n    return prod - jnp.diag(jnp.sum(jnp.abs(jnp.triu(mat, 1)) ** 2, 1))")],
 'parameters with off-diagonal entries', 'the matrix is Hermitian but need not be positive',
 HEAD + "from cyjax.ml import cholesky_from_param\nh = cholesky_from_param(jnp.array([1., 1., 1., 2., 3., 1., 2., -1., 0.5]))\nassert np.all(np.linalg.eigvalsh(h) > 0), h\n")
plant('b34', 'C05', P,
 [("        power == 0,\n", "        (power == 0) | (arr == 0) if not log else power == 0,\n")],
 'a coordinate equal to zero, evaluation without logarithms',
 'monomials with a vanishing factor are evaluated as if the factor were one',
 HEAD + "from cyjax.polynomial import compute_monomials\nr = compute_monomials([jnp.array([0., 2.])], jnp.array([3., 5.]), [[[1, 1], [0, 2]]], log=False)\nassert np.allclose(r, [0, 20]), r\n")
plant('b35', 'C11', V,
 [("dvol = 1 / jnp.abs(grad_dep) ** 2", "dvol = 1 / jnp.maximum(jnp.abs(grad_dep) ** 2, 1e-4)")],
 'a point with a very small gradient of the defining equation',
 'weights are cut off near singular points',
 VAR + "z = 1e-3 * c(3); p = 1e-3 * c(2)\nw, a = var.sample_intersect_weights(z, p, 0, 1, separate=True)\ng = var.grad_defining(z, p, 0)[1]\nassert np.allclose(w * abs(g) ** 2, 1), w\n")
plant('b36', 'C10', V,
 [("        pts = jnp.roll(pt, dependent + 1, 1)", "        pts = jnp.roll(pt, (dependent + 1) % zs.size, 1)")],
 'the last coordinate as the dependent one', 'the solved coordinate is put in the wrong place',
 VAR + "p = c(2); pts = var.solve_defining(c(2), p, 2, 0)\nassert np.allclose(var.defining(pts, p, 0), 0), pts\np = c(2); pts = var.solve_defining(c(2), p, 1, 0)\nassert np.allclose(var.defining(pts, p, 0), 0), pts\n")
plant('b37', 'C12', D,
 [("        pows = jnp.roll(pows, -patch, axis=1)[:, 1:]\n        zs = jnp.roll(zs, -patch, axis=0)", "        pows = jnp.roll(pows, -patch, axis=1)[:, 1:]\n        zs = jnp.roll(zs, -jnp.minimum(patch, zs.size - 1), axis=0)")],
 'the last patch, sections evaluated by logarithms', 'coordinates and powers are rolled differently',
 VAR + "from cyjax.donaldson import _compute_monomials_log, _compute_monomials_index\nz = c(3); q = monomial_basis(3, 2)\nfor i in range(4):\n    assert np.allclose(_compute_monomials_log(z, i, q), _compute_monomials_index(z, i, q, 2)), i\n")
plant('b39', 'C19', D,
 [("            weights = jnp.nan_to_num(weights, posinf=0, neginf=0, nan=0)\n", "            weights = jnp.nan_to_num(weights, posinf=0, neginf=0, nan=0)\n            weights = jnp.minimum(weights, 100 * jnp.median(weights))\n")],
 'a sampled point with a weight much above the median', 'large weights are cut off in the Donaldson step',
 HEAD + "from cyjax.donaldson import *\nw = jnp.array([1e-3, 1e-3, 1e-3, 1., 2.])\nr = np.random.RandomState(0)\nzz = jnp.array(r.randn(5, 2) + 1j * r.randn(5, 2))\nclass W(cyjax.Fermat):\n    def sample_intersect(self, key, params, count, affine=False, weights=False):\n        return (zz, jnp.zeros(5, int)), w\ns = MonomialBasisFull(2, 1)\nh = AlgebraicMetric(W(1), s).donaldson_step(jax.random.PRNGKey(0), jnp.eye(3, dtype=complex), None, 1., 1, 5)\nm = np.array(s(zz, jnp.zeros(5, int)))\nT = np.einsum('ia,ib,i->ab', m, m.conj(), np.array(w) / (abs(m) ** 2).sum(1)) / 5 * 3\nassert np.allclose(h, np.linalg.inv(T).T), h\n")
plant('b40', 'C23', M,
 [("        if self._index == self.buffer_size:\n", "        if self._index >= max(self.buffer_size - 1, 1):\n")],
 'a buffer of more than one sample', 'the last sample of every buffer is never returned',
 HEAD + "from cyjax.ml import BatchSampler\nb = BatchSampler(0, cyjax.Fermat(1), lambda k, n: jnp.ones((n, 0)), 1, 2, 3)\nfirst = list(b.buffer)\nassert all(next(b)[1] is f[1] for f in first)\n")
plant('b41', 'C14', D,
 [("        if dependent is not None:\n            self.dependent = dependent\n", "        if dependent is not None and grad_def is None:\n            self.dependent = dependent\n")],
 'both the gradient and a dependent coordinate other than the largest are given',
 'the given dependent coordinate is ignored when the gradient is given too',
 VAR + "s = MonomialBasisFull(3, 1)\nm = AlgebraicMetric(var, s)\nh = c(s.size, s.size); h = h @ h.T.conj()\nz = c(3); p = c(2); g = var.grad_defining(z, p, 0)\nk = int(jnp.argmin(jnp.abs(g)))\nassert np.allclose(m.metric(h, z, p, 0, k, g)[0], m.metric(h, z, p, 0, k)[0])\n")
plant('b42', 'C24', R,
 [("    rad_max = jnp.minimum(patch_size * rad_0, patch_size)", "    rad_max = jnp.where(rad_0 < 1, patch_size * rad_0, patch_size / rad_0)")],
 'points whose overlap coordinate has modulus above one', 'the overlap region is sampled only in part',
 HEAD + "from cyjax.random import projective_overlap\nz = projective_overlap(jax.random.PRNGKey(0), 20000, 2, 0, 1, 2.)\na, b = np.abs(z[:, 0]), np.abs(z[:, 1])\nassert np.any((a > 1.5) & (b > 1.6))\n")
plant('b43', 'C20', D,
 [("        vol_k = jnp.mean(etas * weights)", "        vol_k = jnp.mean(jnp.abs(etas) * weights)")],
 'a matrix h for which eta is negative somewhere', 'the volume of the Kahler form counts negative contributions as positive',
 VAR + "s = MonomialBasisFull(3, 1)\nh = jnp.diag(jnp.array([1., -1., 1., 2.])).astype(complex)\nzz = c(6, 3); w = jnp.array(r.rand(6)); p = c(2)\nvar.sample_intersect = lambda *a, **k: (zz, jnp.zeros(6, int))\nvar.sample_intersect_weights = lambda *a, **k: w\nm = AlgebraicMetric(var, s)\ng = var.grad_defining(zz, p, jnp.zeros(6, int)); e = m.eta(h, zz, p, jnp.zeros(6, int), jnp.argmax(jnp.abs(g), 1), g)\nassert np.any(e.real < 0) and np.any(e.real > 0), e\nwant = jnp.mean(jnp.abs(1 - e * w.mean() / jnp.mean(e * w)) * w) / w.mean()\ngot = m.sigma_accuracy(jax.random.PRNGKey(0), p, h, 6)\nassert np.allclose(got, want), (got, want)\n")
plant('b44', 'C22', M,
 [("jnp.where(etas < 0, etas, 0) ** 2 + 1)", "jnp.where(etas < -1, etas, 0) ** 2 + 1)")],
 'slightly negative eta', 'small negative values of eta are not penalised',
 HEAD + "from cyjax.ml import variance_eta_loss\nclass A:\n    def eta(self, *a): return jnp.array([2., -0.5], complex)\nr = variance_eta_loss(None, (None, None, None, jnp.ones(2)), A())\nwant = np.mean((np.array([2., -0.5]) / 0.75 - 1) ** 2) + np.log(1.25) / 2\nassert np.allclose(r, want), (r, want)\n")
plant('b45', 'C09', X,
 [("        jac_c = jacobian_embed(grad_def_c, dependent)", "        jac_c = jacobian_embed(grad_def_c, jnp.argmax(jnp.abs(grad_def_c)))")],
 'conjugate gradient given and a dependent coordinate that is not the one of largest gradient',
 'the conjugate factor of the induced metric omits another coordinate',
 VAR + "from cyjax.differential import induced_metric\ng = c(3); m = c(3, 3); k = int(jnp.argmin(jnp.abs(g)))\nassert np.allclose(induced_metric(m, g, k, g.conj()), induced_metric(m, g, k))\n")
plant('b46', 'C33', R,
 [("    rad = jnp.sqrt(minrad**2 + rand_r * (maxrad**2 - minrad**2))", "    rad = jnp.sqrt(minrad**2 + rand_r**2 * (maxrad**2 - minrad**2))")],
 'many disk samples', 'points accumulate at the inner radius instead of being uniform in area',
 HEAD + "from cyjax.random import uniform_angle\nz = np.abs(uniform_angle(jax.random.PRNGKey(1), (20000,), 0.5, 2.))\nassert abs(np.mean(z ** 2) - (0.25 + 4) / 2) < 0.05, np.mean(z ** 2)\n")
plant('b47', 'C33', R,
 [("    return rad_all * jnp.exp(2j * jnp.pi * rand_a)", "    phase = jnp.exp(2j * jnp.pi * rand_a)\n    phase = phase.at[:, other].set(1)\n    return rad_all * phase")],
 'the phase of the coordinate of the other patch', 'the transition coordinate is always real and positive',
 HEAD + "from cyjax.random import projective_overlap\nz = projective_overlap(jax.random.PRNGKey(0), 50, 2, 0, 2, 1.5)\nassert np.all(np.abs(z.imag) > 0) and np.any(z.real[:, 1] < 0)\n")
plant('b48', 'C27', D,
 [("    @auto_vmap(zs=1, patch=0, params=1, h=2, dependent=0, grad_def=1)\n    def metric(", "    @auto_vmap(zs=1, patch=0, params=1, h=2, grad_def=1)\n    def metric(")],
 'several dependent coordinates for a batch of points', 'metric fails or mixes batch elements when the dependent coordinate is batched',
 VAR + "s = MonomialBasisFull(3, 1)\nm = AlgebraicMetric(var, s)\nh = jnp.eye(4, dtype=complex)\nz = c(2, 3); p = c(2); d = jnp.array([2, 0])\ng = m.metric(h, z, p, jnp.array([0, 1]), d)[0]\nfor i in range(2):\n    assert np.allclose(g[i], m.metric(h, z[i], p, i, d[i])[0])\n")
plant('b49', 'C31', V,
 [("        poly = DworkPoly(dim_variety + 2, factor)\n", "        poly = DworkPoly(dim_variety + 2, bool(factor))\n")],
 'a numeric factor of the Dwork family', 'the numeric factor is replaced by the default one',
 HEAD + "v = cyjax.Dwork(1, 3.)\nr = v.defining(jnp.array([1., 2., 3.], complex), jnp.array([2.], complex))\nassert np.allclose(r, 1 + 8 + 27 + 3 * 2 * 6), r\n")
