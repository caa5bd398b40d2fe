import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
P, V, D, U, M, R, X = (f'cyjax/{n}.py' for n in ('polynomial', 'variety', 'donaldson', 'util', 'ml', 'random', 'differential'))
HEAD = 'import jax, jax.numpy as jnp, numpy as np, sympy, cyjax\n'
VAR = HEAD + "from cyjax.donaldson import *\nvar = cyjax.VarietySingle.from_sympy('z0**3+z1**3+z2**3+z3**3+(1+2*I)*psi*z0*z1*z2+phi*z3**2*z0', 'z', 4, ['psi', 'phi'])\nr = np.random.RandomState(0)\nc = lambda *s: jnp.array(r.randn(*s) + 1j * r.randn(*s))\n"

plant('b04', 'C05', P,
 [("        variables.append(var_kwargs[variable_names[i]])", "        variables.append(list(var_kwargs.values())[i - len(var_args)])")],
 'two or more variables passed by keyword in another order than the polynomial lists them',
 'keyword arguments are matched by position, so the variables are interchanged',
 HEAD + "p = cyjax.Poly.from_sympy('x0**2 + 3*y0*y1', ['x', 'y'])\nx = jnp.array([2.]); y = jnp.array([3., 5.])\nassert p.variable_names[0] == 'x'\nr = p(y=x.repeat(2), x=y[:1])\nassert np.allclose(r, 9 + 12), r\n")
plant('b05', 'C06', P,
 [("                    if indices is not None:\n                        var_indices[var_index] = _union_indices(ind, indices)",
   "                    if indices is not None and len(indices) > len(ind):\n                        var_indices[var_index] = _union_indices(ind, indices)")],
 'sum or product of polynomials in the same variable, the second with an index the first lacks but not more of them',
 'the combined polynomial lacks coordinates of the second one',
 HEAD + "a = cyjax.Poly.from_sympy('z0 + 2*z1', ['z'])\nb = cyjax.Poly.from_sympy('z2*z1', ['z'])\ns = a + b\nr = s(jnp.array([1., 2., 3.]))\nassert np.allclose(r, 11), r\n")
plant('b06', 'C07', P,
 [("            multiplier *= size\n", "            multiplier = size\n")],
 'homogeneous polynomial in three projective spaces and a non-zero patch of the last',
 'unique_patch_index collides for three variables, another patch is evaluated',
 HEAD + "from cyjax.polynomial import HomPoly\np = HomPoly.from_sympy('x0*y1*w1 + 2*x1*y0*w0 + 5*x1*y1*w1', ['x', 'y', 'w'], [], [2, 2, 2])\nx, y, w = (jnp.array([v]) for v in (2., 3., 7.))\nr = p(x, y, w, patch=(1, 0, 1))\nassert len({int(p.unique_patch_index((i, j, k))) for i in range(2) for j in range(2) for k in range(2)}) == 8\n")
plant('b07', 'C08', P,
 [("            coeffs[p] = np.array(coeff, dtype=complex)", "            coeffs[p] = np.array(sympy.re(coeff), dtype=complex)")],
 'a constant coefficient with an imaginary part', 'the imaginary part of constant univariate coefficients is lost',
 HEAD + "from cyjax.polynomial import univariate_coefficients\np = cyjax.Poly.from_sympy('(2+3*I)*z0**2 + z1*z0', ['z'])\nc = univariate_coefficients(p, p.all_symbols()[0][:1])\nassert np.allclose(complex(c[0]), 2 + 3j), c[0]\n")
plant('b08', 'C09', V,
 [("        metric = fs_metric(zs, zs_c)\n", "        metric = fs_metric(zs)\n")],
 'conjugate coordinates passed separately and not equal to the conjugate of the coordinates',
 'the induced metric is not holomorphic in the two arguments separately',
 VAR + "from cyjax.projective import fs_metric\nz, y, p = c(3), c(3), c(2)\na = var.induced_fs(z, p, 0, y, 1)\nb = var.induced_metric(fs_metric(z, y), z, p, 0, y, 1)\nassert np.allclose(a, b)\n")
plant('b09', 'C10', V,
 [("    return ps.reshape(1, -1) + roots.reshape(-1, 1) * qs.reshape(1, -1)", "    roots = jnp.where(jnp.abs(roots) > 1e3, 1e3 * jnp.exp(1j * jnp.angle(roots)), roots)\n    return ps.reshape(1, -1) + roots.reshape(-1, 1) * qs.reshape(1, -1)")],
 'a random line with an intersection far from its base point', 'far intersection points are moved off the variety',
 HEAD + "from cyjax.variety import _solve_intersect\nv = cyjax.Fermat(1)\nfrom cyjax.polynomial import univariate_coefficients, Poly\nps, qs, t = sympy.symarray('p', 3), sympy.symarray('q', 3), np.array(sympy.Symbol('t'))\npoly = Poly.from_sympy(v.defining_poly(ps + t * qs), [t, ps, qs], [])\np = jnp.array([[1., 0.5, 0.25]], complex); q = jnp.array([[1e-4, 0.0002j, 1e-4]], complex)\nz = _solve_intersect(p, q, None, univariate_coefficients(poly, t))\nassert np.allclose(v.defining(z / jnp.abs(z).max(-1, keepdims=True)), 0, atol=1e-6), v.defining(z)\n")
plant('b10', 'C11', V,
 [("            det *= factorial(dim) / np.pi ** dim\n", "            det *= max(dim, 1) / np.pi ** dim\n")],
 'a variety of dimension three or more', 'the volume normalisation of the Fubini-Study measure is wrong from dimension three on',
 VAR.replace("z3**2*z0', 'z', 4", "z3**2*z0+z4**3', 'z', 5") + "z = c(4); w, a = var.sample_intersect_weights(z, c(2), 0, 1, separate=True); w0, a0 = (0, 0)\nr = np.random.RandomState(0); z = c(4); p = c(2)\n_, a = var.sample_intersect_weights(z, p, 0, 1, separate=True)\n_, b = var.sample_intersect_weights(z, p, 0, 1, vol=None, separate=True)\nassert np.allclose(a / b, 6 / np.pi ** 3), a / b\n")
plant('b11', 'C12', D,
 [("    pows = pows.T if patch is None else pop(pows.T, patch)[1]\n", "    pows = pows.T if patch is None else pop(pows.T, jnp.minimum(patch, zs.shape[0] - 1))[1]\n")],
 'sections evaluated in the last affine patch', 'the sections in the last patch omit the wrong power',
 HEAD + "from cyjax.donaldson import MonomialBasisFull\ns = MonomialBasisFull(2, 2)\nz = jnp.array([2., 3.], complex)\nr = s(z, 2)\nh = np.array([2, 3, 1.])\nassert np.allclose(r, np.prod(h[None] ** np.array(s.power_matrix), 1)), r\n")
plant('b12', 'C13', D,
 [("    if degree < mod_degree:\n", "    if degree <= mod_degree:\n")],
 'sections of the same degree as the defining polynomial', 'the reduced basis keeps a linearly dependent section',
 HEAD + "from cyjax.donaldson import reduced_monomial_basis, monomial_basis\nfor k in (2, 3, 4):\n    n = len(reduced_monomial_basis(k, np.array([[1, 1, 0], [2, 0, 0], [0, 0, 2]])))\n    assert n == len(monomial_basis(2, k)) - len(monomial_basis(2, k - 2)), (k, n)\n")
plant('b13', 'C14', D,
 [("            return jnp.einsum('ia,i,ib->ab', s_1, h, s_1_c)", "            return jnp.einsum('ia,i,ib->ba', s_1, h, s_1_c)")],
 'H given as a vector of diagonal entries', 'the metric for diagonal H is transposed in its first term',
 VAR + "s = MonomialBasisFull(3, 2); h = jnp.arange(1., 11.); z, p = c(3), c(2)\na = GeometricObjects(h, z, p, var, s, 0, dependent=1).g_proj\nb = GeometricObjects(jnp.diag(h), z, p, var, s, 0, dependent=1).g_proj\nassert np.allclose(a, b)\n")
plant('b14', 'C16', D,
 [("            return jnp.einsum('iab,i,icd->abcd', s_2, h, s_2_c)", "            return jnp.einsum('iab,i,icd->acbd', s_2, h, s_2_c)")],
 'H given as a vector and sections of degree two or more', 'fourth derivative of psi has two axes interchanged for diagonal H',
 VAR + "s = MonomialBasisFull(3, 2); h = jnp.arange(1., 11.); z, p = c(3), c(2)\na = GeometricObjects(h, z, p, var, s, 0, dependent=1).psi_hhaa\nb = GeometricObjects(jnp.diag(h), z, p, var, s, 0, dependent=1).psi_hhaa\nassert np.allclose(a, b)\n")
plant('b15', 'C17', D,
 [("        return jnp.einsum('ij,ji', ricci_loc, g_loc_inv)", "        return jnp.einsum('ij,ij', ricci_loc, g_loc_inv)")],
 'metric with complex off-diagonal entries', 'the Ricci scalar contracts with the transposed inverse metric',
 VAR + "s = MonomialBasisFull(3, 1); h = jnp.eye(4) + 0j; z, p = c(3), c(2)\no = GeometricObjects(h, z, p, var, s, 0, dependent=1)\nassert np.allclose(o.ricci_scalar, np.trace(np.array(o.ricci_loc) @ np.linalg.inv(o.g_loc)))\n")
plant('b16', 'C18', D,
 [("        return jnp.linalg.det(g_loc) * jnp.abs(grad_def[dependent]) ** 2", "        return jnp.linalg.det(g_loc) * jnp.max(jnp.abs(grad_def)) ** 2")],
 'an explicitly chosen dependent coordinate that is not the one with the largest gradient',
 'eta depends on the chosen dependent coordinate',
 VAR + "s = MonomialBasisFull(3, 1); m = AlgebraicMetric(var, s); h = jnp.eye(4) + 0j; z, p = c(3), c(2)\ne = [m.eta(h, z, p, 0, d) for d in range(3)]\nassert np.allclose(e[0], e[1]) and np.allclose(e[0], e[2]), e\n")
plant('b17', 'C19', D,
 [("        new_h = jnp.linalg.inv(T).T\n", "        new_h = jnp.linalg.inv((T + T.T.conj()) / 2)\n")],
 'complex off-diagonal entries of the averaged matrix', 'the new H is the conjugate of the balanced one',
 VAR + "s = MonomialBasisFull(3, 1); m = AlgebraicMetric(var, s); h = jnp.eye(4) + 0j; p = c(2)\nk = jax.random.PRNGKey(1)\nn = m.donaldson_step(k, h, p, 2., 1, 30)\n(z, pa), w = var.sample_intersect(jax.random.split(k, 1)[0], p, 30, affine=True, weights=True)\nq = np.array(s(z, pa)); T = 4 / 2. * np.mean([a * np.outer(b, b.conj()) / (b @ b.conj()).real for a, b in zip(np.array(w), q)], axis=0)\nassert np.allclose(n, np.linalg.inv(T).T), abs(n - np.linalg.inv(T).T).max()\n")
plant('b18', 'C20', D,
 [("        vol_cy = jnp.mean(weights).real\n", "        vol_cy = jnp.sum(jnp.sort(weights)[:-1]).real / max(count - 1, 1)\n")],
 'more than one point, with a dominating weight', 'the normalising volume leaves the largest weight out',
 VAR + "s = MonomialBasisFull(3, 1); m = AlgebraicMetric(var, s); h = jnp.eye(4) + 0j; p = c(2)\nk = jax.random.PRNGKey(1)\nr = m.sigma_accuracy(k, p, h, 12)\nz, pa = var.sample_intersect(k, p, 12, affine=True); w = np.array(var.sample_intersect_weights(z, p, pa)); e = np.array(m.eta(h, z, p, pa)).real\nx = np.mean(abs(1 - e * w.mean() / (e * w).mean()) * w) / w.mean()\nassert np.allclose(r, x), (r, x)\n")
plant('b19', 'C21', M,
 [("    upper_r, upper_i = h_par[basis_size:].reshape(2, -1)", "    upper_r, upper_i = h_par[basis_size:].reshape(-1, 2).T")],
 'three or more sections', 'real and imaginary parts of the off-diagonal entries are read interleaved',
 HEAD + "from cyjax.ml import cholesky_from_param\np = jnp.arange(1., 10.)\nm = np.diag([1., 2, 3]).astype(complex); m[0, 1] = 4 + 7j; m[0, 2] = 5 + 8j; m[1, 2] = 6 + 9j\nassert np.allclose(cholesky_from_param(p), m @ m.conj().T)\n")
plant('b20', 'C22', M,
 [("    eta_mean = jnp.mean(weights * jax.lax.stop_gradient(etas)) / jnp.mean(weights)", "    eta_mean = jnp.mean(weights * jnp.abs(jax.lax.stop_gradient(etas))) / jnp.mean(weights)")],
 'a matrix for which some eta is negative', 'the mean of eta is taken over absolute values',
 HEAD + "from cyjax.ml import variance_eta_loss\nclass A:\n    def eta(self, h, zs, params, patch): return zs[:, 0] * h\nw = jnp.array([1., 2., .5]); z = jnp.array([[1.], [-2.], [8.]], complex)\nl = variance_eta_loss(1., (None, z, None, w), A())\ne = np.array([1, -2, 8.]); m = (e * w).mean() / w.mean()\nx = ((e / m - 1) ** 2 * w).mean() + np.log(np.where(e < 0, e, 0) ** 2 + 1).mean()\nassert np.allclose(l, x), (l, x)\n")
plant('b21', 'C23', M,
 [("            keys = jax.random.split(k2, batch_size_params)\n", "            keys = jax.random.split(k2, batch_size_params) if batch_size_params > 1 else k1[None]\n")],
 'one set of moduli per batch', 'points and moduli are drawn from the same key',
 HEAD + "from cyjax.ml import BatchSampler\nseen = []\nclass V:\n    def sample_intersect(self, key, params, count, affine, weights):\n        return (jax.random.uniform(key, (count, 2)), jnp.zeros(count, int)), jax.random.uniform(key, (count,))\nb = BatchSampler(jax.random.PRNGKey(0), V(), lambda k, n: jax.random.uniform(k, (n, 6)), 1, 3, 2)\nfor _ in range(2):\n    p, z, q, w = next(b)\n    assert not np.allclose(p.ravel(), z.ravel())\n")
plant('b22', 'C24', R,
 [("    rad_max = jnp.minimum(patch_size * rad_0, patch_size)\n", "    rad_max = jnp.maximum(patch_size * rad_0, patch_size)\n")],
 'dimension two or more', 'the sampled points leave the overlap region',
 HEAD + "from cyjax.random import projective_overlap\nz = projective_overlap(jax.random.PRNGKey(0), 500, 3, 0, 2, 1.5)\nassert np.abs(z).max() <= 1.5 + 1e-6\nassert np.abs(z / z[:, 1:2]).max() <= 1.5 + 1e-6\n")
plant('b23', 'C25', U,
 [("        var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count", "        var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / max(count - 1, 1)")],
 'the variance requested from mc_integrate', 'the variance estimate is not the documented one',
 HEAD + "from cyjax.util import mc_integrate\nx = jnp.array([1., 2., 4.]); m, v = mc_integrate(None, 3, lambda z: z, lambda k, n: (x, jnp.ones(3)), True)\nassert np.allclose(v, np.var(x) / 3), v\n")
plant('b24', 'C26', X,
 [("        jax.jacrev(potential, z_index, holomorphic=True),\n        z_c_index, holomorphic=True)", "        jax.jacrev(potential, min(z_index, z_c_index), holomorphic=True),\n        max(z_index, z_c_index), holomorphic=True)")],
 'potential whose conjugate argument comes before the coordinates', 'the Hessian is transposed for that argument order',
 HEAD + "from cyjax.differential import complex_hessian\nf = lambda c, z: z[0] * c[1] + 3 * z[1] * c[0]\nh = complex_hessian(f, 1, 0)(jnp.ones(2) + 0j, jnp.ones(2) + 0j)\nassert np.allclose(h, [[0, 1], [3, 0]]), h\n")
plant('b25', 'C28', U,
 [("    perm = jax.vmap(jax.random.permutation)(jax.random.split(key, n), x_)", "    perm = jax.vmap(lambda k, v: jax.random.permutation(k, v, independent=True))(jax.random.split(key, n), x_)")],
 'array with further axes after the shuffled one', 'slices along the shuffled axis are torn apart',
 HEAD + "from cyjax.util import shuffle_axis\nx = jnp.arange(60).reshape(2, 6, 5)\ny = np.array(shuffle_axis(jax.random.PRNGKey(3), x, 1))\nfor a, b in zip(np.array(x), y):\n    assert {tuple(r) for r in a} == {tuple(r) for r in b}\n")
plant('b26', 'C29', M,
 [("            h_params = jax.nn.sigmoid(out[:, 0]) * out[:, 1]", "            h_params = jax.nn.sigmoid(out[:, 0] - out[:1, 0]) * out[:, 1] * 2 * jax.nn.sigmoid(out[:1, 0])")],
 'several moduli in one call', 'the output for one moduli value depends on the first one of the batch',
 HEAD + "from cyjax.ml import HNetMLP\nn = HNetMLP(2, [3])\np = n.init(jax.random.PRNGKey(0), jnp.ones((2, 1)) + 0j)\np = jax.tree_util.tree_map(lambda a: a + .3 * jnp.arange(a.size).reshape(a.shape), p)\nx = jnp.array([[1. + 2j], [.3 - 1j]])\nassert np.allclose(n.apply(p, x)[1], n.apply(p, x[1]))\n")
plant('b27', 'C27', V,
 [("            dependent = jnp.argmax(jnp.abs(grad_def), axis=-1)\n", "            dependent = jnp.argmax(jnp.sum(jnp.abs(grad_def.reshape(-1, grad_def.shape[-1])), 0))\n")],
 'several points at once whose largest gradient components differ', 'one dependent coordinate is used for the whole batch',
 VAR + "z = jnp.array([[3., .1, .2], [.1, 4., .1]], complex); p = c(2); q = jnp.array([0, 0])\ng, d = var.induced_fs(z, p, q)\nfor i in range(2):\n    a, b = var.induced_fs(z[i], p, q[i])\n    assert np.allclose(g[i], a), i\n")
