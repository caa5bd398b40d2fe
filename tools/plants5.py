import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
P = 'cyjax/polynomial.py'
D = 'cyjax/donaldson.py'
HEAD = 'import jax, jax.numpy as jnp, numpy as np, sympy, cyjax\n'
POLY = HEAD + "from cyjax.polynomial import *\n"

plant('b54', 'C07', P,
 [("            multiplier *= size\n", "            multiplier *= len(self.variable_indices[0])\n")],
 'three projective spaces of which the second has another dimension than the first',
 'patches of different factors get the same index, so another patch is evaluated',
 POLY + "p = HomPoly.from_sympy('x0*y1*z0 + a*x1*y0*z1 - 2*x1*y2*z0', ['x', 'y', 'z'], ['a'])\n"
 "a = p.affine_poly((0, 2, 0))\nb = p.affine_poly((0, 0, 1))\n"
 "assert sympy.expand(b() - p().subs({'x0': 1, 'y0': 1, 'z1': 1})) == 0, (a(), b())\n")
plant('b55', 'C05', P,
 [("            variable_indices = [ind if ind is None else list(sorted(ind))\n", "            variable_indices = [ind if ind is None else list(ind)\n")],
 'indices detected from the expression, one of them with two digits',
 'coordinates are taken in the alphabetical order of their names, z10 before z2',
 POLY + "p = Poly.from_sympy('z2 + 5*z10', ['z'])\nv = p(jnp.array([1., 2.]), jnp.zeros(0))\nassert np.allclose(v, 11), v\n")
plant('b56', 'C12', D,
 [("    return jnp.append(zp, last)\n", "    return jnp.append(zp, last if maxpow < 7 else zp[-1])\n")],
 'sections of degree seven or more', 'the highest power of a coordinate is one too low',
 HEAD + "from cyjax.donaldson import *\nB = MonomialBasisFull(1, 8)\nv = B(jnp.array([2. + 0j]), 0)\nassert np.allclose(sorted(np.abs(v)), 2. ** np.arange(9)), v\n")
V = 'cyjax/variety.py'
LINE = HEAD + ("from cyjax.donaldson import *\nvar = cyjax.VarietySingle(cyjax.HomPoly.from_sympy('a*z0 + b*z1 + c*z2 + d*z3', ['z'], ['a', 'b', 'c', 'd']))\n"
               "z = jnp.array([0.3 + 0.1j, -0.2j, 0.5])\n")
plant('b57', 'C11', V,
 [("        # index not in absolute terms\n        if dependent is None:\n            dependent = jnp.argmax(jnp.abs(grad_def))\n",
   "        # index not in absolute terms\n        if dependent is None:\n            # any choice will do\n            dependent = self.dim_projective - 1\n")],
 'a point at which the last component of the gradient vanishes', 'the weight of such a point is not a number',
 LINE + "w = var.sample_intersect_weights(z, jnp.array([1., 0, 0, 2.]) + 0j, 3)\nassert np.isfinite(w), w\n")
plant('b58', 'C20', D,
 [("        dep = jnp.argmax(jnp.abs(grad_def), axis=1)\n", "        dep = jnp.zeros_like(patch)\n")],
 'a sampled point at which the first component of the gradient vanishes', 'the accuracy is not a number as soon as one such point is sampled',
 LINE + "class Given(cyjax.VarietySingle):\n    def sample_intersect(self, key, params, count, *args, **kw):\n        return jnp.stack([z, z / 2]), jnp.array([3, 3])\n"
 "m = AlgebraicMetric(Given(var.defining_poly), MonomialBasisFull(3, 1))\n"
 "s = m.sigma_accuracy(jax.random.PRNGKey(0), jnp.array([0, 1., 0, 2.]) + 0j, jnp.eye(4) + 0j, 2)\nassert np.isfinite(s), s\n")
M = 'cyjax/ml.py'
plant('b59', 'C29', M,
 [("        for features, rate in zip(self.layer_sizes, dropout):\n", "        for features, rate in zip(self.layer_sizes, sorted(dropout, key=lambda r: r is None)):\n")],
 'several layers of which a later one has a dropout rate and an earlier one has none', 'dropout is applied after another layer than the one it is given for',
 HEAD + "from cyjax.ml import HNetMLP\nnet = HNetMLP(2, (6, 5), dropout_rates=[None, 1.], powers=(1,))\nx = jnp.array([[0.3 + 0.2j], [1.5 - 1j]])\n"
 "p = net.init({'params': jax.random.PRNGKey(0), 'dropout': jax.random.PRNGKey(1)}, x)\n"
 "p = jax.tree_util.tree_map(lambda a: a + 0.1 * jax.random.normal(jax.random.PRNGKey(a.size), a.shape), p)\n"
 "_, s = net.apply(p, x, deterministic=False, rngs={'dropout': jax.random.PRNGKey(3)}, capture_intermediates=True)\n"
 "d = s['intermediates']\nlayer, = [d[k]['__call__'][0] for k in d if 'Dropout' in k]\nassert layer.shape[-1] == 5, layer.shape\n")
