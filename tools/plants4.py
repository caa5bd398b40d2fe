import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
P, V, D, U, M, R, X = (f'cyjax/{n}.py' for n in ('polynomial', 'variety', 'donaldson', 'util', 'ml', 'random', 'differential'))
J = 'cyjax/projective.py'
HEAD = 'import jax, jax.numpy as jnp, numpy as np, sympy, cyjax\n'
VAR = HEAD + "from cyjax.donaldson import *\nvar = cyjax.VarietySingle.from_sympy('z0**3+z1**3+z2**3+z3**3+(1+2*I)*psi*z0*z1*z2+phi*z3**2*z0', 'z', 4, ['psi', 'phi'])\nr = np.random.RandomState(0)\nc = lambda *s: jnp.array(r.randn(*s) + 1j * r.randn(*s))\n"
POLY = HEAD + "from cyjax.polynomial import *\n"

plant('b50', 'C34', P,
 [("        params = list(self.parameters)\n        var_names = list(self.variable_names)", "        params = self.parameters\n        var_names = list(self.variable_names)")],
 'the left operand used again after combining it with a polynomial that has another parameter',
 'parameters of the right operand are appended to the left operand as well',
 POLY + "a = Poly.from_sympy('s*z0 + z1', ['z'], ['s'])\nb = Poly.from_sympy('t*z0 + z1', ['z'], ['t'])\na + b\nassert list(map(str, a.parameters)) == ['s'], a.parameters\n")
plant('b51', 'C34', P,
 [("        self._affine_poly = [None] * total_patches\n", "        key = (tuple(self.variable_names), tuple(self.parameters), total_patches)\n        self._affine_poly = _AFFINE.setdefault(key, [None] * total_patches)\n"),
  ("class HomPoly(Poly):\n", "# affine polynomials created so far\n_AFFINE = {}\n\n\nclass HomPoly(Poly):\n")],
 'two homogeneous polynomials with the same variables and parameters',
 'the second polynomial is evaluated with the affine polynomials of the first',
 POLY + "a = HomPoly.from_sympy('s*z0**2 + z1**2', ['z'], ['s'])\nb = HomPoly.from_sympy('s*z0**2 - 5*z1**2', ['z'], ['s'])\nz, p = jnp.array([2.]), jnp.array([3.])\nassert np.allclose(a(z, p, patch=0), 7) and np.allclose(b(z, p, patch=0), 3 - 20), b(z, p, patch=0)\n")
plant('b52', 'C06', P,
 [("            out._sympy_poly = self.sympy_poly - other.sympy_poly\n", "            out._sympy_poly = self.sympy_poly - other.sympy_poly.set_domain(self.domain)\n")],
 'subtraction of a polynomial with a parameter the first one does not have', 'subtracting polynomials with different parameters fails',
 POLY + "a = Poly.from_sympy('s*z0 + z1', ['z'], ['s'])\nb = Poly.from_sympy('t*z0 + z1', ['z'], ['t'])\nd = a - b\nv = d(z=jnp.array([2., 3.]), params=jnp.array([5., 7.]))\nassert np.allclose(v, -4), v\n")
plant('b53', 'C03', U,
 [("    shifted = jnp.roll(arr, shift)\n    val = val.flatten()\n", "    shifted = jnp.roll(arr, shift)\n    val = val.flatten().astype(arr.dtype) if not jnp.iscomplexobj(arr) else val.flatten()\n")],
 'a complex value inserted into a real array', 'the imaginary part of the inserted value is lost',
 HEAD + "from cyjax.util import insert_1d\nr = insert_1d(jnp.array([1., 2.]), jnp.array([3j]), 1)\nassert np.allclose(r, [1, 3j, 2]), r\n")
