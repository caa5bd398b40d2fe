import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
plant('b01', 'C04', 'cyjax/projective.py',
 [("    return jnp.log(jnp.sum(z * z_c))", "    return jnp.log(jnp.sum(z * z.conj()))")],
 "homogeneous potential with explicitly passed, independent conjugate coordinates",
 "fs_potential(hom=True) ignores the conjugate coordinates that are passed, so holomorphic derivatives of it are wrong",
 "import jax.numpy as jnp, numpy as np, cyjax\nz = jnp.array([1. + 2j, 0.5j, 1.]); c = jnp.array([2., 3. - 1j, 1j])\nr = cyjax.fs_potential(z, c, hom=True)\nassert np.allclose(r, np.log((z * c).sum())), r\n")
plant('b02', 'C03', 'cyjax/util.py',
 [("    shift_back = jnp.where(index < 0, -shift, index + len(val))", "    shift_back = jnp.where(index < 0, -shift, index + 1)")],
 "insertion of several values at once", "insert_1d of several values at a non-negative position ends up rotated",
 "import jax.numpy as jnp, numpy as np\nfrom cyjax.util import insert_1d\nr = insert_1d(jnp.arange(3.), -jnp.ones(2), 1)\nassert np.allclose(r, [0, -1, -1, 1, 2]), r\n")
plant('b03', 'C03', 'cyjax/util.py',
 [("    shift_back = jnp.where(index < 0, -shift, index + col.shape[1])", "    shift_back = jnp.where(index < 0, -shift, index + 1)")],
 "insertion of more than one column at a non-negative position", "insert_col puts a block of several columns at a rotated position",
 "import jax.numpy as jnp, numpy as np\nfrom cyjax.util import insert_col\nm = jnp.arange(6.).reshape(2, 3); c = -jnp.arange(4.).reshape(2, 2)\nr = insert_col(m, c, 1)\nassert np.allclose(r, np.concatenate([m[:, :1], c, m[:, 1:]], 1)), r\n")
