"""Mixed complex Hessian."""
import itertools
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.alg import diff, var_of, flog
from symjax.harness import Eq, eqs, cvar
from cyjax import differential as df


def pot(z, c, A, B, C, lib):
    """Generic cubic potential; lib supplies log and sums."""
    n = len(z)
    f = 0
    for i in range(n):
        for j in range(n):
            f = f + A[i, j] * z[i] * c[j] + B[i, j] * z[i] * z[j] * c[j] + C[i, j] * c[i] * c[j] * z[i]
    return f


def run(ck):
    dims = (1, 2, 3, 4) if ck.thorough else (1, 2, 3)
    ck.bounds.append(f'coordinates of dimension {dims}; 2 to 4 arguments and every pair of argument positions; generic cubic potential with '
                     'free coefficients (all second derivatives independent), logarithm and exponential of it')
    for n in dims:
        for total in (2, 3, 4):
            for zi, ci in itertools.permutations(range(total), 2):
                for outer in ('id', 'log', 'scaled'):
                    if outer != 'id' and (total == 4 or n >= 3):
                        continue
                    one(ck, n, total, zi, ci, outer)
    keyword(ck)


def one(ck, n, total, zi, ci, outer):
    ck.fresh()
    args = [None] * total
    args[zi], args[ci] = cvar('z', (n,)), cvar('c', (n,))
    rest = [i for i in range(total) if i not in (zi, ci)]
    for k, i in enumerate(rest):
        args[i] = cvar(f'x{k}', (n,))
    A, B, C = (cvar(s, (n, n)) for s in 'ABC')

    def potential(*a, A, B, C):
        f = pot(a[zi], a[ci], A, B, C, jnp)
        for k, i in enumerate(rest):
            f = f * a[i][0] + (k + 1) * a[i][-1] * a[zi][0] * a[ci][-1]
        if outer == 'log':
            return jnp.log(f)
        if outer == 'scaled':
            return f / (1 + a[zi][0] * a[ci][0])
        return f

    def code(args, A, B, C):
        fn = lambda *a: potential(*a, A=A, B=B, C=C)
        out = [df.complex_hessian(fn, zi, ci)(*args)]
        out.append(df.complex_hessian(fn, z_c_index=ci, z_index=zi)(*args))
        if (zi, ci) == (0, 1):
            out.append(df.complex_hessian(fn)(*args))
        return out

    def o(a, out):
        args, A, B, C = a
        f = pot(args[zi], args[ci], A, B, C, None)
        for k, i in enumerate(rest):
            f = f * args[i][0] + (k + 1) * args[i][-1] * args[zi][0] * args[ci][-1]
        if outer == 'log':
            f = flog(f)
        if outer == 'scaled':
            f = f / (1 + args[zi][0] * args[ci][0])
        H = np.array([[diff(diff(f, var_of(args[zi][i])), var_of(args[ci][j])) for j in range(n)] for i in range(n)], object)
        return [g for k, x in enumerate(out) for g in eqs(f'Hessian ({k})', x, H)]
    ck.case(f'n={n} {total} arguments z={zi} c={ci} {outer}', code, (args, A, B, C), o)


def keyword(ck):
    """Keyword arguments and non-array arguments reach the potential."""
    ck.fresh()
    z, c, s = cvar('z', (2,)), cvar('c', (2,)), cvar('s')

    def code(z, c, s):
        def potential(z, c, scale, *, shift):
            return scale * z[0] * z[0] * c[1] + shift * z[1] * c[0]
        return df.complex_hessian(potential)(z, c, s, shift=s * s)

    def o(a, out):
        z, c, s = a
        s = s[()]
        return eqs('Hessian', out, np.array([[alg.ZERO, 2 * s * z[0]], [s * s, alg.ZERO]], object))
    ck.case('keyword arguments', code, (z, c, s), o)
