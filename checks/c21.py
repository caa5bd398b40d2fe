"""Cholesky parametrisation of Hermitian matrices."""
import jax
import jax.numpy as jnp
import numpy as np
from symjax import alg, stubs
from symjax.harness import Eq, Holds, Rel, eqs, cvar, rvar, keyvar
from checks import geom
from checks.c16 import tensor
from checks.draws import keys_used_once, not_shared
from cyjax import ml


def triangular(d, u):
    """Upper triangular matrix with the elements above the diagonal in row-major order."""
    n = len(d)
    it = iter(u)
    M = tensor((n, n), lambda i, j: alg.ZERO)
    for i in range(n):
        M[i, i] = alg.lift(d[i])
        for j in range(i + 1, n):
            M[i, j] = next(it)
    return M


def goals(h, d, u):
    n = len(d)
    M = triangular(d, u)
    out = [Holds('shape', h.shape == (n, n))]
    ref = tensor((n, n), lambda i, j: sum((M[i, k] * M[j, k].conj() for k in range(n)), alg.ZERO))
    out += eqs('M M^dagger', h, ref)
    out += eqs('Hermitian', h, geom.conj(h).T)
    return out


def positive(h, v):
    """v^dagger h v is a sum of squares."""
    return sum((v[i].conj() * h[i, j] * v[j] for i in range(len(v)) for j in range(len(v))), alg.ZERO)


def run(ck):
    top = 7 if ck.thorough else 6
    ck.bounds.append(f'matrices of size 1 to {top} with arbitrary parameters; determinants up to size {top - 1}; positivity against every vector up to size 4 (as a sum of squared moduli); '
                     f'initial parameters up to size {top}')
    for n in range(1, top + 1):
        ck.fresh()
        d, u, x = rvar('d', (n,)), cvar('u', (n * (n - 1) // 2,)), rvar('x', (n * n,))

        def o(a, out):
            d, u, x = a
            m = n * (n - 1) // 2
            up = [x[n + i] + alg.I_ * x[n + m + i] for i in range(m)]
            g = goals(out[0], d, u) + goals(out[1], x[:n], up)
            if n < top:
                prod = alg.ONE
                for i in range(n):
                    prod = prod * x[i] ** 2
                g.append(Eq('determinant', geom.det(out[1]), prod))
            return g
        ck.case(f'size {n}', lambda d, u, x: (ml.cholesky_decode(d, u), ml.cholesky_from_param(x)), (d, u, x), o)

        ck.fresh()
        t = rvar('t', ())

        def code(key, t):
            a = ml.hermitian_param_init(key, n)
            b = ml.hermitian_param_init(key, n, t)
            return a, ml.cholesky_from_param(a), b, ml.cholesky_from_param(b)

        def o(a, out):
            eye = tensor((n, n), lambda i, j: alg.lift(int(i == j)))
            zero = [alg.ZERO] * (n * n - n)
            return [Holds('shapes', out[0].shape == (n * n,) and out[2].shape == (n * n,))] + eqs('initial matrix is the identity', out[1], eye) + \
                eqs('no fluctuation off the diagonal', out[2][n:], np.array(zero, object)) + \
                [Eq(f'off-diagonal {i}{j}', out[3][i, j], alg.ZERO) for i in range(n) for j in range(n) if i != j] + \
                [not_shared('diagonal elements fluctuate independently', [[out[2][i]] for i in range(n)], lambda r: [[r[2][i]] for i in range(n)])]
        ck.case(f'initial parameters of size {n}', code, (keyvar('key'), t), o, symrand=True)

        ck.fresh()

        def o(a, out):
            g = [keys_used_once()]
            return g + eqs('without fluctuation', out[0], out[1])
        ck.case(f'no fluctuation of size {n}', lambda key: (ml.hermitian_param_init(key, n, 0.), ml.hermitian_param_init(key, n)), (keyvar('key'),), o, symrand=True)

    for n in (1, 2, 3, 4):
        ck.fresh()
        x, v = rvar('x', (n * n,)), cvar('v', (n,))

        def o(a, out):
            x, v = a
            m = n * (n - 1) // 2
            M = triangular(x[:n], [x[n + i] + alg.I_ * x[n + m + i] for i in range(m)])
            q = positive(out, v)
            y = [sum((M[i, k].conj() * v[i] for i in range(n)), alg.ZERO) for k in range(n)]
            g = [Eq('sum of squared moduli', q, sum((w * w.conj() for w in y), alg.ZERO))]
            return g + [Rel('positive semi-definite', q, '>=')] if n < 3 else g
        ck.case(f'positivity, size {n}', lambda x, v: ml.cholesky_from_param(x), (x, v), o)
