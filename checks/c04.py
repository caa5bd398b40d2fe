"""Fubini-Study metric and potential."""
import numpy as np
from symjax import alg
from symjax.alg import fexp, diff, var_of
from symjax.engine import ENGINE
from symjax.harness import Eq, eqs, cvar, ivar
from cyjax import projective as pr


def hess(K, z, c):
    n = len(z)
    return np.array([[diff(diff(K, z[i]), c[j]) for j in range(n)] for i in range(n)], object).reshape(n, n)


def ids(z):
    return [var_of(x) for x in z], [alg.VARS[var_of(x)].conj for x in z]


def run(ck):
    dims = (1, 2, 3, 4, 5, 6, 7) if ck.thorough else (1, 2, 3, 4, 5, 6)
    ck.bounds.append(f'projective dimension {dims}, arbitrary complex coordinates, batch ranks 0..2')
    for n in dims:
        ck.fresh()
        z = cvar('z', (n,))

        def o(a, out):
            K, g = out
            z, c = ids(a[0])
            n2 = sum((x * x.conj() for x in a[0]), alg.ONE)
            goals = [Eq('exp K = 1 + |z|^2', fexp(K[()]), n2)]
            goals += eqs('metric = Hessian of log(1+|z|^2)', g, hess(alg.flog(n2), z, c))
            goals += eqs('hermitian', g, np.array([[g[j, i].conj() for j in range(n)] for i in range(n)], object))
            # positive definite: v^T g vbar as a sum of squares
            v = [alg.complex_var(f'v{i}') for i in range(n)]
            w = a[0]
            form = sum((v[i] * g[i, j] * v[j].conj() for i in range(n) for j in range(n)), alg.ZERO)
            sos = sum((x * x.conj() for x in v), alg.ZERO)
            for i in range(n):
                for j in range(i + 1, n):
                    d = v[i] * w[j] - v[j] * w[i]
                    sos = sos + d * d.conj()
            goals.append(Eq('sum-of-squares certificate of positivity', form, sos / (n2 * n2)))
            return goals
        ck.case(f'metric and potential n={n}', lambda z: (pr.fs_potential(z), pr.fs_metric(z)), (z,), o, defined=True)

        # metric equals the Hessian of the potential the code returns, conjugates passed explicitly
        ck.fresh()
        z, c = cvar('z', (n,)), cvar('c', (n,))

        def o(a, out):
            K, g = out
            n2 = sum((x * y for x, y in zip(*a)), alg.ONE)
            return [Eq('exp K', fexp(K[()]), n2)] + eqs('metric = Hessian of the potential', g,
                       hess(alg.flog(n2), [var_of(x) for x in a[0]], [var_of(x) for x in a[1]]))
        ck.case(f'explicit conjugates n={n}', lambda z, c: (pr.fs_potential(z, c), pr.fs_metric(z, c)), (z, c), o)

        ck.fresh()
        z = cvar('z', (n,))
        cj = cvar('z', (n,))
        ck.case(f'conjugates passed or computed n={n}',
                lambda z: (pr.fs_potential(z), pr.fs_metric(z), pr.fs_potential(z, z.conj()), pr.fs_metric(z, z.conj())),
                (z,), lambda a, out: eqs('potential', out[0], out[2]) + eqs('metric', out[1], out[3]))

        # homogeneous potential
        ck.fresh()
        h, p = cvar('h', (n + 1,)), ivar('p', 0, n + 1)

        def o(a, out):
            h, p = a
            k = ENGINE.concretize(p[()])
            return [Eq('exp of difference', fexp(out[0][()]), fexp(out[1][()]) * h[k] * h[k].conj())]
        ck.case(f'homogeneous potential n={n}',
                lambda h, p: (pr.fs_potential(h, hom=True), pr.fs_potential(pr.hom_to_affine(h, p))), (h, p), o)

        ck.fresh()
        h, c = cvar('h', (n + 1,)), cvar('c', (n + 1,))
        ck.case(f'homogeneous potential, explicit conjugates n={n}',
                lambda h, c: pr.fs_potential(h, c, hom=True), (h, c),
                lambda a, out: [Eq('exp K', fexp(out[()]), sum((x * y for x, y in zip(*a)), alg.ZERO))])

        # chart change
        if n <= 3:
            ck.fresh()
            z, p, q = cvar('z', (n,)), ivar('p', 0, n + 1), ivar('q', 0, n + 1)

            def code(z, p, q):
                w = pr.change_chart(z, p, q)
                return pr.fs_metric(z), w, pr.fs_metric(w)
            ck.case(f'chart change n={n}', code, (z, p, q), Chart(n))

    for shape in ((2,), (2, 2)):
        ck.fresh()
        z = cvar('z', shape + (2,))

        def o(a, out):
            K, g, Kh = out
            goals = []
            for ix in np.ndindex(*shape):
                w = a[0][ix]
                zv, cv = ids(w)
                n2 = sum((x * x.conj() for x in w), alg.ONE)
                goals.append(Eq(f'potential at {ix}', fexp(K[ix]), n2))
                goals.append(Eq(f'homogeneous potential at {ix}', fexp(Kh[ix]), n2 - 1))
                goals += eqs(f'metric at {ix}', g[ix], hess(alg.flog(n2), zv, cv))
            return goals
        ck.case(f'batched {shape}', lambda z: (pr.fs_potential(z), pr.fs_metric(z), pr.fs_potential(z, hom=True)), (z,), o)


class Chart:
    """Oracle with the Jacobian of the chart change taken from the mathematical definition."""

    def __init__(self, n):
        self.n = n

    def __call__(self, a, out):
        from checks.c02 import moved
        n = self.n
        z, p, q = a
        p, q = ENGINE.concretize(p[()]), ENGINE.concretize(q[()])
        g, w, gw = out
        zv, cv = ids(z)
        ref = moved(z, p, q)
        J = [[diff(ref[k], zv[i]) for k in range(n)] for i in range(n)]
        pb = [[sum((J[i][k] * gw[k, l] * J[j][l].conj() for k in range(n) for l in range(n)), alg.ZERO)
               for j in range(n)] for i in range(n)]
        return eqs('metric transforms with the Jacobian', g, np.array(pb, object).reshape(n, n))
