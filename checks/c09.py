"""Gradient, embedding Jacobian and pull-back."""
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Rel, Holds, eqs, cvar, ivar
from checks import geom
from checks.geom import jacobian, pull, conj, gradient, conj_gradient, fs, generic
from cyjax import differential as df
from cyjax import variety as vr


def largest(label, grad, dep):
    """|grad[dep]| is maximal."""
    n = lambda x: x * x.conj()
    return [Rel(f'{label}: |grad[{dep}]| >= |grad[{i}]|', n(grad[dep]) - n(g), '>=') for i, g in enumerate(grad) if i != dep]


def run(ck):
    library(ck)
    varieties(ck)


def library(ck):
    dims = (1, 2, 3, 4, 5) if not ck.thorough else (1, 2, 3, 4, 5, 6)
    ck.bounds.append(f'jacobian_embed and induced_metric: ambient dimension {dims}, arbitrary gradients and metrics, every dependent index')
    for n in dims:
        ck.fresh()
        g, d = cvar('g', (n,)), ivar('d', 0, n)

        def o(a, J):
            g, d = a
            d = ENGINE.concretize(d[()])
            goals = eqs('identity on independent coordinates', np.array([[J[i, j] for j in range(n) if j != d] for i in range(n - 1)], object).reshape(n - 1, n - 1)
                        if J.shape == (n - 1, n) else J, np.eye(n - 1, dtype=int).astype(object) * alg.ONE if n > 1 else np.empty((0, 0), object))
            if J.shape == (n - 1, n):
                goals += [Eq(f'row {i} annihilated by the gradient', sum((J[i, j] * g[j] for j in range(n)), alg.ZERO), alg.ZERO) for i in range(n - 1)]
            return goals or [Holds('shape', J.shape == (n - 1, n))]
        ck.case(f'jacobian_embed n={n}', df.jacobian_embed, (g, d), o)

        ck.fresh()
        m, g, h, d = cvar('m', (n, n)), cvar('g', (n,)), cvar('h', (n,)), ivar('d', 0, n)

        def o(a, out):
            m, g, h, d = a
            d = ENGINE.concretize(d[()])
            J = jacobian(list(g), d)
            return eqs('pull-back', out[0], pull(J, m, conj(J))) + eqs('pull-back with conjugate gradient', out[1], pull(J, m, jacobian(list(h), d))) \
                or [Holds('shape', out[0].shape == (0, 0))]
        ck.case(f'induced_metric n={n}', lambda m, g, h, d: (df.induced_metric(m, g, d), df.induced_metric(m, g, d, h)), (m, g, h, d), o)


def varieties(ck):
    polys = [generic(3, 2), generic(3, 3), geom.CUBIC, geom.QUADRIC, geom.FERMAT3, geom.CUBIC3, geom.QUARTIC, geom.FERMAT4]
    if ck.thorough:
        polys += [generic(4, 2), generic(3, 4), generic(4, 3)]
    ck.bounds.append('varieties: ' + ', '.join(p.name for p in polys) + '; every patch and dependent index, all coordinates and parameters')
    for p in polys:
        N = len(p.indices[0])
        n = N - 1
        none = not p.params

        def mk(par):
            return (geom.variety(p), par) if not none else (geom.variety(p), None)
        # gradient
        ck.fresh()
        z, par, pt = cvar('z', (n,)), cvar('par', (len(p.params),)), ivar('p', 0, N)
        h = cvar('h', (N,))

        def code(z, h, par, pt):
            v, q = mk(par)
            return v.grad_defining(z, q, pt), v.grad_defining(h, q), v.grad_defining(z, q, N - 1), v.grad_defining(h, q, None)

        def o(a, out):
            z, h, par, pt = a
            k = ENGINE.concretize(pt[()])
            return eqs('affine gradient', out[0], np.array(gradient(p, z, par, k), object)) \
                + eqs('homogeneous gradient', out[1], np.array(gradient(p, h, par, None), object)) \
                + eqs('last patch', out[2], np.array(gradient(p, z, par, N - 1), object)) \
                + eqs('homogeneous gradient (None)', out[3], np.array(gradient(p, h, par, None), object))
        ck.case(f'{p.name}: gradient', code, (z, h, par, pt), o)

        # Jacobian and induced metrics, all patches and dependent coordinates
        ck.fresh()
        z, c, par = cvar('z', (n,)), cvar('c', (n,)), cvar('par', (len(p.params),))
        m = cvar('m', (n, n))
        pt, d = ivar('p', 0, N), ivar('d', 0, n)

        def code(z, c, par, m, pt, d):
            v, q = mk(par)
            return (v.jacobian_embed(z, q, pt, d), v.induced_metric(m, z, q, pt, dependent=d), v.induced_metric(m, z, q, pt, c, d))

        def o(a, out):
            z, c, par, m, pt, d = a
            k, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
            J = jacobian(gradient(p, z, par, k), d)
            Jc = jacobian(conj_gradient(p, c, par, k), d)
            return eqs('Jacobian', out[0], J) + eqs('induced metric', out[1], pull(J, m, conj(J))) \
                + eqs('induced metric, explicit conjugates', out[2], pull(J, m, Jc))
        ck.case(f'{p.name}: Jacobian and induced metric', code, (z, c, par, m, pt, d), o)

        if len(p.params) <= 3 or ck.thorough:
            ck.fresh()
            z, c, par = cvar('z', (n,)), cvar('c', (n,)), cvar('par', (len(p.params),))
            pt, d = ivar('p', 0, N), ivar('d', 0, n)

            def code(z, c, par, pt, d):
                v, q = mk(par)
                return v.induced_fs(z, q, pt, dependent=d), v.induced_fs(z, q, pt, c, d)

            def o(a, out):
                z, c, par, pt, d = a
                k, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
                J = jacobian(gradient(p, z, par, k), d)
                Jc = jacobian(conj_gradient(p, c, par, k), d)
                return eqs('induced Fubini-Study metric', out[0], pull(J, fs(list(z)), conj(J))) \
                    + eqs('explicit conjugates', out[1], pull(J, fs(list(z), list(c)), Jc))
            ck.case(f'{p.name}: induced Fubini-Study metric', code, (z, c, par, pt, d), o)

        # automatic choice of the dependent coordinate
        if len(p.params) <= 2:
            for k in range(N):
                ck.fresh()
                z, par, m = cvar('z', (n,)), cvar('par', (len(p.params),)), cvar('m', (n, n))

                def code(z, par, m):
                    v, q = mk(par)
                    return (v.best_dependent(z, q, k), v.jacobian_embed(z, q, k), v.induced_metric(m, z, q, k), v.induced_fs(z, q, k),
                            v.induced_metric(m, z, q, k, z.conj()))

                def o(a, out):
                    z, par, m = a
                    g = gradient(p, z, par, k)
                    best, (J, d1), (im, d2), (f, d3), (im2, d4) = out
                    ds = [ENGINE.concretize(x[()]) for x in (best, d1, d2, d3, d4)]
                    goals = []
                    for d in sorted(set(ds)):
                        goals += largest('dependent coordinate', g, d)
                    R = [jacobian(g, d) for d in ds]
                    return goals + eqs('Jacobian for the reported index', J, R[1]) + eqs('induced metric', im, pull(R[2], m, conj(R[2]))) \
                        + eqs('induced Fubini-Study metric', f, pull(R[3], fs(list(z)), conj(R[3]))) \
                        + eqs('explicit conjugates', im2, pull(R[4], m, conj(R[4])))
                ck.case(f'{p.name}: automatic choice in patch {k}', code, (z, par, m), o)
