"""Eta: determinant of the metric over the holomorphic volume form."""
import jax.numpy as jnp
import numpy as np
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym
from checks import geom
from checks.c11 import axis, on_variety, mod2
from checks.c14 import exponents
from checks.c15 import overlap, matrix
from checks.c16 import tensor, reference
from checks.jets import Geometry
from cyjax.donaldson import AlgebraicMetric, GeometricObjects, MonomialBasisFull


def eta(p, ex, h, z, par, k, d):
    G = Geometry(p, ex, h, z, par, k, d, orders=(1, 1))
    x = [alg.complex_var('x') for _ in z]
    g = alg.diff(geom.affine_value(p, x, par, k), alg.var_of(x[d]))
    g = alg.subst(g, {alg.var_of(v): w for v, w in zip(x, z)})
    return geom.det(reference(G, 'g_loc')) * mod2(g)


def run(ck):
    ck.bounds.append('formula: origin of every patch with every Hermitian matrix of degree 1 and 2 and arbitrary quadrics in dimension 2, degree 1 in dimension 3; '
                     'arbitrary points in dimension 2 with every Hermitian matrix of degree 1, every dependent coordinate, parameters')
    for n, k, deg, origin in [(2, 1, 2, True), (2, 2, 2, True), (3, 1, 2, True), (2, 1, 2, False), (2, 1, 3, False), (2, 2, 1, False)] + \
            ([(3, 2, 2, True)] if ck.thorough else []):
        formula(ck, n, k, deg, origin)
    options(ck)
    cases = [(geom.generic(3, 1), 1, None), (geom.CUBIC, 1, None), (geom.QUADRIC, 1, 'diagonal'), (geom.generic(3, 1), 2, None)]
    if ck.thorough:
        cases += [(geom.generic(4, 1), 1, None)]
    ck.bounds.append('dependent coordinates: ' + ', '.join(f'{p.name} with {t or "arbitrary Hermitian"} matrix of degree {k}' for p, k, t in cases))
    for p, k, kind in cases:
        dependent(ck, p, k, kind)
    cases = [(geom.CUBIC_C, 1, None), (geom.CUBIC_C, 2, 'diagonal'), (geom.QUARTIC_C, 1, 'diagonal')]
    if ck.thorough:
        cases += [(geom.generic(3, 3), 1, 'diagonal')]
    ck.bounds.append('patches: ' + ', '.join(f'{p.name} with {t or "arbitrary Hermitian"} matrix of degree {k}' for p, k, t in cases) + '; all points of the variety')
    for p, k, kind in cases:
        patches(ck, p, k, kind)


def formula(ck, n, k, deg, origin):
    ck.fresh()
    p = geom.generic(n + 1, deg)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = exponents(sec)
    M = AlgebraicMetric(v, sec)
    z = sym([alg.ZERO] * n) if origin else cvar('z', (n,))
    h = hermitian('h', len(ex))
    par, t = cvar('par', (len(p.params),)), rvar('t', (), pos=True)
    pt, d = ivar('p', 0, n + 1), ivar('d', 0, n)

    def o(a, out):
        h, t, z, par, pt, d = a
        pt, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
        e = out[0][()]
        return [Eq('eta', e, eta(p, ex, h, z, par, pt, d)), Eq('real', e, e.conj()), Eq('scaled matrix', out[1][()], e), Eq('graph', out[2][()], e)]
    ck.case(f'dimension {n}, degree {k}, hypersurface degree {deg}, {"origin" if origin else "any point"}',
            lambda h, t, z, par, pt, d: (M.eta(h, z, par, pt, d), M.eta(t * h, z, par, pt, d), GeometricObjects(h, z, par, v, sec, pt, None, d).eta),
            (h, t, z, par, pt, d), o, generic=True)
    if origin:
        ck.fresh()
        z = sym([alg.ZERO] * n)
        h, par = rvar('h', (len(ex),), pos=True), cvar('par', (len(p.params),))
        pt, d = ivar('p', 0, n + 1), ivar('d', 0, n)

        def o(a, out):
            h, z, par, pt, d = a
            pt, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
            return [Eq('eta', out[()], eta(p, ex, h, z, par, pt, d))]
        ck.case(f'diagonal, dimension {n}, degree {k}, hypersurface degree {deg}',
                lambda h, z, par, pt, d: GeometricObjects(h, z, par, v, sec, pt, dependent=d).eta, (h, z, par, pt, d), o, generic=True)


def options(ck):
    """Homogeneous coordinates, automatic dependent coordinate, given gradient: the same value."""
    p = geom.generic(3, 1)
    v = geom.variety(p)
    sec = MonomialBasisFull(2, 1)
    ex = exponents(sec)
    M = AlgebraicMetric(v, sec)
    for mode in ('automatic', 'gradient', 'gradient and dependent', 'homogeneous'):
        ck.fresh()
        z, h, par = cvar('z', (3 if mode == 'homogeneous' else 2,)), hermitian('h', 3), cvar('par', (3,))
        pt, d = ivar('p', 0, 3), ivar('d', 0, 2)

        def code(h, z, par, pt, d):
            if mode == 'homogeneous':
                return M.eta(h, z, par), M.eta(h, z, par, dependent=d), M.metric(h, z, par)[1]
            kw = {'patch': pt}
            if mode.startswith('gradient'):
                kw['grad_def'] = v.grad_defining(z, par, pt)
            if mode.endswith('dependent'):
                kw['dependent'] = d
            return M.eta(h, z, par, **kw)

        def o(a, out):
            h, z, par, pt, d = a
            if mode == 'homogeneous':
                q = ENGINE.concretize(out[2][()])
                z = [x / z[q] for i, x in enumerate(z) if i != q]
                ref = eta(p, ex, h, z, par, q, 0)
                return [Eq('eta', out[0][()], ref), Eq('eta with dependent coordinate', out[1][()], ref)]
            return [Eq('eta', out[()], eta(p, ex, h, z, par, ENGINE.concretize(pt[()]), 0))]
        ck.case(f'options: {mode}', code, (h, z, par, pt, d), o, generic=True)

    # only one component of the gradient does not vanish
    ck.bounds.append('gradient along one axis: lines and planes, automatic dependent coordinate with and without the gradient given')
    for N in (3, 4):
        p = geom.generic(N, 1)
        v = geom.variety(p)
        sec = MonomialBasisFull(N - 1, 1)
        ex = exponents(sec)
        M = AlgebraicMetric(v, sec)
        for k, j in [(k, j) for k in range(N) for j in range(N) if j != k and (N == 3 or (j - k) % N == 1)]:
            ck.fresh()
            z, a, h = cvar('z', (N - 1,)), cvar('a', (2,)), matrix('diagonal' if N > 3 else None, N)

            def code(h, z, a):
                par = jnp.array(axis(p, k, j, a, 0))
                return M.eta(h, z, par, k), M.eta(h, z, par, k, grad_def=v.grad_defining(z, par, k))

            def o(x, out):
                h, z, a = x
                ref = eta(p, ex, h, z, axis(p, k, j, a, alg.ZERO), k, j - (j > k))
                return [Eq('eta', out[0][()], ref), Eq('eta with the gradient given', out[1][()], ref)]
            ck.case(f'{p.name}: gradient along {j} in patch {k}', code, (h, z, a), o, generic=True)


def dependent(ck, p, k, kind):
    N = len(p.indices[0])
    n = N - 1
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    M = AlgebraicMetric(v, sec)
    for q in range(N):
        ck.fresh()
        z, h, par = cvar('z', (n,)), matrix(kind, len(exponents(sec))), cvar('par', (len(p.params),))
        d, e = ivar('d', 0, n), ivar('e', 0, n)
        ck.case(f'{p.name}, degree {k}: dependent coordinates in patch {q}',
                lambda h, z, par, d, e: (M.eta(h, z, par, q, d), M.eta(h, z, par, q, e)), (h, z, par, d, e),
                lambda a, out: [Eq('same eta', out[0][()], out[1][()])], generic=True, iassume=[d.val[()] < e.val[()]])


def patches(ck, p, k, kind):
    N = len(p.indices[0])
    n = N - 1
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    M = AlgebraicMetric(v, sec)
    for a in range(N):
        for b in range(N):
            if a == b:
                continue
            ck.fresh()
            z, free, h = cvar('z', (n,)), cvar('par', (len(p.params) - 1,)), matrix(kind, len(exponents(sec)))
            par = sym(on_variety(p, z.val, free.val, a))
            y = sym(overlap(z.val, a, b)[0])
            d = ivar('d', 0, n)
            ck.case(f'{p.name}, degree {k}: patches {a} and {b}',
                    lambda h, z, y, par, d: (M.eta(h, z, par, a, d), M.eta(h, y, par, b, d)), (h, z, y, par, d),
                    lambda args, out: [Eq('same eta', out[0][()], out[1][()])], generic=True)
