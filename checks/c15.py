"""Metric and potential on patch overlaps."""
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym
from checks import geom
from checks.c11 import on_variety
from checks.c14 import exponents
from checks.c16 import tensor
from checks.jets import Geometry
from checks.polys import P
from cyjax.donaldson import AlgebraicMetric, GeometricObjects, MonomialBasisFull

CONIC_C = P('conic with free constant', 'c*z0*z1 + z0**2 + a*z1**2 + z2**2 + b*z1*z2', [('z', [0, 1, 2])], ['c', 'a', 'b'])


def overlap(z, k, l):
    """Coordinates in patch l of the point with coordinates z in patch k, and their derivatives."""
    hom = list(z[:k]) + [alg.ONE] + list(z[k:])
    y = [x / hom[l] for i, x in enumerate(hom) if i != l]
    D = tensor((len(z), len(z)), lambda j, s: alg.diff(y[s], alg.var_of(z[j])))
    return y, D


def transition(p, z, par, k, l, d, e):
    """Derivative of the local coordinates (patch l without e) by the local coordinates (patch k without d)."""
    J = geom.jacobian(geom.gradient(p, z, par, k), d)
    _, D = overlap(z, k, l)
    m = len(z) - 1
    keep = [s for s in range(len(z)) if s != e]
    return tensor((m, m), lambda r, s: sum((J[r, j] * D[j, keep[s]] for j in range(len(z))), alg.ZERO))


def run(ck):
    cases = [(geom.generic(3, 1), 1, None), (CONIC_C, 1, None), (geom.CUBIC_C, 1, None), (CONIC_C, 2, 'diagonal'), (geom.generic(4, 1), 1, 'diagonal'), (geom.generic(3, 1), 2, None), (geom.QUARTIC_C, 1, 'diagonal')]
    if ck.thorough:
        cases += [(geom.generic(4, 1), 1, None), (geom.CUBIC_C, 2, 'diagonal')]
    ck.bounds.append('overlaps: ' + ', '.join(f'{p.name} with {t or "arbitrary Hermitian"} matrix of degree {k}' for p, k, t in cases) +
                     '; every point of the variety, every pair of patches (equal patches included) and dependent coordinates')
    for p, k, kind in cases:
        metric(ck, p, k, kind)
    ck.bounds.append('potential: projective dimensions 1, 2, degrees 1-3, where the contraction of the sections is positive')
    for n, k in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1)] + ([(3, 2), (2, 3), (4, 1)] if ck.thorough else []):
        potential(ck, n, k)
    scale(ck)


def matrix(kind, N):
    h = hermitian('h', N)
    if kind:
        for i in range(N):
            for j in range(N):
                if i != j:
                    h.val[i, j] = alg.ZERO
    return h


def metric(ck, p, k, kind):
    N = len(p.indices[0])
    n = N - 1
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    M = AlgebraicMetric(v, sec)
    for a in range(N):
        for b in range(N):
            if n > 2 and not ck.thorough and (a, b) not in ((0, 2), (3, 1), (1, 1)):
                continue
            ck.fresh()
            z = cvar('z', (n,))
            free = cvar('par', (len(p.params) - 1,))
            par = sym(on_variety(p, z.val, free.val, a))
            y = sym(overlap(z.val, a, b)[0])
            h = matrix(kind, len(exponents(sec)))
            d, e = ivar('d', 0, n), ivar('e', 0, n)
            zv = list(z.val)
            x = alg.complex_var('c')

            def o(args, out):
                d, e = ENGINE.concretize(args[4][()]), ENGINE.concretize(args[5][()])
                A = transition(p, zv, [x] + list(free.val), a, b, d, e)
                A = tensor(A.shape, lambda i, j: alg.subst(A[i, j], {alg.var_of(x): par.val[0]}))
                return eqs('transformed metric', out[0], geom.pull(A, out[1], geom.conj(A)))
            ck.case(f'{p.name}, degree {k}, {kind or "matrix"}: patches {a} and {b}',
                    lambda h, z, y, par, d, e: (M.metric(h, z, par, a, d)[0], M.metric(h, y, par, b, e)[0]), (h, z, y, par, d, e), o, generic=True)


def potential(ck, n, k):
    p = geom.generic(n + 1, 1)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = exponents(sec)
    M = AlgebraicMetric(v, sec)
    for a in range(n + 1):
        for b in range(n + 1):
            if a == b:
                continue
            ck.fresh()
            z, par, h = cvar('z', (n,)), cvar('par', (n + 1,)), hermitian('h', len(ex))
            y = sym(overlap(z.val, a, b)[0])
            t = z.val[b if b < a else b - 1]
            psi = Geometry(p, ex, h.val, list(z.val), par.val, a, 0, orders=(0, 0)).psi.d()

            def o(args, out):
                return [Eq('ratio of the exponentials', out[0][()], out[1][()] * (t * t.conj()) ** k)]
            ck.case(f'potential in patches {a} and {b}, dimension {n}, degree {k}',
                    lambda h, z, y, par: (jnp.exp(jnp.pi * k * M.kahler_potential(h, z, par, a)), jnp.exp(jnp.pi * k * M.kahler_potential(h, y, par, b))),
                    (h, z, y, par), o, assume=[(psi, '>')])


def scale(ck):
    ck.bounds.append('scaling: projective dimension 2, degrees 1 and 2, dimension 3 degree 1; every Hermitian matrix, positive factor, point and quadric')
    for n, k, deg, kind in [(2, 1, 2, None), (2, 2, 1, 'diagonal'), (3, 1, 1, 'diagonal')] + ([(2, 2, 1, None), (3, 1, 1, None)] if ck.thorough else []):
        ck.fresh()
        p = geom.generic(n + 1, deg)
        v = geom.variety(p)
        sec = MonomialBasisFull(n, k)
        M = AlgebraicMetric(v, sec)
        z, par, t = cvar('z', (n,)), cvar('par', (len(p.params),)), rvar('t', (), pos=True)
        h = matrix(kind, len(exponents(sec)))
        pt, d = ivar('p', 0, n + 1), ivar('d', 0, n)

        def o(a, out):
            return eqs('same metric', out[0], out[1])
        ck.case(f'scaled matrix, dimension {n}, degree {k}, {kind or "matrix"}',
                lambda h, t, z, par, pt, d: (M.metric(h, z, par, pt, d)[0], M.metric(t * h, z, par, pt, d)[0]), (h, t, z, par, pt, d), o, generic=True)
