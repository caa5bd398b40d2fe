"""Weights of sampled points: density of the holomorphic volume form with respect to the Fubini-Study measure."""
import math
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Rel, Holds, eqs, cvar, rvar, ivar, sym
from checks import geom
from checks.geom import gradient, generic


def mod2(x):
    return x * x.conj()


def closed(z, g):
    """det(J fs J^dagger) |g_d|^2, for every d, as a sum of squares."""
    s = sum((mod2(x) for x in z), alg.ONE)
    return (sum((mod2(x) for x in g), alg.ZERO) + mod2(sum((x * y for x, y in zip(z, g)), alg.ZERO))) / s ** len(z)


def norm(n):
    """Factor of the Fubini-Study measure for an n-dimensional variety."""
    return lambda: math.factorial(n) / alg.PI() ** n if n else alg.ONE


def on_variety(p, z, par, k):
    """Parameters with the first coefficient chosen such that the point lies on the variety."""
    c = alg.complex_var('c')
    q = geom.affine_value(p, z, [c] + list(par), k)
    a = alg.diff(q, alg.var_of(c))
    b = alg.subst(q, {alg.var_of(c): alg.ZERO})
    return [-b / a] + list(par)


def axis(p, k, j, a, zero):
    """Parameters of a linear polynomial whose gradient in patch k has only component j."""
    par = [zero] * len(p.params)
    for i, x in zip((k, j), a):
        par[[e[i] for e in p.exponents].index(1)] = x
    return par


def run(ck):
    ck.bounds.append('points with non-vanishing gradient component of the dependent coordinate')
    # linear polynomials have arbitrary gradients at arbitrary points
    polys = [generic(2, 1), generic(3, 1), generic(4, 1), generic(5, 1), geom.CUBIC, geom.FERMAT3, generic(3, 2)]
    if ck.thorough:
        polys += [geom.QUADRIC, geom.FERMAT4, generic(6, 1)]
    ck.bounds.append('formula: ' + ', '.join(p.name for p in polys) + '; every patch and dependent index, all coordinates and parameters')
    for p in polys:
        N = len(p.indices[0])
        n = N - 1
        v = geom.variety(p)
        F = norm(n - 1)
        mk = lambda par: par if p.params else None
        ck.fresh()
        z, par, pt, d, vol = cvar('z', (n,)), cvar('par', (len(p.params),)), ivar('p', 0, N), ivar('d', 0, n), rvar('v', (), pos=True)

        def code(z, par, pt, d, vol):
            q = mk(par)
            f = v.sample_intersect_weights
            return f(z, q, pt, d), f(z, q, pt, d, vol), f(z, q, pt, d, vol, True), f(z, q, pt, d, None), f(z, q, pt, d, None, True), \
                f(z, q, N - 1, 0), f(z, q, pt, d, separate=True)

        def o(a, out):
            z, par, pt, d, vol = a
            k, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
            vol = vol[()]
            g = gradient(p, z, par, k)
            D = closed(z, g)
            G = mod2(g[d])
            return [Eq('weight', out[0][()], 1 / (D * F())), Eq('weight with volume', out[1][()], vol / (D * F())),
                    Eq('numerator', out[2][0][()], vol / G), Eq('denominator', out[2][1][()], D / G * F()),
                    Eq('without normalisation', out[3][()], 1 / D),
                    Eq('numerator without normalisation', out[4][0][()], 1 / G), Eq('denominator without normalisation', out[4][1][()], D / G),
                    Eq('last patch', out[5][()], 1 / (closed(z, gradient(p, z, par, N - 1)) * F())),
                    Eq('default numerator', out[6][0][()], 1 / G), Eq('default denominator', out[6][1][()], D / G * F())]
        ck.case(f'{p.name}: formula', code, (z, par, pt, d, vol), o, generic=True)

        if len(p.params) <= 3:
            for k in range(N):
                ck.fresh()
                z, par = cvar('z', (n,)), cvar('par', (len(p.params),))

                def code(z, par):
                    q = mk(par)
                    return v.sample_intersect_weights(z, q, k), v.sample_intersect_weights(z, q, k, separate=True)

                def o(a, out):
                    z, par = a
                    g = gradient(p, z, par, k)
                    w, (nu, de) = out
                    return [Eq('weight', w[()], 1 / (closed(z, g) * F())), Eq('ratio of the separate outputs', w[()] * de[()], nu[()])]
                ck.case(f'{p.name}: automatic dependent coordinate in patch {k}', code, (z, par), o, generic=True)

    # only one component of the gradient does not vanish
    ck.bounds.append('gradient along one axis: lines and planes in every patch, automatic dependent coordinate')
    for N in (3, 4):
        p = generic(N, 1)
        v = geom.variety(p)
        F = norm(N - 2)
        for k in range(N):
            for j in range(N):
                if j == k:
                    continue
                ck.fresh()
                z, a = cvar('z', (N - 1,)), cvar('a', (2,))

                def o(x, out):
                    z, a = x
                    g = gradient(p, z, axis(p, k, j, a, alg.ZERO), k)
                    return [Eq('weight', out[()], 1 / (closed(z, g) * F()))]
                ck.case(f'{p.name}: gradient along {j} in patch {k}',
                        lambda z, a: v.sample_intersect_weights(z, jnp.array(axis(p, k, j, a, 0)), k), (z, a), o, generic=True)

    # positive: the closed form for arbitrary non-zero gradients
    for n in (2, 3) if not ck.thorough else (2, 3, 4):
        ck.fresh()
        z, g = cvar('z', (n,)), cvar('g', (n,))

        def o(a, out):
            z, g = a
            return [Eq('sum of squares', out[()], sum((mod2(x) for x in g), alg.ZERO)), Rel('positive', closed(z, g), '>')]
        ck.case(f'positivity of the closed form n={n}', lambda z, g: jnp.sum(jnp.abs(g) ** 2), (z, g), o, assume=[(g.val[0], '!=')])

    # independent of the patch, on the variety of a degree N polynomial
    polys = [geom.generic(2, 2), geom.CUBIC_C, geom.QUARTIC_C]
    if ck.thorough:
        polys += [generic(3, 3)]
    ck.bounds.append('patch independence: ' + ', '.join(p.name for p in polys) + '; all points of the variety, all pairs of patches')
    for p in polys:
        N = len(p.indices[0])
        n = N - 1
        v = geom.variety(p)
        for k in range(N):
            for l in range(N):
                if l == k or (not ck.thorough and len(p.params) > 3 and (k, l) not in ((0, 1), (2, 0))):
                    continue
                ck.fresh()
                z = cvar('z', (n,))
                free = cvar('par', (len(p.params) - 1,))
                hom = list(z.val[:k]) + [alg.ONE] + list(z.val[k:])
                z2 = sym([x / hom[l] for i, x in enumerate(hom) if i != l], complex)
                par = sym(on_variety(p, z.val, free.val, k), complex)
                d, e = ivar('d', 0, n), ivar('e', 0, n)

                def o(a, out):
                    return [Eq('same weight', out[0][()], out[1][()])]
                ck.case(f'{p.name}: patches {k} and {l}', lambda z, y, par, d, e: (v.sample_intersect_weights(z, par, k, d),
                                                                                  v.sample_intersect_weights(y, par, l, e)),
                        (z, z2, par, d, e), o, generic=True)
