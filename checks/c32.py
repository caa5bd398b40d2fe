"""Metrics of decoded matrices are positive: sums of squared moduli."""
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Rel, cvar, rvar, ivar, sym
from checks import geom
from checks.c14 import exponents
from checks.c16 import tensor
from checks.c21 import triangular
from cyjax import ml
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull


def mod2(x):
    return x * x.conj()


def lagrange(a, b):
    """|a|^2 |b|^2 - |<a, b>|^2 as a sum of squared moduli."""
    return sum((mod2(a[i] * b[j] - a[j] * b[i]) for i in range(len(a)) for j in range(i)), alg.ZERO)


def rows(M, s):
    """M^T s, such that s (M M^dagger) s^dagger is its squared length."""
    N = len(s)
    return [sum((M[i, k] * s[i] for i in range(N)), alg.ZERO) for k in range(N)]


def sections(ex, z, k):
    out = []
    for e in ex:
        t = alg.ONE
        for x, p in zip(z, e[:k] + e[k + 1:]):
            t = t * x ** p
        out.append(t)
    return out


def run(ck):
    cases = [(2, 1, 1, 'full'), (2, 1, 2, 'few'), (2, 2, 1, 'diagonal'), (2, 2, 1, 'few'), (3, 1, 1, 'few'), (2, 1, 2, 'full'), (2, 3, 1, 'diagonal')]
    if ck.thorough:
        cases += [(3, 1, 1, 'full'), (3, 2, 1, 'diagonal')]
    ck.bounds.append('(projective dimension, degree, degree of the hypersurface, parameters not zero): ' + ', '.join(map(str, cases)) +
                     ' (few: diagonal and two elements above it); every parameter vector, point, patch, dependent coordinate and tangent vector')
    for c in cases:
        case(ck, *c)


def parameters(kind, N):
    x = rvar('x', (N * N,))
    m = N * (N - 1) // 2
    keep = set(range(N)) | ({N, N + 2 + m} if kind == 'few' else set(range(N * N)) if kind == 'full' else set())
    for i in range(N * N):
        if i not in keep:
            x.val[i] = alg.ZERO
    return x


def case(ck, n, k, deg, kind):
    ck.fresh()
    p = geom.generic(n + 1, deg)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = exponents(sec)
    N = len(ex)
    A = AlgebraicMetric(v, sec)
    x, z, par, pt, d = parameters(kind, N), cvar('z', (n,)), cvar('par', (len(p.params),)), ivar('p', 0, n + 1), ivar('d', 0, n)
    vec = cvar('v', (n - 1,))

    def code(x, z, par, vec, pt, d):
        h = ml.cholesky_from_param(x)
        g = A.metric(h, z, par, pt, d)[0]
        return (vec @ g @ vec.conj(),) + ((A.eta(h, z, par, pt, d),) if n == 2 else ())

    def o(a, out):
        x, z, par, vec, pt, d = a
        q, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
        m = N * (N - 1) // 2
        M = triangular(x[:N], [x[N + i] + alg.I_ * x[N + m + i] for i in range(m)])
        y = [alg.complex_var('y') for _ in z]
        at = {alg.var_of(s): t for s, t in zip(y, z)}
        s = sections(ex, y, q)
        g = [alg.subst(f, at) for f in geom.gradient(p, y, par, q)]
        J = geom.jacobian(g, d)
        u = [sum((vec[r] * J[r, j] for r in range(n - 1)), alg.ZERO) for j in range(n)]
        ds = [[alg.subst(alg.diff(f, alg.var_of(t)), at) for t in y] for f in s]
        s = [alg.subst(f, at) for f in s]
        a = rows(M, s)
        b = rows(M, [sum((u[j] * f[j] for j in range(n)), alg.ZERO) for f in ds])
        den = alg.PI() * k * sum((mod2(t) for t in a), alg.ZERO) ** 2
        goals = [Eq('length of a tangent vector', out[0][()], lagrange(a, b) / den)]
        if n == 2:
            e = rows(M, [sum((J[0, j] * f[j] for j in range(n)), alg.ZERO) for f in ds])
            goals.append(Eq('eta', out[1][()], lagrange(a, e) * mod2(g[d]) / den))
        return goals
    ck.case(f'dimension {n}, degree {k}, hypersurface degree {deg}, {kind}', code, (x, z, par, vec, pt, d), o, generic=True)
