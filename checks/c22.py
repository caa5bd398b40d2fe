"""Loss measuring the variance of eta."""
import jax
import jax.numpy as jnp
import numpy as np
from symjax import alg
from symjax.harness import Eq, Holds, Rel, eqs, cvar, rvar, hermitian
from checks import geom
from checks.c14 import exponents
from checks.c18 import eta
from checks.given import SimpleEta
from checks.polys import build
from cyjax import ml, polynomial as pm
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull


def mean(e, w):
    return sum((x * y for x, y in zip(e, w)), alg.ZERO) / sum(w, alg.ZERO)


def loss(e, w, negative=()):
    """Weighted squared relative deviations from the weighted mean and the penalty of negative values."""
    n, m = len(e), mean(e, w)
    v = sum((y * (x / m - 1) ** 2 for x, y in zip(e, w)), alg.ZERO) / n
    return v + sum((alg.flog(e[i] ** 2 + 1) for i in negative), alg.ZERO) / n


def slope(e, w, i, negative=()):
    """Derivative with respect to e_i at constant mean."""
    n, m = len(e), mean(e, w)
    d = 2 * w[i] * (e[i] / m - 1) / (m * n)
    return d + (2 * e[i] / (e[i] ** 2 + 1) / n if i in negative else 0)


METRIC = SimpleEta(geom.variety(geom.generic(2, 1)), MonomialBasisFull(1, 1))


def sample(e, w, par=1.):
    c = len(e)
    return jnp.array([par, 0]) + 0j, (e + 2j).reshape(c, 1), jnp.arange(c) % 2, w


def run(ck):
    ck.bounds.append(f'samples of 1 to {5 if ck.thorough else 4} points with arbitrary signs of eta, positive weights, non-vanishing weighted mean; '
                     'gradients with respect to eta and to the matrix')
    for c in range(1, 6 if ck.thorough else 5):
        values(ck, c)
        zero(ck, c)
    real(ck)


def values(ck, c):
    for signs in range(2 ** c):
        neg = [i for i in range(c) if signs >> i & 1]
        ck.fresh()
        x, w, t = rvar('e', (c,), pos=True), rvar('w', (c,), pos=True), rvar('t', (), pos=True)
        s = np.array([-1. if i in neg else 1. for i in range(c)])
        f = lambda e, w, t: ml.variance_eta_loss(jnp.array([[t, 0], [0, 3]]) + 0j, sample(e, w), METRIC)

        def code(x, w, t):
            e = s * x
            return f(e, w, 1.), f(e, w, t), jax.grad(f)(e, w, 1.), jax.grad(f, 2)(e, w, t), f(e, t * w, 1.)

        def o(a, out):
            x, w, t = a
            e, w, t = [v * int(k) for v, k in zip(x, s)], list(w), t[()]
            te = [v * t for v in e]
            ref = loss(e, w, neg)
            goals = [Holds('scalar', out[0].shape == ()), Eq('loss', out[0][()], ref), Eq('scaled eta', out[1][()], loss(te, w, neg))]
            goals += eqs('gradient', out[2], np.array([slope(e, w, i, neg) for i in range(c)], object))
            goals.append(Eq('derivative by scale', out[3][()], sum((slope(te, w, i, neg) * e[i] for i in range(c)), alg.ZERO)))
            goals.append(Eq('scaled weights', out[4][()], t * loss(e, w) + loss(e, w, neg) - loss(e, w)))
            if not neg:
                goals += [Rel('not negative', out[0][()], '>='), Eq('independent of a common scale', out[1][()], out[0][()])]
            return goals
        tot = sum((int(k) * a * b for a, b, k in zip(x.val, w.val, s)), alg.ZERO)
        ck.case(f'{c} points, {len(neg)} negative ({signs})', code, (x, w, t), o, assume=[(tot, '!=')])


def zero(ck, c):
    """Constant eta has no loss; for two points the loss vanishes only then."""
    ck.fresh()
    e, w = rvar('e', (), pos=True), rvar('w', (c,), pos=True)
    f = lambda e, w: ml.variance_eta_loss(jnp.eye(2) + 0j, sample(e * jnp.ones(c), w), METRIC)
    ck.case(f'constant eta, {c} points', lambda e, w: (f(e, w), jax.grad(f)(e, w)), (e, w), lambda a, out: [Eq('zero', out[0][()], alg.ZERO), Eq('stationary', out[1][()], alg.ZERO)])
    if c > 1:
        ck.fresh()
        x, w = rvar('e', (c,), pos=True), rvar('w', (c,), pos=True)
        f = lambda e, w: ml.variance_eta_loss(jnp.eye(2) + 0j, sample(e, w), METRIC)
        ck.case(f'different eta, {c} points', f, (x, w), lambda a, out: [Rel('positive', out[()], '>')], assume=[(x.val[0] - x.val[1], '!=')])


def real(ck):
    """Eta computed by the code, batched moduli as in training."""
    cases = [(geom.generic(2, 1), 2), (geom.generic(2, 2), 2), (geom.generic(2, 1), 3)]
    ck.bounds.append('eta by the code: ' + ', '.join(f'{p.name} with {c} points' for p, c in cases))
    for p, c in cases:
        ck.fresh()
        n = len(p.indices[0]) - 1
        M = AlgebraicMetric(geom.variety(p), MonomialBasisFull(n, 1))
        ex = exponents(M.sections)
        z, par, h, w = cvar('z', (c, n)), cvar('par', (len(p.params),)), hermitian('h', n + 1), rvar('w', (c,), pos=True)
        patch = tuple(i % (n + 1) for i in range(n, n + c))

        def o(a, out):
            z, par, h, w = a
            e = [eta(p, ex, h, zz, par, k, 0).real for zz, k in zip(z, patch)]
            return [Eq('loss', out[()], loss(e, list(w)))]
        ck.case(f'{p.name}: {c} points', lambda z, par, h, w: ml.variance_eta_loss(h, (par, z, jnp.array(patch), w), M), (z, par, h, w), o, generic=True)
