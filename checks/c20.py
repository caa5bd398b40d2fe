"""Sigma accuracy of a sample."""
import jax
import jax.numpy as jnp
import numpy as np
from symjax import alg, stubs
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, Rel, eqs, cvar, rvar, hermitian, keyvar, sym
from checks import geom
from checks.c11 import axis, closed, norm, mod2
from checks.c14 import exponents
from checks.c18 import eta
from checks.draws import keys_used_once
from checks.given import Drawn, Fixed, Points, SimpleEta, drawn_batches
from checks.polys import build
from cyjax import polynomial as pm
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull


def sigma(e, w):
    """Weighted mean of |1 - eta vol_cy / vol_k|."""
    n = len(e)
    cy = sum(w, alg.ZERO) / n
    vk = sum((x * y for x, y in zip(e, w)), alg.ZERO) / n
    return sum((alg.fabs(1 - x * cy / vk) * y for x, y in zip(e, w)), alg.ZERO) / (n * cy)


def run(ck):
    ck.assumptions.append('the sampled points are arbitrary: the variety of the check hands out given points')
    ck.bounds.append(f'samples of 1 to {6 if ck.thorough else 5} points with arbitrary eta and positive weights')
    for c in range(1, 7 if ck.thorough else 6):
        values(ck, c)
    for c in (2, 3):
        scaled(ck, c)
    for c in (1, 3):
        constant(ck, c)
    drawn(ck)
    real(ck)


def metric(zs, n=1):
    return SimpleEta(Points(build(geom.generic(n + 1, 1), pm.HomPoly), zs), MonomialBasisFull(n, 1))


def values(ck, c):
    ck.fresh()
    e, w = rvar('e', (c,)), rvar('w', (c,), pos=True)

    def fn(e, w, a, b):
        h = jnp.array([[a, 0], [0, 2 * a]]) + 0j
        return metric((e + 1j * w).reshape(c, 1)).sigma_accuracy(jax.random.PRNGKey(0), jnp.array([b, 0]) + 0j, h, c)

    def o(x, out):
        e, w, a, b = x
        E = [v * a[()] * b[()] for v in e]
        return [Holds('scalar', out.shape == ()), Eq('sigma', out[()], sigma(E, list(w))), Rel('not negative', out[()], '>=')]
    a, b = rvar('a', ()), rvar('b', ())
    tot = sum((x * y for x, y in zip(e.val, w.val)), alg.ZERO)
    ck.case(f'{c} points', fn, (e, w, a, b), o, assume=[(tot, '!='), (a.val[()], '!='), (b.val[()], '!=')])


def scaled(ck, c):
    ck.fresh()
    e, w = rvar('e', (c,)), rvar('w', (c,), pos=True)
    t, u = rvar('t', (), pos=True), rvar('u', (), pos=True)

    def fn(e, w, t, u):
        h = jnp.array([[t, 0], [0, 1]]) + 0j
        return metric((e + 1j * u * w).reshape(c, 1)).sigma_accuracy(jax.random.PRNGKey(0), jnp.array([1., 0]) + 0j, h, c)

    def o(x, out):
        e, w, t, u = x
        return [Eq('independent of the scale of eta and of the weights', out[()], sigma(list(e), list(w)))]
    tot = sum((x * y for x, y in zip(e.val, w.val)), alg.ZERO)
    ck.case(f'scaled eta and weights, {c} points', fn, (e, w, t, u), o, assume=[(tot, '!=')])


def constant(ck, c):
    ck.fresh()
    e, w = rvar('e', (), pos=True), rvar('w', (c,), pos=True)

    def fn(e, w):
        h = jnp.eye(2) + 0j
        return metric((e + 1j * w).reshape(c, 1)).sigma_accuracy(jax.random.PRNGKey(0), jnp.array([1., 0]) + 0j, h, c)
    ck.case(f'constant eta, {c} points', fn, (e, w), lambda x, out: [Eq('zero', out[()], alg.ZERO)])


class DrawnPoints(Drawn):
    def sample_intersect_weights(self, zs, params, patch=None, dependent=None, **kw):
        return zs[..., 0].imag


def drawn(ck):
    """The sample comes from the key handed over and has the requested size."""
    for c in (1, 2, 3):
        ck.fresh()
        M = SimpleEta(DrawnPoints(build(geom.generic(2, 1), pm.HomPoly)), MonomialBasisFull(1, 1))

        def o(a, out):
            bs = drawn_batches(1, c)
            goals = [Holds('one sample of the requested size', len(bs) == 1)]
            if len(bs) != 1:
                return goals
            z = [r[0][0] for r in bs[0][1]]
            return goals + [Eq('sigma', out[()], sigma([x.real for x in z], [x.imag for x in z])), keys_used_once()]
        ck.case(f'drawn sample of {c}', lambda k: M.sigma_accuracy(k, jnp.array([1., 0]) + 0j, jnp.eye(2) + 0j, c), (keyvar('k'),), o,
                symrand=True, generic=True)


def real(ck):
    """Eta and weights computed by the code."""
    cases = [(geom.generic(2, 1), 2, (0, 1), 'any'), (geom.generic(3, 1), 1, (2,), 'any'), (geom.generic(3, 1), 2, (0, 2), 'h'), (geom.generic(2, 2), 2, (1, 0), 'any')]
    if ck.thorough:
        cases += [(geom.generic(2, 1), 3, (1, 0, 1), 'any'), (geom.generic(3, 1), 2, (1, 1), 'h')]
    ck.bounds.append('eta and weights by the code: ' + ', '.join(f'{p.name} with {c} points' for p, c, _, _ in cases))
    for p, c, patch, kind in cases:
        ck.fresh()
        n = len(p.indices[0]) - 1
        z, par = cvar('z', (c, n)), cvar('par', (len(p.params),))
        sec = MonomialBasisFull(n, 1)
        ex = exponents(sec)
        h = hermitian('h', n + 1)
        if kind == 'h':
            for i in range(n + 1):
                for j in range(n + 1):
                    if i != j:
                        h.val[i, j] = alg.ZERO

        def fn(z, par, h, patch=patch, c=c, p=p, sec=sec):
            return AlgebraicMetric(Fixed(build(p, pm.HomPoly), z, jnp.array(patch)), sec).sigma_accuracy(jax.random.PRNGKey(0), par, h, c)
        ck.case(f'{p.name}: {c} points', fn, (z, par, h), oracle(p, ex, patch, n), generic=True)
    # only one component of the gradient does not vanish
    p, sec = geom.generic(3, 1), MonomialBasisFull(2, 1)
    for k, j in ((0, 1), (0, 2), (2, 1), (2, 0)):
        ck.fresh()
        z, a, h = cvar('z', (1, 2)), cvar('a', (2,)), hermitian('h', 3)
        ck.case(f'{p.name}: gradient along {j} in patch {k}',
                lambda z, a, h: AlgebraicMetric(Fixed(build(p, pm.HomPoly), z, jnp.array([k])), sec).sigma_accuracy(
                    jax.random.PRNGKey(0), jnp.array(axis(p, k, j, a, 0)), h, 1),
                (z, a, h), lambda x, out: oracle(p, exponents(sec), (k,), 2, j - (j > k))((x[0], axis(p, k, j, x[1], alg.ZERO), x[2]), out), generic=True)


def oracle(p, ex, patch, n, d=0):
    def o(a, out):
        z, par, h = a
        e, w = [], []
        for zz, k in zip(z, patch):
            g = geom.gradient(p, zz, par, k)
            e.append(eta(p, ex, h, zz, par, k, d))    # the same for every dependent coordinate
            w.append(1 / (closed(zz, g) * norm(n - 1)()))
        return [Eq('sigma', out[()], sigma(e, w))]
    return o
