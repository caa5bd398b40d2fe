"""Volume of the variety from its sampled points."""
import numpy as np
import jax
import jax.numpy as jnp
from symjax import alg, stubs
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, cvar, keyvar
from checks import geom
from checks.draws import keys_used_once
from checks.polys import build
from cyjax import polynomial as pm
from cyjax import variety as vr


class Weighted(vr.VarietySingle):
    """The weight of a point is a free random number of the key times the squared modulus of a parameter."""

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        n = self.dim_projective
        x = jax.random.normal(key, (count, n + 1))
        if affine:
            pts = x[:, :n] + 0j, jnp.zeros(count, int)
        else:
            pts = jnp.concatenate((jnp.ones((count, 1)), x[:, :n]), 1) + 0j
        return (pts, x[:, n] * jnp.abs(params[0]) ** 2) if weights else pts


def drawn(n, count):
    """Weights per key, without the factor of the parameter."""
    return [[stubs.DRAWS[kk + (i * (n + 1) + n,)] for i in range(count)]
            for kk in stubs.DRAWLOG if kk[0] == 'normal' and tuple(kk[2]) == (count, n + 1)]


def run(ck):
    ck.assumptions.append('the sampled weights are arbitrary: the variety of the check hands out one free random number per key and point')
    cases = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 5), (4, 3), (5, 1)]
    if ck.thorough:
        cases += [(3, 4), (6, 2), (7, 1)]
    dims = (1, 2, 3, 4) if ck.thorough else (1, 2, 3)
    ck.bounds.append(f'(batches, points per batch) {cases}; projective dimension {dims}; arbitrary weights and parameters')
    for n in dims:
        p = geom.generic(n + 1, 2)
        v = Weighted(build(p, pm.HomPoly))
        for B, c in cases:
            for kw in ({}, {'var': False}, {'var': True}):
                ck.fresh()

                def o(a, out):
                    w = drawn(n, c)
                    f = a[1][0] * a[1][0].conj()
                    goals = [Holds('number of batches', len(w) == B)]
                    if len(w) != B:
                        return goals
                    vals = [x * f for b in w for x in b]
                    N = B * c
                    mean = sum(vals, alg.ZERO) / N
                    if kw.get('var'):
                        goals.append(Holds('volume and variance', isinstance(out, (tuple, list)) and len(out) == 2))
                        goals.append(Eq('variance', out[1][()], (sum((x * x for x in vals), alg.ZERO) / N - mean * mean) / N))
                        out = out[0]
                    goals.append(Eq('mean of the weights', out[()], mean))
                    return goals + ([keys_used_once('every batch has its own key')] if ENGINE.vals is None else [])
                ck.case(f'dimension {n}: {B} batches of {c}, {kw}', lambda key, par: v.compute_vol(key, par, B, c, **kw),
                        (keyvar('k'), cvar('par', (len(p.params),))), o, symrand=True)
        # keyword arguments
        ck.fresh()

        def o(a, out):
            w = drawn(n, 2)
            f = a[1][0] * a[1][0].conj()
            return [Holds('number of batches', len(w) == 3), Eq('mean of the weights', out[()], sum((x * f for b in w for x in b), alg.ZERO) / 6)]
        ck.case(f'dimension {n}: keywords', lambda key, par: v.compute_vol(key=key, params=par, batch_size=2, batches=3),
                (keyvar('k'), cvar('par', (len(p.params),))), o, symrand=True)
