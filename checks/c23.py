"""Buffered sampling of training batches."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from symjax import alg, stubs
from symjax.harness import Eq, Holds, eqs, keyvar
from checks import geom
from checks.draws import keys_used_once, not_shared
from checks.polys import build
from cyjax import ml, polynomial as pm, util, variety as vr


class Tagged(vr.VarietySingle):
    """Points and weights reveal the parameters and the random number they belong to."""

    def sample_intersect(self, key, params, count, affine=False, weights=False):
        u = jax.random.normal(key, (count, 1))
        zs = params[0] * u + params[1]
        patch = jnp.arange(count) % 2
        assert affine and weights
        return (zs + 0j, patch), u[:, 0] * params[1] + 3


def parameters(key, count):
    return jax.random.normal(key, (count, 2))


VARIETY = Tagged(build(geom.generic(2, 1), pm.HomPoly))


def run(ck):
    sizes = [(1, 1, 1, 3), (1, 2, 2, 5), (2, 1, 3, 7), (2, 3, 1, 2), (3, 2, 2, 3), (1, 1, 4, 13), (1, 1, 2, 16), (5, 2, 2, 3), (1, 6, 1, 2)]
    if ck.thorough:
        sizes += [(2, 2, 5, 11), (4, 1, 2, 6), (2, 1, 7, 22), (6, 3, 2, 3)]
    ck.bounds.append('(parameters per batch, points per parameter, buffer size, calls of next): ' + ', '.join(map(str, sizes)))
    ck.assumptions.append('random numbers of different keys are unrelated; the variety and parameter sampler of the check tag points with their parameters')
    for s in sizes:
        sampler(ck, *s)
    # integer seed, defaults of the constructor and the iterator protocol
    for seed in (0, 7):
        sampler(ck, 2, 2, 2, 5, seed)
    defaults(ck)
    for m in (1, 2, 5):
        sequence(ck, m)


def sampler(ck, bp, bs, buf, m, seed=None):
    ck.fresh()

    def code(key):
        s = ml.BatchSampler(key if seed is None else seed, VARIETY, parameters, bp, bs, buf)
        if seed is None:
            return [next(s) for _ in range(m)]
        return list(itertools.islice(iter(s), m))

    def o(a, out):
        gen = [k for k in stubs.DRAWLOG if k[0] == 'normal' and tuple(k[2]) == (bp, 2)]
        goals = [Holds('batches', len(out) == m), Holds('enough batches are generated', len(gen) >= m)]
        if len(gen) < m:
            return goals
        for b, (par, zs, patch, w) in enumerate(out):
            goals.append(Holds(f'shapes of batch {b}', par.shape == (bp, 2) and zs.shape == (bp, bs, 1) and patch.shape == (bp, bs) and w.shape == (bp, bs)))
            ref = np.array([[stubs.DRAWS[gen[b] + (2 * i + c,)] for c in range(2)] for i in range(bp)], object)
            goals += eqs(f'batch {b} is generated batch {b}', par, ref)
            for i in range(bp):
                for j in range(bs):
                    goals.append(Eq(f'points of batch {b} belong to its parameters', (zs[i, j, 0] - par[i, 1]) * par[i, 1], (w[i, j] - 3) * par[i, 0]))
                    goals.append(Holds(f'patch of batch {b}', patch[i, j] == j % 2))

        def pick(r):
            g = []
            for par, zs, patch, w in r:
                g += [list(x) for x in par]
                g += [[(w[i, j] - 3) / par[i, 1]] for i in range(bp) for j in range(bs)]
            return g
        goals.append(not_shared('no random number is used twice', pick(out), pick))
        goals.append(keys_used_once())
        return goals
    ck.case(f'{bp} parameters, {bs} points, buffer of {buf}, {m} batches' + ('' if seed is None else f', seed {seed}'), code, (keyvar('key'),), o, symrand=True)


def defaults(ck):
    """Documented default sizes."""
    ck.fresh()

    def code(key):
        s = ml.BatchSampler(key, VARIETY, parameters, buffer_size=1)
        return next(s)

    def o(a, out):
        return [Holds('default sizes', out[0].shape == (5, 2) and out[1].shape == (5, 100, 1) and out[2].shape == (5, 100) and out[3].shape == (5, 100))]
    ck.case('default sizes', code, (keyvar('key'),), o, symrand=True)


def sequence(ck, m):
    """Keys of a sequence are pairwise different."""
    for seed in (None, 3):
        ck.fresh()

        def code(key):
            r = util.PRNGSequence(key if seed is None else seed)
            return jnp.stack([jax.random.normal(next(r)) for _ in range(m)])
        ck.case(f'sequence of {m} keys' + ('' if seed is None else ', integer seed'), code, (keyvar('key'),),
                lambda a, out: [not_shared('different keys', [[x] for x in out], lambda r: [[x] for x in r]), keys_used_once()], symrand=True)
