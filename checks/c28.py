"""Shuffling along one axis."""
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, Custom, eqs, cvar, keyvar
from checks.draws import keys_used_once
from cyjax import util


def same(f, g):
    if ENGINE.vals is not None:
        return abs(alg.numval(f, ENGINE.vals) - alg.numval(g, ENGINE.vals)) < 1e-9
    return (alg.lift(f) - alg.lift(g)).is_zero()


def find_perm(old, new):
    """Permutation p with new[i] = old[p[i]] for whole sub-arrays, or None."""
    used, p = set(), []
    for x in new:
        for k, y in enumerate(old):
            if k not in used and all(same(a, b) for a, b in zip(np.ravel(x), np.ravel(y))):
                used.add(k)
                p.append(k)
                break
        else:
            return None
    return tuple(p)


def run(ck):
    shapes = [((3,), 0), ((3,), -1), ((2, 2), 0), ((2, 2), 1), ((2, 3), 1), ((3, 2), 0), ((2, 2, 2), 1), ((2, 2, 2), 0), ((2, 2, 2), 2),
              ((2, 1, 2), 1), ((1, 3), 1), ((2, 2, 2), -2), ((2, 2), -1), ((2, 2), -2), ((4,), 0), ((3, 3), 1), ((2, 3, 2), 1), ((1, 2, 3), 2), ((4, 2), 0)]
    if ck.thorough:
        shapes += [((3, 3), -2), ((2, 4), 1), ((5,), 0), ((3, 2, 2), 0)]
    ck.bounds.append(f'shapes and axes {shapes}, arbitrary entries, every outcome of every random permutation')
    for shape, axis in shapes:
        ck.fresh()
        x = cvar('x', shape)
        ax = axis % len(shape)
        lead = list(np.ndindex(*shape[:ax]))
        seen = set()

        def o(a, out):
            x = a[1]
            if out.shape != shape:
                return eqs('shape', out, x)
            goals, ps = [], []
            for l in lead:
                p = find_perm(list(x[l]), list(out[l]))
                ps.append(p)
                goals.append(Holds(f'slice {l} is a permutation of the original one', p is not None))
                if p is not None:
                    goals += [Eq(f'entry {l} {i}', out[l + (i,) + r], x[l + (p[i],) + r])
                              for i in range(shape[ax]) for r in np.ndindex(*shape[ax + 1:])]
            if ENGINE.vals is None:
                seen.add(tuple(ps))
            return goals + [keys_used_once()]
        name = f'shape {shape} axis {axis}'
        nv, ne = len(ck.violations), len(ck.errors)
        ck.case(name, lambda k, x: util.shuffle_axis(k, x, axis), (keyvar('k'), x), o, symrand=True)
        if len(ck.violations) > nv or len(ck.errors) > ne or not seen or (ck.only and ck.only not in name):
            continue
        ck.goals += 1
        want = math.factorial(shape[ax]) ** len(lead)
        if len(seen) == want:
            ck.discharged += 1
        else:
            # some combination of permutations cannot happen: see whether the real code shows the same
            real = set()
            v = np.arange(np.prod(shape)).reshape(shape)
            for s in range(60 * want if want < 50 else 400):
                r = np.asarray(util.shuffle_axis(jax.random.PRNGKey(s), jnp.asarray(v), axis))
                real.add(tuple(tuple(int(np.where((v[l].reshape(shape[ax], -1) == r[l].reshape(shape[ax], -1)[i]).all(1))[0][0])
                                     for i in range(shape[ax])) for l in lead))
            if real <= seen:
                ck.raw_violation(name, 'slices are shuffled independently and every order is possible',
                                 f'only {len(seen)} of {want} combinations of orders are possible')
            else:
                ck.errors.append(f'{name}: possible orders differ from the encoding')
