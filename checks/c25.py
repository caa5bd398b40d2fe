"""Monte Carlo integration."""
import numpy as np
import jax
from symjax import alg, stubs
from symjax.alg import ZERO
from symjax.harness import Eq, Holds, Custom, eqs, keyvar
from checks.draws import keys_used_once
from cyjax import util


def sampler(wshape):
    def sample(key, count):
        k1, k2 = jax.random.split(key)
        zs = jax.random.normal(k1, (count, 2))
        w = jax.random.uniform(k2, (count,) + wshape)
        return zs, w
    return sample


FNS = {
    'scalar': (lambda zs: zs[:, 0], (), lambda z: np.array(z[0], object)),
    'product': (lambda zs: zs[:, 0] * zs[:, 1] + 1, (), lambda z: np.array(z[0] * z[1] + 1, object)),
    'vector': (lambda zs: zs, (1,), lambda z: np.array([z[0], z[1]], object)),
    'matrix': (lambda zs: zs[:, :, None] * zs[:, None, :], (1, 1),
               lambda z: np.array([[z[0] * z[0], z[0] * z[1]], [z[1] * z[0], z[1] * z[1]]], object)),
}


def batches_of(count):
    """[(key term, [(point, weight)])] of the sample calls on this path."""
    out = []
    for kk in stubs.DRAWLOG:
        if kk[0] == 'normal' and kk[1][0] == 'split' and kk[1][3] == 0:
            K = kk[1][1]
            z = [[stubs.DRAWS[kk + (2 * i + j,)] for j in range(2)] for i in range(count)]
            w = None
            for k2 in stubs.DRAWLOG:
                if k2[0] == 'uniform' and k2[1] == ('split', K, 2, 1):
                    w = [stubs.DRAWS[k2 + (i,)] for i in range(count)]
            out.append((K, list(zip(z, w))))
    return out


def run(ck):
    ns = (1, 2, 3, 4, 5) if not ck.thorough else (1, 2, 3, 4, 5, 6, 7, 8)
    ck.bounds.append(f'samples per call {ns}; batches 1..3; integrands: scalar, vector and matrix valued; arbitrary points and weights')
    for name, (fn, wshape, ref) in FNS.items():
        for n in ns:
            for var in (False, True):
                ck.fresh()

                def o(a, out):
                    bs = batches_of(n)
                    goals = [Holds('one batch is drawn', len(bs) == 1)]
                    if len(bs) != 1:
                        return goals
                    vals = [ref(z) * w for z, w in bs[0][1]]
                    mean = sum(vals) / n
                    if var:
                        v = (sum(x * x for x in vals) / n - mean * mean) / n
                        return goals + eqs('mean of integrand times weight', out[0], np.asarray(mean, object)) \
                            + eqs('variance', out[1], np.asarray(v, object))
                    return goals + eqs('mean of integrand times weight', out, np.asarray(mean, object))
                kw = {'var': True} if var else {}
                ck.case(f'mc_integrate {name} n={n} var={var}',
                        lambda k: util.mc_integrate(k, n, fn, sampler(wshape), **kw), (keyvar('k'),), o, symrand=True)
        for b, n in ((1, 2), (2, 1), (2, 2), (3, 2)):
            for var in (False, True):
                ck.fresh()

                def o(a, out):
                    bs = batches_of(n)
                    N = b * n
                    goals = [Holds('number of batches drawn', len(bs) == b)]
                    if len(bs) != b:
                        return goals
                    vals = [ref(z) * w for _, l in bs for z, w in l]
                    mean = sum(vals) / N
                    if var:
                        v = (sum(x * x for x in vals) / N - mean * mean) / N
                        goals += eqs('mean over all batches', out[0], np.asarray(mean, object)) \
                            + eqs('variance over all batches', out[1], np.asarray(v, object))
                    else:
                        goals += eqs('mean over all batches', out, np.asarray(mean, object))
                    return goals + [keys_used_once('every batch has its own key')]
                ck.case(f'mc_integrate_batched {name} batches={b} n={n} var={var}',
                        lambda k: util.mc_integrate_batched(k, b, n, fn, sampler(wshape), var), (keyvar('k'),), o, symrand=True)
