"""One step of Donaldson's algorithm."""
import numpy as np
import jax
from symjax import alg, interp, smt, stubs
from symjax.engine import ENGINE
from symjax.harness import Custom, Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym, keyvar
from checks import geom
from checks.c14 import exponents
from checks.c16 import tensor
from checks.draws import keys_used_once
from checks.given import Drawn, drawn_batches
from checks.polys import build
from checks.roots import tries
from cyjax import polynomial as pm
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull


def sections(ex, z, k):
    out = []
    for e in ex:
        t = alg.ONE
        for x, p in zip(z, e[:k] + e[k + 1:]):
            t = t * x ** p
        out.append(t)
    return out


def reference(ex, bs, hh, vol):
    """The matrix to be inverted: number of sections over the volume times the weighted mean."""
    N = len(ex)
    T = tensor((N, N), lambda i, j: alg.ZERO)
    count = 0
    for _, rows in bs:
        for z, q, w in rows:
            count += 1
            s = sections(ex, z, q)
            den = sum((s[i] * s[j].conj() * hh[i, j] for i in range(N) for j in range(N)), alg.ZERO)
            for i in range(N):
                for j in range(N):
                    T[i, j] = T[i, j] + s[i] * s[j].conj() * w / den
    f = alg.lift(N) / (vol * count)
    return tensor((N, N), lambda i, j: T[i, j] * f)


def inverse_transposed(label, out, T):
    """out is the transposed inverse of T; inverses computed by the code are unknowns with their contract."""
    def equal(A, B):
        return smt.prove_identities([(x, y) for x, y in zip(A.reshape(-1), B.reshape(-1))])

    def decide(ck, c):
        for M, X in interp.INVERSES:
            if M.shape != T.shape:
                continue
            for A, Y in ((M, X), (M.T, X.T)):
                # A = f T with a number or expression f: the inverse of T is f Y
                f = A[0, 0] / T[0, 0]
                if equal(A, T * f) and equal(out, Y.T * f):
                    return True
        for vals, ints in tries(ck, 3):
            _, real = ck.run_real(c, vals, ints)
            num = np.array([[complex(alg.numval(x, vals)) for x in r] for r in T])
            ref = np.linalg.inv(num).T
            err = np.max(np.abs(np.asarray(real) - ref)) / np.max(np.abs(ref))
            if not err < 1e-5:
                return vals, f'relative difference {err:.3g} from the transposed inverse'
        return None
    return Custom(label, decide)


def run(ck):
    ck.assumptions.append('the sampled points and weights are arbitrary: the variety of the check hands out one free random vector per key and point')
    ck.assumptions.append('matrix inversion is represented by its contract')
    cases = [(1, 1, 1, 2, 'full'), (1, 1, 2, 2, 'full'), (1, 1, 3, 1, 'full'), (2, 1, 3, 1, 'full'), (1, 2, 1, 3, 'full'), (2, 1, 2, 2, 'diagonal'), (2, 2, 2, 1, 'few'), (3, 1, 2, 1, 'full'), (1, 3, 2, 1, 'full')]
    if ck.thorough:
        cases += [(2, 1, 1, 4, 'diagonal'), (2, 2, 1, 2, 'diagonal'), (1, 1, 1, 4, 'full')]
    ck.bounds.append('(dimension, degree, batches, points per batch, matrix): ' + ', '.join(map(str, cases)) + '; arbitrary complex, not necessarily Hermitian, matrices '
                     '(few: diagonal and one more element) and volumes')
    for n, k, B, c, kind in cases:
        step(ck, n, k, B, c, kind)
    for B, c in ((2, 1), (1, 2), (2, 2)):
        exact(ck, B, c)


def matrix(kind, N):
    h = cvar('h', (N, N))
    for i in range(N):
        for j in range(N):
            if kind != 'full' and i != j and not (kind == 'few' and (i, j) == (0, 1)):
                h.val[i, j] = alg.ZERO
    return h


def setup(n, k):
    p = geom.generic(n + 1, 1)
    M = AlgebraicMetric(Drawn(build(p, pm.HomPoly)), MonomialBasisFull(n, k))
    return M, exponents(M.sections)


def hermitian_part(h):
    return tensor(h.shape, lambda i, j: (h[i, j] + h[j, i].conj()) / 2)


def step(ck, n, k, B, c, kind):
    ck.fresh()
    M, ex = setup(n, k)
    N = len(ex)
    h, par, vol = matrix(kind, N), cvar('par', (n + 1,)), rvar('vol', (), pos=True)

    def o(a, out):
        _, h, par, vol = a
        bs = drawn_batches(n, c)
        goals = [Holds('number of batches', len(bs) == B), Holds('shape', out.shape == (N, N))]
        if len(bs) != B or ENGINE.vals is not None:
            return goals
        T = reference(ex, bs, hermitian_part(h), vol[()])
        goals += eqs('Hermitian', T, geom.conj(T).T)
        goals.append(inverse_transposed('transposed inverse of the weighted mean', out, T))
        goals.append(keys_used_once('every batch has its own key'))
        return goals
    ck.case(f'dimension {n}, degree {k}, {B} batches of {c}, {kind} matrix', lambda key, h, par, vol: M.donaldson_step(key, h, par, vol, B, c),
            (keyvar('k'), h, par, vol), o, symrand=True, generic=True, opaque=True)


def exact(ck, B, c):
    """With explicit inverse, scaled matrix and volume."""
    ck.fresh()
    M, ex = setup(1, 1)
    h, par, vol = matrix('diagonal', 2), cvar('par', (2,)), rvar('vol', (), pos=True)
    t, u = rvar('t', (), pos=True), rvar('u', (), pos=True)

    def o(a, out):
        _, h, par, vol, t, u = a
        bs = drawn_batches(1, c)
        goals = [Holds('number of batches', len(bs) == B)]
        if len(bs) != B:
            return goals
        T = reference(ex, bs, hermitian_part(h), vol[()])
        det = geom.det(T)
        ref = np.array([[T[1, 1], -T[1, 0]], [-T[0, 1], T[0, 0]]], object) / det
        return goals + eqs('new matrix', out, ref * (t[()] * u[()]))
    ck.case(f'scaled matrix and volume, {B} batches of {c}', lambda key, h, par, vol, t, u: M.donaldson_step(key, t * h, par, u * vol, B, c),
            (keyvar('k'), h, par, vol, t, u), o, symrand=True, generic=True)
