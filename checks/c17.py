"""Ricci curvature of the algebraic metric."""
import jax.numpy as jnp
import numpy as np
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym
from checks import geom
from checks.jets import Geometry, sdet
from checks.c16 import tensor
from cyjax.donaldson import AlgebraicMetric, GeometricObjects, MonomialBasisFull


def curvature(G):
    """Ricci tensor in local coordinates and its trace, from the expansion of log det g."""
    m, n = G.n - 1, G.n
    L = sdet(G.gl).log()
    R = tensor((n, n), lambda a, b: -L.d(a, ~b))
    J = tensor((m, n), lambda r, i: G.J[r, i].d())
    Jc = tensor((m, n), lambda r, i: G.Jc[r, i].d())
    loc = geom.pull(J, R, Jc)
    g = tensor((m, m), lambda r, s: G.gl[r, s].d())
    det = geom.det(g)
    inv = tensor((m, m), lambda i, j: (-1) ** (i + j) * geom.det(np.delete(np.delete(g, j, 0), i, 1)) / det)
    return R, loc, sum((loc[i, j] * inv[j, i] for i in range(m) for j in range(m)), alg.ZERO)


PATTERNS = {            # non-zero off-diagonal elements between monomials of the affine coordinates
    'sparse matrix A': [((0, 0, 0), (1, 0, 0)), ((1, 0, 0), (0, 1, 0)), ((2, 0, 0), (0, 1, 1))],
    'sparse matrix B': [((0, 0, 0), (1, 1, 0)), ((1, 0, 0), (0, 1, 1)), ((0, 0, 2), (1, 0, 1))],
    'sparse matrix C': [((0, 0, 0), (0, 0, 1)), ((0, 0, 1), (1, 1, 0)), ((0, 1, 0), (0, 0, 2)), ((0, 1, 1), (1, 0, 1))],
}


def sparse(name, ex):
    """Hermitian matrix with integer diagonal and the given symbolic off-diagonal elements (patch 0)."""
    h = np.empty((len(ex), len(ex)), object)
    h[...] = alg.ZERO
    for i in range(len(ex)):
        h[i, i] = alg.lift(1 + i % 3)
    aff = [e[1:] for e in ex]
    for a, b in PATTERNS[name]:
        x = alg.complex_var('h')
        i, j = aff.index(a), aff.index(b)
        h[i, j], h[j, i] = x, x.conj()
    return sym(h)


def run(ck):
    ck.bounds.append('projective dimension 2: every Hermitian matrix of the sections of degree 2 at the origin of the first (thorough: every) patch (every 4-jet of the potential), '
                     'arbitrary defining quadric (every 1-jet of the gradient), every dependent coordinate')
    ck.bounds.append('projective dimension 3: every diagonal matrix of degree 1 and 2 and Hermitian matrices with three or four symbolic '
                     'off-diagonal elements; arbitrary quadric')
    ck.bounds.append('arbitrary points: projective dimension 2, diagonal matrix of degree 1 on arbitrary lines')
    one(ck, 2, 2, 2, None, True, patches=3 if ck.thorough else 1)
    one(ck, 2, 1, 2, None, True, api=True)
    one(ck, 2, 2, 2, 'vector', True)
    one(ck, 2, 1, 1, 'vector', False)
    one(ck, 3, 1, 2, 'vector', True)
    one(ck, 3, 2, 2, 'sparse matrix A', True)
    one(ck, 3, 2, 2, 'vector', True)
    options(ck)
    if ck.thorough:
        one(ck, 3, 2, 2, 'sparse matrix B', True)
        one(ck, 3, 2, 2, 'sparse matrix C', True)


def one(ck, n, k, deg, kind, origin, api=False, patches=None):
    ck.fresh()
    p = geom.generic(n + 1, deg)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    N = len(ex)
    z = sym([alg.ZERO] * n) if origin else cvar('z', (n,))
    h = hermitian('h', N) if kind is None else rvar('h', (N,)) if kind == 'vector' else sparse(kind, ex)
    par = cvar('par', (len(p.params),))
    pt, d = ivar('p', 0, patches or (n + 1 if kind in (None, 'vector') else 1)), ivar('d', 0, n)
    M = AlgebraicMetric(v, sec)

    def code(h, z, par, pt, d):
        o = GeometricObjects(h, z, par, v, sec, patch=pt, dependent=d)
        out = [o.ricci_loc, o.ricci_scalar, o.ricci_proj]
        if api:
            out += [M.ricci(h, z, par, pt, d), M.ricci_scalar(h, z, par, pt, d)]
        return out

    def o(a, out):
        h, z, par, pt, d = a
        pt, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
        G = Geometry(p, ex, h, z, par, pt, d)
        R, loc, S = curvature(G)
        goals = eqs('ambient tensor', out[2], R) + eqs('Ricci tensor', out[0], loc) + [Eq('Ricci scalar', out[1][()], S)]
        if api:
            t, q, e = out[3]
            goals += eqs('method ricci', t, loc) + [Eq('patch', q[()], pt), Eq('dependent', e[()], d), Eq('method ricci_scalar', out[4][()], S)]
        return goals
    where = 'origin' if origin else 'any point'
    ck.case(f'dimension {n}, degree {k}, {kind or "matrix"}, {where}', code, (h, z, par, pt, d), o, generic=True)


def options(ck):
    """Patch and dependent coordinate found by the library, gradient given."""
    ck.bounds.append('methods ricci and ricci_scalar: homogeneous coordinates of the origin of every patch, dependent coordinate left out, gradient given (quick: one patch)')
    n, p = 2, geom.generic(3, 2)
    v, sec = geom.variety(p), MonomialBasisFull(2, 1)
    ex = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    M = AlgebraicMetric(v, sec)
    for k in range(n + 1):
        for mode in ('homogeneous', 'homogeneous with dependent', 'automatic', 'gradient', 'gradient and dependent'):
            if k != 1 and mode != 'homogeneous' and not ck.thorough:
                continue
            ck.fresh()
            w, h, par, d = cvar('w'), hermitian('h', len(ex)), cvar('par', (len(p.params),)), ivar('d', 0, n)

            def code(h, w, par, d):
                kw = {'dependent': d} if mode.endswith('dependent') else {}
                if mode.startswith('homogeneous'):
                    z = jnp.zeros(n + 1, complex).at[k].set(w)
                else:
                    z, kw['patch'] = jnp.zeros(n, complex), k
                if mode.startswith('gradient'):
                    kw['grad_def'] = v.grad_defining(z, par, k)
                return M.ricci(h, z, par, **kw), M.ricci_scalar(h, z, par, **kw)

            def o(a, out):
                h, w, par, d = a
                (t, q, e), s = out
                e = ENGINE.concretize(e[()])
                goals = [Eq('patch', q[()], k)]
                if mode.endswith('dependent'):
                    goals.append(Holds('dependent', e == ENGINE.concretize(d[()])))
                R, loc, S = curvature(Geometry(p, ex, h, [alg.ZERO] * n, par, k, e))
                return goals + eqs('Ricci tensor', t, loc) + [Eq('Ricci scalar', s[()], S)]
            ck.case(f'options in patch {k}: {mode}', code, (h, w, par, d), o, generic=True)
