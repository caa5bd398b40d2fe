"""Derivative tensors of the algebraic ansatz."""
import itertools
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym
from checks import geom
from checks.jets import Geometry
from cyjax.donaldson import GeometricObjects, MonomialBasisFull

AMBIENT = ['s', 's_1', 's_2', 's_c', 's_1_c', 's_2_c', 'psi', 'psi_h', 'psi_a', 'psi_ha', 'psi_hh', 'psi_aa', 'psi_hha', 'psi_hhaa',
           'g_proj', 'g_proj_h', 'g_proj_a', 'g_proj_ha']
LOCAL = ['jac', 'jac_c', 'jac_h', 'g_loc', 'g_loc_h', 'g_loc_a', 'g_loc_ha']


def tensor(shape, f):
    out = np.empty(shape, object)
    for ix in np.ndindex(*shape):
        out[ix] = f(*ix)
    return out


def reference(G, name):
    n, N, m = G.n, len(G.s), G.n - 1
    psi = G.psi
    return {
        's': lambda: tensor((N,), lambda a: G.s[a].d()),
        's_1': lambda: tensor((N, n), lambda a, i: G.s[a].d(i)),
        's_2': lambda: tensor((N, n, n), lambda a, i, j: G.s[a].d(i, j)),
        's_c': lambda: tensor((N,), lambda a: G.s[a].d().conj()),
        's_1_c': lambda: tensor((N, n), lambda a, i: G.s[a].d(i).conj()),
        's_2_c': lambda: tensor((N, n, n), lambda a, i, j: G.s[a].d(i, j).conj()),
        'psi': lambda: tensor((), lambda: psi.d()),
        'psi_h': lambda: tensor((n,), lambda i: psi.d(i)),
        'psi_a': lambda: tensor((n,), lambda i: psi.d(~i)),
        'psi_ha': lambda: tensor((n, n), lambda i, j: psi.d(i, ~j)),
        'psi_hh': lambda: tensor((n, n), lambda i, j: psi.d(i, j)),
        'psi_aa': lambda: tensor((n, n), lambda i, j: psi.d(~i, ~j)),
        'psi_hha': lambda: tensor((n, n, n), lambda i, j, k: psi.d(i, j, ~k)),
        'psi_hhaa': lambda: tensor((n, n, n, n), lambda i, j, k, l: psi.d(i, j, ~k, ~l)),
        'g_proj': lambda: tensor((n, n), lambda i, j: G.g[i, j].d()),
        'g_proj_h': lambda: tensor((n, n, n), lambda a, i, j: G.g[i, j].d(a)),
        'g_proj_a': lambda: tensor((n, n, n), lambda a, i, j: G.g[i, j].d(~a)),
        'g_proj_ha': lambda: tensor((n, n, n, n), lambda a, b, i, j: G.g[i, j].d(a, ~b)),
        'jac': lambda: tensor((m, n), lambda r, i: G.J[r, i].d()),
        'jac_c': lambda: tensor((m, n), lambda r, i: G.J[r, i].d().conj()),
        'jac_h': lambda: tensor((m, n, n), lambda r, i, a: G.J[r, i].d(a)),
        'g_loc': lambda: tensor((m, m), lambda r, s: G.gl[r, s].d()),
        'g_loc_h': lambda: tensor((n, m, m), lambda a, r, s: G.gl[r, s].d(a)),
        'g_loc_a': lambda: tensor((n, m, m), lambda a, r, s: G.gl[r, s].d(~a)),
        'g_loc_ha': lambda: tensor((n, n, m, m), lambda a, b, r, s: G.gl[r, s].d(a, ~b)),
    }[name]()


def run(ck):
    ck.bounds.append('jets: projective dimensions 2 and 3, all sections of degree 2 at the origin of every patch, every Hermitian matrix, '
                     'defining polynomials with all coefficients of degree 2 arbitrary, so every 4-jet of the potential and every 1-jet of the gradient')
    jets = [(2, 2, None, AMBIENT + LOCAL), (2, 1, None, AMBIENT + LOCAL), (3, 1, None, AMBIENT + LOCAL), (3, 2, None, AMBIENT + LOCAL[:4]), (2, 2, 'vector', AMBIENT + LOCAL), (2, 3, 'vector', AMBIENT), (3, 2, 'vector', AMBIENT + LOCAL)]
    if ck.thorough:
        jets += [(3, 2, None, AMBIENT + LOCAL), (4, 1, None, AMBIENT + LOCAL[:4])]
    for n, k, kind, nodes in jets:
        one(ck, n, k, kind, nodes, True)
    some = AMBIENT[:-1] + ['jac', 'jac_h', 'g_loc']
    for n, k, kind, nodes in [(2, 1, None, AMBIENT if ck.thorough else some), (2, 1, 'vector', AMBIENT + LOCAL if ck.thorough else some)]:
        one(ck, n, k, kind, nodes, False)
    ck.bounds.append('arbitrary points: projective dimension 2, degree 1, matrices and vectors; quadrics')


def one(ck, n, k, kind, nodes, origin):
    ck.fresh()
    p = geom.generic(n + 1, 2)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]
    N = len(ex)
    z = sym([alg.ZERO] * n) if origin else cvar('z', (n,))
    h = hermitian('h', N) if kind is None else rvar('h', (N,))
    par = cvar('par', (len(p.params),))
    pt, d = ivar('p', 0, n + 1), ivar('d', 0, n)

    def code(h, z, par, pt, d):
        o = GeometricObjects(h, z, par, v, sec, patch=pt, dependent=d)
        return {x: getattr(o, x) for x in nodes}

    def o(a, out):
        h, z, par, pt, d = a
        G = Geometry(p, ex, h, z, par, ENGINE.concretize(pt[()]), ENGINE.concretize(d[()]))
        goals = []
        for x in nodes:
            goals += eqs(x, out[x], reference(G, x))
        return goals
    where = 'origin' if origin else 'any point'
    ck.case(f'dimension {n}, degree {k}, {kind or "matrix"}, {where}', code, (h, z, par, pt, d), o, generic=True)
