"""Kahler potential and metric of the algebraic ansatz."""
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym
from checks import geom
from checks.jets import Geometry
from checks.c16 import tensor, reference
from cyjax.donaldson import AlgebraicMetric, GeometricObjects, MonomialBasisFull, MonomialBasisReduced


def exponents(sec):
    return [tuple(int(x) for x in e) for e in np.asarray(sec.power_matrix)]


def run(ck):
    ck.bounds.append('origin of every patch: projective dimensions 2 and 3, degrees 1 and 2 (2: also 3, diagonal), every Hermitian matrix, arbitrary quadric')
    ck.bounds.append('arbitrary points: projective dimension 2 degree 1 (thorough: 2), dimension 3 degree 1, every Hermitian matrix, arbitrary lines, planes, quadrics; every dependent index')
    for n, k, deg, origin in [(2, 1, 2, True), (2, 2, 2, True), (3, 1, 2, True), (2, 1, 1, False), (2, 1, 2, False), (3, 2, 2, True), (2, 2, 1, False), (3, 1, 1, False)] + \
            ([(4, 1, 2, True), (3, 1, 2, False)] if ck.thorough else []):
        metric(ck, n, k, deg, origin)
    for n, k, origin in [(2, 2, True), (2, 3, True), (3, 2, True), (2, 1, False), (2, 2, False)]:
        vector(ck, n, k, origin)
    options(ck)
    reduced(ck)
    potential(ck)


def metric(ck, n, k, deg, origin):
    ck.fresh()
    p = geom.generic(n + 1, deg)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = exponents(sec)
    M = AlgebraicMetric(v, sec)
    z = sym([alg.ZERO] * n) if origin else cvar('z', (n,))
    h = hermitian('h', len(ex))
    par = cvar('par', (len(p.params),))
    pt, d = ivar('p', 0, n + 1), ivar('d', 0, n)

    def code(h, z, par, pt, d):
        g, q, e = M.metric(h, z, par, pt, d)
        out = [g, q, e, None]
        if origin:
            o = GeometricObjects(h, z, par, v, sec, pt, dependent=d)
            out += [o.jac, o.g_loc_h]
        return out

    def o(a, out):
        h, z, par, pt, d = a
        pt, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
        G = Geometry(p, ex, h, z, par, pt, d, orders=(1, 1))
        g = out[0]
        goals = eqs('metric', g, reference(G, 'g_loc')) + eqs('Hermitian', g, geom.conj(g).T)
        goals += [Eq('patch', out[1][()], pt), Eq('dependent index', out[2][()], d)]
        if origin:
            J, gh = out[4], out[5]
            loc = tensor((n - 1,) * 3, lambda r, s, t: sum((J[r, a] * gh[a, s, t] for a in range(n)), alg.ZERO))
            goals += [Eq(f'closed {r}{s}{t}', loc[r, s, t], loc[s, r, t]) for r in range(n - 1) for s in range(r) for t in range(n - 1)]
        return goals
    ck.case(f'dimension {n}, degree {k}, hypersurface degree {deg}, {"origin" if origin else "any point"}', code, (h, z, par, pt, d), o, generic=True)


def vector(ck, n, k, origin):
    ck.fresh()
    p = geom.generic(n + 1, 2)
    v = geom.variety(p)
    sec = MonomialBasisFull(n, k)
    ex = exponents(sec)
    z = sym([alg.ZERO] * n) if origin else cvar('z', (n,))
    h = rvar('h', (len(ex),), pos=True)
    par = cvar('par', (len(p.params),))
    pt, d = ivar('p', 0, n + 1), ivar('d', 0, n)

    def code(h, z, par, pt, d):
        o = GeometricObjects(h, z, par, v, sec, pt, dependent=d)
        return o.g_loc, o.g_proj

    def o(a, out):
        h, z, par, pt, d = a
        pt, d = ENGINE.concretize(pt[()]), ENGINE.concretize(d[()])
        G = Geometry(p, ex, h, z, par, pt, d, orders=(1, 1))
        return eqs('metric', out[0], reference(G, 'g_loc')) + eqs('ambient metric', out[1], reference(G, 'g_proj'))
    ck.case(f'diagonal, dimension {n}, degree {k}, {"origin" if origin else "any point"}', code, (h, z, par, pt, d), o, generic=True)


def options(ck):
    """Homogeneous coordinates, automatic dependent coordinate, given gradient."""
    p = geom.generic(3, 1)
    v = geom.variety(p)
    sec = MonomialBasisFull(2, 1)
    ex = exponents(sec)
    M = AlgebraicMetric(v, sec)
    for mode in ('homogeneous', 'automatic', 'gradient', 'gradient and dependent'):
        ck.fresh()
        hom = mode == 'homogeneous'
        z, h, par = cvar('z', (3 if hom else 2,)), hermitian('h', 3), cvar('par', (3,))
        pt, d = ivar('p', 0, 3), ivar('d', 0, 2)

        def code(h, z, par, pt, d):
            kw = {}
            if not hom:
                kw['patch'] = pt
            if mode.startswith('gradient'):
                kw['grad_def'] = v.grad_defining(z, par, pt)
            if mode.endswith('dependent') or hom:
                kw['dependent'] = d
            return M.metric(h, z, par, **kw)

        def o(a, out):
            h, z, par, pt, d = a
            g, q, e = out
            q, e = ENGINE.concretize(q[()]), ENGINE.concretize(e[()])
            z = list(z)
            goals = []
            if hom:
                # the reported patch holds a coordinate of largest modulus
                goals += [Holds('patch in range', 0 <= q < 3)]
                z = [x / z[q] for i, x in enumerate(z) if i != q]
            else:
                goals += [Eq('patch', q, pt[()])]
            if mode.endswith('dependent') or hom:
                goals += [Eq('dependent', e, d[()])]
            G = Geometry(p, ex, h, z, par, q, e, orders=(1, 1))
            return goals + eqs('metric', g, reference(G, 'g_loc'))
        ck.case(f'options: {mode}', code, (h, z, par, pt, d), o, generic=True)


def reduced(ck):
    """Other sets of sections."""
    p = geom.generic(3, 2)
    v = geom.variety(p)
    sec = MonomialBasisReduced(v, 2, np.array([1., 2., 3., 5., 7., 11.]))
    ex = exponents(sec)
    M = AlgebraicMetric(v, sec)
    ck.fresh()
    z, h, par = cvar('z', (2,)), hermitian('h', len(ex)), cvar('par', (6,))
    for i in range(len(ex)):                    # few free elements
        for j in range(i):
            if (i, j) != (2, 0):
                h.val[i, j] = h.val[j, i] = alg.ZERO

    def o(a, out):
        h, z, par = a
        G = Geometry(p, ex, h, z, par, 1, 0, orders=(1, 1))
        return eqs('metric', out, reference(G, 'g_loc'))
    ck.case('reduced basis', lambda h, z, par: M.metric(h, z, par, 1, 0)[0], (h, z, par), o, generic=True)


def potential(ck):
    ck.bounds.append('potential: where the contraction of the sections is positive')
    for n, k, kind in [(2, 1, None), (1, 2, None), (2, 2, 'vector'), (1, 3, 'vector'), (3, 1, None), (2, 2, None)] + ([(4, 1, None)] if ck.thorough else []):
        p = geom.generic(n + 1, 2)
        v = geom.variety(p)
        sec = MonomialBasisFull(n, k)
        ex = exponents(sec)
        M = AlgebraicMetric(v, sec)
        for q in range(n + 1):
            for mode in ('patch', 'dependent', 'homogeneous', 'gradient'):
                if kind == 'vector' and mode not in ('patch', 'dependent') or (mode != 'patch' and (n, k) != (2, 1)):
                    continue
                ck.fresh()
                z = cvar('z', (n + 1 if mode == 'homogeneous' else n,))
                h = hermitian('h', len(ex)) if kind is None else rvar('h', (len(ex),))
                par = cvar('par', (len(p.params),))
                d = ivar('d', 0, n)
                aff = list(z.val)
                assume = []
                if mode == 'homogeneous':       # point of patch q
                    aff = [x / z.val[q] for i, x in enumerate(aff) if i != q]
                    assume = [(z.val[q] * z.val[q].conj() - x * x.conj(), '>') for i, x in enumerate(z.val) if i != q]
                psi = Geometry(p, ex, h.val, aff, par.val, q, 0, orders=(0, 0)).psi.d()

                def code(h, z, par, d):
                    if kind == 'vector':
                        return GeometricObjects(h, z, par, v, sec, q).kahler
                    if mode == 'homogeneous':
                        return M.kahler_potential(h, z, par)
                    if mode == 'gradient':
                        return M.kahler_potential(h, z, par, q, d, v.grad_defining(z, par, q))
                    return M.kahler_potential(h, z, par, q) if mode == 'patch' else M.kahler_potential(h, z, par, q, d)

                ck.case(f'potential, dimension {n}, degree {k}, {kind or "matrix"}, patch {q}, {mode}', code, (h, z, par, d),
                        lambda a, out: [Eq('logarithm of the contraction', out[()], alg.flog(psi) / (alg.PI() * k))],
                        assume=assume + [(psi, '>')])
