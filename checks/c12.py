"""Monomial bases: completeness, size and evaluation."""
import math
import numpy as np
import jax.numpy as jnp
from symjax import alg
from symjax.engine import ENGINE
from symjax.smt import z3
from symjax.harness import Eq, Holds, eqs, cvar, ivar
from checks.polys import P
from checks import geom
from cyjax import donaldson as dn
from cyjax import util


def product(coords, powers):
    r = alg.ONE
    for x, e in zip(coords, powers):
        r = r * x ** int(e)
    return r


def homogeneous(z, patch):
    z = list(z)
    return z if patch is None else z[:patch] + [alg.ONE] + z[patch:]


def once(e, rows):
    """The vector e occurs exactly once among the rows."""
    hit = [z3.And(*[x == int(r) for x, r in zip(e, row)]) for row in rows]
    return z3.Sum(*[z3.If(h, 1, 0) for h in hit]) == 1


def run(ck):
    size(ck)
    complete(ck)
    evaluation(ck)


def size(ck):
    top = 9 if not ck.thorough else 14
    ck.bounds.append(f'size formula: dimension and degree 0..{top - 1}')
    n, d = ivar('n', 0, top), ivar('d', 0, top)
    comb = lambda n, k: math.comb(n, k)

    def o(a, out):
        n, d = (ENGINE.concretize(x) for x in a)
        return [Holds('number of monomials', out[0] == comb(n + d, n)), Holds('binomial coefficient', out[1] == comb(n + d, d))]
    ck.host('size formula', lambda n, d: (dn.monomial_basis_size(n, d), util.binomial(n + d, d)), (n, d), o)


def complete(ck):
    dims = [(n, d) for n in range(0, 5) for d in range(0, 5)] + [(1, 8), (2, 6), (5, 2)]
    if ck.thorough:
        dims += [(2, 7), (3, 6), (4, 5), (5, 3), (6, 2)]
    ck.bounds.append(f'basis listing: (dim_proj, degree) in {dims}, every exponent vector of that degree')
    for n, d in dims:
        ck.fresh()
        e = ivar('e', 0, d + 1, (n + 1,))
        rows = np.asarray(dn.monomial_basis(n, d))
        basis = dn.MonomialBasisFull(n, d)
        traced = d <= 3 and n <= 3

        def code(e):
            return (dn.monomial_basis(n, d) if traced else jnp.asarray(rows)), basis.power_matrix, jnp.asarray(basis.size)

        def o(a, out):
            e, (m, pm, size) = a[0], out
            goals = [Holds('shape', m.shape == (math.comb(n + d, d), n + 1) and pm.shape == m.shape),
                     Holds('size attribute', ENGINE.concretize(size[()]) == math.comb(n + d, d) == dn.monomial_basis_size(n, d))]
            if m.shape[1:] == (n + 1,) == pm.shape[1:]:
                goals += [Holds('every exponent vector occurs once', once(e, m)), Holds('in the power matrix, too', once(e, pm))]
            return goals
        ck.case(f'listing dim_proj={n} degree={d}', code, (e,), o, iassume=[z3.Sum(*[x for x in e.val]) == d])


def evaluation(ck):
    dims = [(1, 0), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (4, 1), (4, 2), (1, 6), (3, 3), (1, 8), (2, 4)]
    if ck.thorough:
        dims += [(2, 5), (3, 4), (4, 3), (5, 2)]
    ck.bounds.append(f'evaluation: (dim_proj, degree) in {dims}, every patch, arbitrary coordinates (non-zero ones for the logarithmic method)')
    for n, d in dims:
        B = dn.MonomialBasisFull(n, d)
        one(ck, f'sections dim_proj={n} degree={d}', B, n)
    # other sets of monomials: reduced basis
    for p, degs in ((geom.FERMAT3, (2, 3, 4)), (geom.QUADRIC, (2, 3))):
        v = geom.variety(p)
        for d in degs:
            B = dn.MonomialBasisReduced(v, d, [0.5 + 0.25j] * len(p.params))
            one(ck, f'reduced sections on {p.name} degree={d}', B, len(p.indices[0]) - 1)


def one(ck, name, B, n):
    pm = np.asarray(B.power_matrix)
    ref = lambda z, k: np.array([product(homogeneous(z, k), r) for r in pm], object)
    for pre in (True, False):
        tag = name if pre else name + ' (logarithmic)'
        ck.fresh()
        z, h, pt, zb = cvar('z', (n,)), cvar('h', (n + 1,)), ivar('p', 0, n + 1), cvar('w', (2, n))

        def code(z, h, pt, zb):
            return (B(z, pt, precompute=pre), B(h, None, precompute=pre), B(z, n, precompute=pre), B(z, 0, False, pre),
                    B(z.conj(), pt, conj=True, precompute=pre), B(zb, pt, precompute=pre))

        def o(a, out):
            z, h, pt, zb = a
            pt = ENGINE.concretize(pt[()])
            c = [x.conj() for x in z]
            return eqs('traced patch', out[0], ref(z, pt)) + eqs('homogeneous', out[1], ref(h, None)) + eqs('last patch', out[2], ref(z, n)) \
                + eqs('first patch', out[3], ref(z, 0)) \
                + eqs('conjugate coordinates', out[4], ref(c, pt)) + eqs('batch in one patch', out[5], np.array([ref(x, pt) for x in zb], object))
        ck.case(tag, code, (z, h, pt, zb), o)

        if n <= (2 if not ck.thorough else 4):
            ck.fresh()
            zb, pb = cvar('w', (2, n)), ivar('q', 0, n + 1, (2,))

            def o(a, out):
                zb, pb = a
                pb = [ENGINE.concretize(x) for x in pb]
                return eqs('batch', out, np.array([ref(x, k) for x, k in zip(zb, pb)], object))
            ck.case(tag + ' in several patches', lambda zb, pb: B(zb, pb, precompute=pre), (zb, pb), o)
