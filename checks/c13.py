"""Reduced monomial basis: monomials modulo the defining polynomial."""
import itertools
import math
import time
from fractions import Fraction
import numpy as np
import sympy
from symjax.engine import ENGINE
from symjax.smt import z3, STATS, Inconclusive
from symjax.harness import Holds, ivar
from checks import geom
from checks.geom import exponents
from checks.polys import P
from cyjax import donaldson as dn

QUINTIC = P('quintic', 'z0**5 + z1**5 + z2**5 + z3**5 + z4**5 - 5*psi*z0*z1*z2*z3*z4', [('z', [0, 1, 2, 3, 4])], ['psi'])


def trivial_kernel(rows, terms, degree):
    """No combination of the monomials `rows` is a non-zero multiple of the polynomial `terms` (exponent -> rational).

    Solver query over all combinations: the monomials outside `rows` have to cancel in q * p.
    """
    nvar = len(next(iter(terms)))
    m = sum(next(iter(terms)))
    if degree < m:
        return True
    keep = {tuple(r) for r in rows}
    aux = exponents(nvar, degree - m)
    y = [z3.Real(f'y{i}') for i in range(len(aux))]
    eq = {}
    for v, a in zip(y, aux):
        for e, c in terms.items():
            mono = tuple(i + j for i, j in zip(a, e))
            if mono not in keep:
                eq.setdefault(mono, []).append(v * z3.RealVal(str(Fraction(c))))
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', 60000)
    for t in eq.values():
        s.add(z3.Sum(*t) == 0)
    s.add(z3.Or(*[v != 0 for v in y]))
    t = time.time()
    r = s.check()
    STATS.add('combination', r, time.time() - t)
    if r == z3.unknown:
        raise Inconclusive('linear combination')
    return r == z3.unsat


def listing(rows, nvar, d):
    """Distinct monomials of the degree: solver query over all exponent vectors, plus the row sums."""
    if rows.ndim != 2 or rows.shape[1] != nvar:
        return False
    e = [z3.Int(f'e{i}') for i in range(nvar)]
    s = z3.Solver()
    s.add(z3.Sum(*[z3.If(z3.And(*[x == int(v) for x, v in zip(e, r)]), 1, 0) for r in rows]) > 1)
    t = time.time()
    r = s.check()
    STATS.add('duplicates', r, time.time() - t)
    if r == z3.unknown:
        raise Inconclusive('duplicates')
    return r == z3.unsat and all(min(x) >= 0 and sum(x) == d for x in rows.tolist())


def count(nvar, d, m):
    return math.comb(nvar - 1 + d, d) - (math.comb(nvar - 1 + d - m, nvar - 1) if d >= m else 0)


COEFFS = [[Fraction(k + 2, 2 * k + 3) for k in range(40)], [Fraction((-1) ** k * (3 * k + 1), k + 5) for k in range(40)],
          [Fraction(7 ** (k % 5) + k, 11 - 2 * k if 2 * k != 11 else 1) for k in range(40)]]


def goals(rows, pows, d):
    nvar, m = len(pows[0]), sum(pows[0])
    rows = np.asarray(rows)
    out = [Holds('number of elements', len(rows) == count(nvar, d, m)), Holds('distinct monomials of the degree', listing(rows, nvar, d))]
    if rows.ndim == 2 and rows.shape[1] == nvar:
        # coefficient values without non-trivial combination show the claim for generic coefficients
        out.append(Holds('no combination is a multiple of the polynomial (generic coefficients)',
                         any(trivial_kernel(rows, dict(zip(map(tuple, pows), c)), d) for c in COEFFS)))
    return out


def run(ck):
    # all supports with two or three terms
    for nvar, m, nterm, dtop in [(2, 2, 2, 4), (3, 2, 2, 3), (2, 3, 3, 4)] + ([(3, 2, 3, 4), (3, 3, 2, 5), (4, 2, 2, 4)] if ck.thorough else []):
        ex = exponents(nvar, m)
        k = [ivar(f'k{i}', 0, len(ex)) for i in range(nterm)]
        d = ivar('d', 0, dtop + 1)
        ck.bounds.append(f'every ordered choice of {nterm} monomials of degree {m} in {nvar} variables, basis degree 0..{dtop}')

        def pick(k):
            return [list(ex[int(i)]) for i in k]

        def o(a, out):
            *k, d = a
            return goals(out, pick([ENGINE.concretize(x) for x in k]), ENGINE.concretize(d))
        distinct = [a.val[()] != b.val[()] for a, b in itertools.combinations(k, 2)]
        if nterm > 2 and nvar > 2:      # the order beyond the first monomial is left to the pairs
            distinct += [a.val[()] < b.val[()] for a, b in zip(k[1:], k[2:])]
        ck.host(f'{nterm} monomials of degree {m} in {nvar} variables', lambda *a: dn.reduced_monomial_basis(a[-1], np.array(pick(a[:-1]))),
                (*k, d), o, iassume=distinct)

    # dense supports, leading monomial anywhere
    dense = [(2, 4, 6), (3, 2, 4), (3, 3, 4)] + ([(3, 3, 5), (4, 2, 4), (4, 3, 4), (5, 2, 3), (4, 4, 5)] if ck.thorough else [])
    for nvar, m, dtop in dense:
        ex = exponents(nvar, m)
        r, d = ivar('r', 0, len(ex)), ivar('d', 0, dtop + 1)
        ck.bounds.append(f'all monomials of degree {m} in {nvar} variables in any cyclic order, basis degree 0..{dtop}')

        def pick(r):
            return [list(e) for e in ex[r:] + ex[:r]]

        def o(a, out):
            r, d = (ENGINE.concretize(x) for x in a)
            return goals(out, pick(r), d)
        ck.host(f'all monomials of degree {m} in {nvar} variables', lambda r, d: dn.reduced_monomial_basis(d, np.array(pick(int(r)))), (r, d), o)

    # size formula (defining polynomial of degree dim + 1)
    top = 9
    n, d = ivar('n', 1, top), ivar('d', 0, top + 3)

    def o(a, out):
        n, d = (ENGINE.concretize(x) for x in a)
        return [Holds('size of the reduced basis', out == count(n + 1, d, n + 1))]
    ck.host('size formula', lambda n, d: dn.monomial_basis_size(n, d, True), (n, d), o)
    ck.bounds.append(f'size formula: dimension 1..{top - 1}, degree 0..{top + 2}')

    # bases for given moduli, where coefficients may vanish
    values = [Fraction(0), Fraction(1), Fraction(-3, 4)]
    cases = [(geom.CUBIC, 4), (geom.QUADRIC, 3), (P('conic', 'a*z0**2 + b*z1*z2 + z2**2', [('z', [0, 1, 2])], ['a', 'b']), 4),
             (P('line', 'a*z0 + b*z1 + z2', [('z', [0, 1, 2])], ['a', 'b']), 3), (geom.FERMAT3, 5), (geom.QUARTIC, 4), (QUINTIC, 5)]
    if ck.thorough:
        cases += [(geom.CUBIC, 6), (geom.CUBIC3, 4), (geom.QUARTIC, 5), (geom.FERMAT4, 4), (QUINTIC, 6)]
    for p, dtop in cases:
        v = geom.variety(p)
        nvar = len(p.indices[0])
        k = [ivar(f'k{i}', 0, len(values)) for i in range(len(p.params))]
        d = ivar('d', 0, dtop + 1)

        def par(k):
            return [values[int(i)] for i in k]

        def code(*a):
            B = dn.MonomialBasisReduced(v, int(a[-1]), [complex(x) for x in par(a[:-1])])
            return B.power_matrix, B.size, B.degree

        def o(a, out):
            *k, d = (ENGINE.concretize(x) for x in a)
            pm, size, deg = out
            z = [sympy.Symbol(f'z{i}') for i in range(nvar)]
            expr = sympy.sympify(p.text()).subs({sympy.Symbol(n): sympy.Rational(x.numerator, x.denominator) for n, x in zip(p.params, par(k))})
            terms = {e: Fraction(int(c.p), int(c.q)) for e, c in sympy.Poly(expr, *z).terms()}
            rows = np.asarray(pm)
            ok = rows.ndim == 2 and rows.shape[1] == nvar
            return [Holds('number of elements', size == len(rows) == count(nvar, d, sum(next(iter(terms))))), Holds('degree', deg == d),
                    Holds('distinct monomials of the degree', listing(rows, nvar, d)),
                    Holds('no combination is a multiple of the polynomial', ok and trivial_kernel(rows, terms, d))]
        ck.host(f'{p.name} with given moduli', code, (*k, d), o)
        ck.bounds.append(f'{p.name}: moduli in {[str(x) for x in values]}, basis degree 0..{dtop}')
