"""Varieties with symbolic coefficients and the objects on them, from their definitions."""
import itertools
import numpy as np
from symjax import alg
from symjax.alg import diff, var_of, lift
from checks.polys import P, build
from cyjax import polynomial as pm
from cyjax import variety as vr


def exponents(nvar, deg):
    if nvar == 1:
        return [(deg,)]
    return [(k,) + r for k in range(deg, -1, -1) for r in exponents(nvar - 1, deg - k)]


def generic(nvar, deg, drop=()):
    """Homogeneous polynomial with one parameter per monomial."""
    ex = [e for e in exponents(nvar, deg) if e not in drop]
    terms, params = [], []
    for k, e in enumerate(ex):
        params.append(f'c{k}')
        m = '*'.join(f'z{i}**{p}' if p > 1 else f'z{i}' for i, p in enumerate(e) if p)
        terms.append(f'c{k}*{m}')
    p = P(f'generic degree {deg} in {nvar} variables', ' + '.join(terms), [('z', list(range(nvar)))], params)
    p.exponents = ex
    return p


CUBIC = P('cubic', 'z0**3 + a*z1**3 + z2**3 - 3*psi*z0*z1*z2', [('z', [0, 1, 2])], ['psi', 'a'])
QUADRIC = P('quadric', 'z0**2 + a*z1**2 + z2*z3 - psi*z0*z1', [('z', [0, 1, 2, 3])], ['psi', 'a'])
CUBIC3 = P('cubic surface', 'z0**3 + a*z1**3 + z2**2*z3 - psi*z0*z1*z3', [('z', [0, 1, 2, 3])], ['psi', 'a'])
QUARTIC = P('quartic', 'z0**4 + z1**4 + z2**4 + z3**4 - 4*psi*z0*z1*z2*z3', [('z', [0, 1, 2, 3])], ['psi'])
# first parameter can be chosen to put a given point on the variety
CUBIC_C = P('cubic with free constant', 'c*z0*z1*z2 + z0**3 + a*z1**3 + z2**3', [('z', [0, 1, 2])], ['c', 'a'])
QUARTIC_C = P('quartic with free constant', 'c*z0*z1*z2*z3 + z0**4 + z1**4 + z2**4 + z3**4', [('z', [0, 1, 2, 3])], ['c'])
FERMAT3 = P('Fermat cubic', 'z0**3 + z1**3 + z2**3', [('z', [0, 1, 2])], [])
FERMAT4 = P('Fermat quartic', 'z0**4 + z1**4 + z2**4 + z3**4', [('z', [0, 1, 2, 3])], [])


def variety(p):
    return vr.VarietySingle(build(p, pm.HomPoly))


def affine_value(p, z, par, k):
    z = list(z)
    return p.ref([z if k is None else z[:k] + [alg.ONE] + z[k:]], par)


def gradient(p, z, par, k):
    """d Q / d z_i in patch k (k None: homogeneous)."""
    f = affine_value(p, z, par, k)
    return [diff(f, var_of(x)) for x in z]


def conj_gradient(p, c, par, k):
    """The same polynomial with conjugated coefficients at independent coordinates c."""
    f = affine_value(p, c, [x.conj() for x in par], k)
    return [diff(f, var_of(x)) for x in c]


def jacobian(grad, dep):
    n = len(grad)
    J = np.empty((n - 1, n), object)
    J[...] = alg.ZERO
    for r, i in enumerate(k for k in range(n) if k != dep):
        J[r, i] = alg.ONE
        J[r, dep] = -grad[i] / grad[dep]
    return J


def pull(J, g, Jc):
    m, n = J.shape
    out = np.empty((m, m), object)
    for i in range(m):
        for k in range(m):
            s = alg.ZERO
            for j in range(n):
                for l in range(n):
                    s = s + J[i, j] * g[j, l] * Jc[k, l]
            out[i, k] = s
    return out


def conj(a):
    out = np.empty(a.shape, object)
    for ix in np.ndindex(*a.shape):
        out[ix] = a[ix].conj()
    return out


def fs(z, c=None):
    c = [x.conj() for x in z] if c is None else c
    n = len(z)
    s = sum((x * y for x, y in zip(z, c)), alg.ONE)
    g = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            g[i, j] = ((s if i == j else alg.ZERO) - c[i] * z[j]) / (s * s)
    return g


def det(m):
    n = m.shape[0]
    if n == 0:
        return alg.ONE
    if n == 1:
        return m[0, 0]
    return sum(((-1) ** j * m[0, j] * det(np.delete(np.delete(m, 0, 0), j, 1)) for j in range(n)), alg.ZERO)
