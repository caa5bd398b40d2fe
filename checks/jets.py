"""Truncated power series around a point, as reference for derivatives.

A series is a dict {(a_1..a_n, b_1..b_n): F} in the displacements of the
coordinates (a) and of the conjugate coordinates (b); orders above (A, B) are
dropped.  Derivatives are read off the coefficients.
"""
import math
import numpy as np
from symjax import alg


class Ring:
    def __init__(self, n, A, B):
        self.n, self.A, self.B = n, A, B

    def const(self, x):
        return Series(self, {(0,) * (2 * self.n): x})

    def var(self, i, value, conj=False):
        s = self.const(value)
        e = [0] * (2 * self.n)
        e[i + (self.n if conj else 0)] = 1
        if (self.B if conj else self.A) > 0:
            s.c[tuple(e)] = alg.ONE
        return s

    def poly(self, terms, zs):
        """terms: [(coefficient, exponents)], zs series."""
        out = self.const(alg.ZERO)
        for c, ex in terms:
            t = self.const(c)
            for z, e in zip(zs, ex):
                for _ in range(e):
                    t = t * z
            out = out + t
        return out


class Series:
    def __init__(self, ring, c):
        self.ring, self.c = ring, {k: v for k, v in c.items() if not v.is_zero()}

    def __add__(self, o):
        r = dict(self.c)
        for k, v in o.c.items():
            r[k] = r[k] + v if k in r else v
        return Series(self.ring, r)

    def scale(self, x):
        return Series(self.ring, {k: v * x for k, v in self.c.items()})

    def __neg__(self):
        return self.scale(alg.lift(-1))

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        n, A, B = self.ring.n, self.ring.A, self.ring.B
        r = {}
        for k, v in self.c.items():
            for l, w in o.c.items():
                m = tuple(x + y for x, y in zip(k, l))
                if sum(m[:n]) > A or sum(m[n:]) > B:
                    continue
                t = v * w
                r[m] = r[m] + t if m in r else t
        return Series(self.ring, r)

    def at0(self):
        return self.c.get((0,) * (2 * self.ring.n), alg.ZERO)

    def inv(self):
        c0 = self.at0()
        u = self.scale(1 / c0) - self.ring.const(alg.ONE)
        out = t = self.ring.const(alg.ONE)
        for _ in range(self.ring.A + self.ring.B):
            t = -(t * u)
            out = out + t
        return out.scale(1 / c0)

    def log(self):
        """Without the constant term."""
        c0 = self.at0()
        u = self.scale(1 / c0) - self.ring.const(alg.ONE)
        out, t = self.ring.const(alg.ZERO), self.ring.const(alg.ONE)
        for k in range(1, self.ring.A + self.ring.B + 1):
            t = t * u
            out = out + t.scale(alg.lift((-1) ** (k + 1)) / k)
        return out

    def d(self, *idx):
        """Derivative at the point; indices i holomorphic, ~i antiholomorphic."""
        e = [0] * (2 * self.ring.n)
        for i in idx:
            e[i if i >= 0 else self.ring.n + ~i] += 1
        f = math.prod(math.factorial(x) for x in e)
        return self.c.get(tuple(e), alg.ZERO) * f

    def diff(self, i):
        """Derivative as a series (one order less is meaningful)."""
        j = i if i >= 0 else self.ring.n + ~i
        r = {}
        for k, v in self.c.items():
            if k[j]:
                m = list(k)
                m[j] -= 1
                r[tuple(m)] = v * k[j]
        return Series(self.ring, r)


def matmul(a, b):
    out = np.empty((a.shape[0], b.shape[1]), object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = a[i, 0] * b[0, j]
            for k in range(1, a.shape[1]):
                s = s + a[i, k] * b[k, j]
            out[i, j] = s
    return out


def sdet(m):
    if len(m) == 1:
        return m[0, 0]
    out = None
    for j in range(len(m)):
        t = m[0, j] * sdet(np.delete(np.delete(m, 0, 0), j, 1))
        t = -t if j % 2 else t
        out = t if out is None else out + t
    return out


class Geometry:
    """Expansion of the algebraic metric around a point, from its definition."""

    def __init__(self, p, exponents, h, z, par, k, dep=None, orders=(2, 2)):
        """p: defining polynomial with z-exponents, exponents: of the sections (homogeneous),
        h: matrix or vector, z: affine coordinates, k: patch, dep: dependent index."""
        n = len(z)
        self.n = n
        A, B = orders
        R = self.ring = Ring(n, A, B)
        zs = [R.var(i, z[i]) for i in range(n)]
        cs = [R.var(i, z[i].conj(), True) for i in range(n)]
        self.zs, self.cs = zs, cs
        aff = [tuple(e[:k]) + tuple(e[k + 1:]) for e in exponents]
        self.s = [R.poly([(alg.ONE, e)], zs) for e in aff]
        sc = [R.poly([(alg.ONE, e)], cs) for e in aff]
        psi = R.const(alg.ZERO)
        for a in range(len(aff)):
            for b in range(len(aff)):
                if np.ndim(h) == 1 and a != b:
                    continue
                psi = psi + (self.s[a] * sc[b]).scale(h[a] if np.ndim(h) == 1 else h[a, b])
        self.psi = psi
        self.degree = sum(exponents[0])
        self.scale = 1 / (alg.PI() * self.degree)
        self._p, self._par, self._k, self._dep, self._z = p, par, k, dep, z

    def __getattr__(self, name):
        if name == 'K':                     # without the constant log psi(z)
            v = self.psi.log()
            v = v.scale(self.scale)
        elif name == 'g':                   # ambient metric
            v = np.empty((self.n, self.n), object)
            for i in range(self.n):
                for j in range(self.n):
                    v[i, j] = self.K.diff(i).diff(~j)
        elif name == 'J':
            v = self._jac(self._grad(self._par, self.zs))
        elif name == 'Jc':
            v = self._jac(self._grad([x.conj() for x in self._par], self.cs))
        elif name == 'gl':
            v = matmul(matmul(self.J, self.g), self.Jc.T)
        else:
            raise AttributeError(name)
        self.__dict__[name] = v
        return v

    def _grad(self, par, zs):
        """Gradient of the defining polynomial along the series zs."""
        x = [alg.complex_var('x') for _ in range(self.n)]
        q = affine(self._p, x, par, self._k)
        out = []
        for i in range(self.n):
            f = alg.diff(q, alg.var_of(x[i]))
            out.append(self._series(f, x, zs))
        return out

    def _series(self, f, x, zs):
        """Polynomial f in the variables x, with the series zs inserted."""
        vid = [alg.var_of(v) for v in x]
        R = self.ring
        terms = {}
        for m, c in f.num.items():
            ex = tuple((m >> (alg.BITS * v)) & alg.FIELD for v in vid)
            rest = m - sum(e << (alg.BITS * v) for e, v in zip(ex, vid))
            terms.setdefault(ex, {})[rest] = c
        out = R.const(alg.ZERO)
        den = alg.F({0: 1}, f.den, f.fac)
        for ex, num in terms.items():
            out = out + R.poly([(alg.F(num) * den, ex)], zs)
        return out

    def _jac(self, G):
        n, d = self.n, self._dep
        J = np.empty((n - 1, n), object)
        inv = G[d].inv()
        for r, i in enumerate(k for k in range(n) if k != d):
            for j in range(n):
                J[r, j] = self.ring.const(alg.ONE if i == j else alg.ZERO)
            J[r, d] = -(G[i] * inv)
        return J


def affine(p, z, par, k):
    z = list(z)
    return p.ref([z[:k] + [alg.ONE] + z[k:]], par)
