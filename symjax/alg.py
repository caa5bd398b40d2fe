"""Exact algebra for symbolic execution.

Elements are fractions of polynomials with integer coefficients in formal
variables.  A polynomial is a dict {packed monomial: int}; a monomial packs one
8 bit exponent per variable into a Python integer, so monomial products are
integer additions.  Complex inputs are pairs of formal variables (z, zbar)
exchanged by conjugation; `i` and square roots are variables with a rewriting
rule for their square; logarithms, exponentials, ... are atoms with an argument.
"""
from __future__ import annotations

import cmath
import math
import random
from fractions import Fraction
from math import gcd

BITS = 8
FIELD = (1 << BITS) - 1


class Undefined(Exception):
    """Raised for operations without a finite value (division by zero, log 0)."""


class Unsupported(Exception):
    """The symbolic executor has no encoding for this construct."""


class Var:
    __slots__ = ('id', 'name', 'kind', 'conj', 'data', 'num', 'pos', 'sq', 'shift')

    def __init__(self, id, name, kind):
        self.id, self.name, self.kind = id, name, kind
        self.shift = id * BITS
        self.conj = id
        self.data = None
        self.num = None
        self.pos = False
        self.sq = None


VARS: list[Var] = []
SPEC = 0           # mask: bit 1 of exponent of variables whose square is rewritten
SPECVARS: list[Var] = []
GUARD = 0
FAC: list[dict] = []
FACKEY: dict = {}
FACCONJ: dict = {}
ATOMS: dict = {}
_SNAP: dict = {}
_rng = random.Random(12345)
EPOCH = 0


def reset(seed=12345):
    global SPEC, GUARD, EPOCH
    EPOCH += 1
    VARS.clear()
    SPECVARS.clear()
    FAC.clear()
    FACKEY.clear()
    FACCONJ.clear()
    ATOMS.clear()
    _SNAP.clear()
    SPEC = 0
    GUARD = 0
    _rng.seed(seed)
    v = _new('I', 'I')
    v.num = 1j
    v.sq = {0: -1}
    _special(v)
    v = _new('PI', 'const')
    v.num = math.pi
    v.pos = True


def _new(name, kind):
    global GUARD
    v = Var(len(VARS), name, kind)
    VARS.append(v)
    GUARD |= 1 << (v.shift + BITS - 1)
    return v


def _special(v):
    global SPEC
    SPEC |= 2 << v.shift
    SPECVARS.append(v)


# ----------------------------------------------------------------- polynomials

def mono(vid, e=1):
    return e << (vid * BITS)


def mono_vars(m):
    """List of (vid, exp)."""
    out = []
    i = 0
    while m:
        e = m & FIELD
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
        if m and not (m & FIELD):
            # skip runs of zero fields quickly
            tz = (m & -m).bit_length() - 1
            k = tz // BITS
            m >>= k * BITS
            i += k
    return out


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s += c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pneg(a):
    return {m: -c for m, c in a.items()}


MAXTERMS = 400000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) == 1:
        (m1, c1), = a.items()
        if m1 == 0:
            return pscale(b, c1)
    r = {}
    slow = None
    spec = SPEC
    get = r.get
    if len(a) * len(b) > 60_000_000:
        raise Unsupported('polynomial product too large')
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            if m & spec:
                if slow is None:
                    slow = {}
                slow[m] = slow.get(m, 0) + c1 * c2
            else:
                r[m] = get(m, 0) + c1 * c2
        if len(r) > MAXTERMS:
            raise Unsupported('polynomial too large')
    r = {m: c for m, c in r.items() if c}
    if slow:
        groups = {}
        for m, c in slow.items():
            if not c:
                continue
            s = m & spec
            m0 = m - s
            groups.setdefault(s, {})[m0] = c
        for s, p in groups.items():
            mult = _spec_square(s)
            r = padd(r, pmul(p, mult))
    return r


_SQCACHE = {}


def _spec_square(s):
    """Polynomial equal to the product of squares selected by mask s."""
    p = {0: 1}
    for v in SPECVARS:
        if s & (2 << v.shift):
            p = pmul(p, v.sq)
    return p


def ppow(a, n):
    r = {0: 1}
    base = a
    while n:
        if n & 1:
            r = pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


def pconj(a):
    """Complex conjugate: I -> -I, variables to partners."""
    out = {}
    for m, c in a.items():
        mm = 0
        sg = 1
        for vid, e in mono_vars(m):
            if vid == 0:
                sg = -1 if e & 1 else 1
                mm += e
            else:
                mm += e << (VARS[vid].conj * BITS)
        out[mm] = out.get(mm, 0) + sg * c
    return out


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pvars(a):
    m = 0
    for k in a:
        m |= k
    return [v for v, _ in mono_vars(m)]


def min_exp(a, vid):
    sh = vid * BITS
    lo = None
    for m in a:
        e = (m >> sh) & FIELD
        if lo is None or e < lo:
            lo = e
            if lo == 0:
                return 0
    return lo or 0


def divides(d, m):
    """Monomial d divides monomial m."""
    g = GUARD
    return ((m | g) - d) & g == g


def pdivexact(a, d, limit=20000):
    """a / d if exact in the plain polynomial ring, else None."""
    if len(d) == 1:
        (dm, dc), = d.items()
        out = {}
        for m, c in a.items():
            if not divides(dm, m) or c % dc:
                return None
            out[m - dm] = c // dc
        return out
    hi, lo = max(d), min(d)
    if not divides(hi, max(a)) or not divides(lo, min(a)):
        return None
    if a[max(a)] % d[hi] or a[min(a)] % d[lo]:
        return None
    if len(a) > limit:
        return None
    # cheap filter: degrees in every variable
    import heapq
    rem = dict(a)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    dl = d[hi]
    rest = [(m, c) for m, c in d.items() if m != hi]
    steps = 0
    while heap:
        m = -heapq.heappop(heap)
        c = rem.get(m)
        if not c:
            continue
        if not divides(hi, m) or c % dl:
            return None
        steps += 1
        if steps > len(a) + 5:
            return None
        qm, qc = m - hi, c // dl
        q[qm] = qc
        del rem[m]
        for m2, c2 in rest:
            k = m2 + qm
            o = rem.get(k)
            if o is None:
                rem[k] = -c2 * qc
                heapq.heappush(heap, -k)
            else:
                o -= c2 * qc
                rem[k] = o
    return q


def peval(a, vals):
    """Numeric value; vals: vid -> complex (callable)."""
    tot = 0
    cache = {}
    for m, c in a.items():
        t = c
        for vid, e in mono_vars(m):
            k = (vid, e)
            p = cache.get(k)
            if p is None:
                p = vals(vid) ** e
                cache[k] = p
            t = t * p
        tot = tot + t
    return tot


def fac_id(p):
    key = frozenset(p.items())
    f = FACKEY.get(key)
    if f is None:
        f = len(FAC)
        FAC.append(p)
        FACKEY[key] = f
    return f


def fac_conj(f):
    r = FACCONJ.get(f)
    if r is None:
        p = pconj(FAC[f])
        s = 1
        if p[max(p)] < 0:
            p = pneg(p)
            s = -1
        r = (fac_id(p), s)
        FACCONJ[f] = r
    return r


# ------------------------------------------------------------------- fractions

class F:
    """num / (den * prod(FAC[f]**e))"""
    __slots__ = ('num', 'den', 'fac')

    def __init__(self, num, den=1, fac=()):
        self.num, self.den, self.fac = num, den, fac

    # -- predicates
    def is_zero(self):
        return not self.num

    def const(self):
        """Rational value if constant, else None."""
        if not self.num:
            return Fraction(0)
        if not self.fac and len(self.num) == 1:
            (m, c), = self.num.items()
            if m == 0:
                return Fraction(c, self.den)
        return None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self)

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not self.num:
            return o
        if not o.num:
            return self
        if self.fac == o.fac:
            if self.den == o.den:
                return _norm(padd(self.num, o.num), self.den, self.fac)
            g = gcd(self.den, o.den)
            return _norm(padd(pscale(self.num, o.den // g), pscale(o.num, self.den // g)),
                         self.den // g * o.den, self.fac)
        fa, fb = dict(self.fac), dict(o.fac)
        al = {f: max(fa.get(f, 0), fb.get(f, 0)) for f in {**fa, **fb}}
        g = gcd(self.den, o.den)
        na = pscale(self.num, o.den // g)
        nb = pscale(o.num, self.den // g)
        for f, e in al.items():
            k = e - fa.get(f, 0)
            if k:
                na = pmul(na, ppow(FAC[f], k))
            k = e - fb.get(f, 0)
            if k:
                nb = pmul(nb, ppow(FAC[f], k))
        return _norm(padd(na, nb), self.den // g * o.den, tuple(sorted(al.items())))

    __radd__ = __add__

    def __neg__(self):
        return F(pneg(self.num), self.den, self.fac)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not self.num or not o.num:
            return ZERO
        a, b = self, o
        if not a.fac and not b.fac:
            den = a.den * b.den
            num = pmul(a.num, b.num)
            return _norm(num, den, ())
        an, af = _cross_cancel(a.num, b.fac)
        bn, bf = _cross_cancel(b.num, a.fac)
        fac = dict(bf)
        for f, e in af:
            fac[f] = fac.get(f, 0) + e
        return _norm(pmul(an, bn), a.den * b.den, tuple(sorted(fac.items())), deep=False)

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise Undefined('division by zero')
        num, den, fac = self.num, self.den, self.fac
        # new numerator: den * prod fac ; new denominator: num
        top = {0: den}
        for f, e in fac:
            top = pmul(top, ppow(FAC[f], e))
        # constant Gaussian denominators become rational
        if all(m <= 1 for m in num):
            re, im = num.get(0, 0), num.get(1, 0)
            n2 = re * re + im * im
            conj = {m: c for m, c in ((0, re), (1, -im)) if c}
            return _norm(pmul(top, conj), n2, ())
        d, nf, unit = factor_simple(num)
        if unit is not None:
            top = pmul(top, unit)
        if d < 0:
            top, d = pneg(top), -d
        return _norm(top, d, nf)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if not o.num:
            raise Undefined('division by zero')
        if not self.num:
            return ZERO
        if self is o:
            return ONE
        c = o.const()
        if c is not None:
            num = pscale(self.num, c.denominator)
            k = c.numerator
            if k < 0:
                num, k = pneg(num), -k
            return _norm(num, self.den * k, self.fac, deep=False)
        # cancel identical denominators first
        if o.fac and self.fac:
            fa, fb = dict(self.fac), dict(o.fac)
            common = {f: min(fa[f], fb[f]) for f in fa if f in fb}
            if common:
                a = F(self.num, self.den, tuple((f, e - common.get(f, 0)) for f, e in self.fac if e > common.get(f, 0)))
                b = F(o.num, o.den, tuple((f, e - common.get(f, 0)) for f, e in o.fac if e > common.get(f, 0)))
                return a * b.inv()
        return self * o.inv()

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, n):
        if isinstance(n, F):
            c = n.const()
            if c is None or c.denominator != 1:
                raise Unsupported('symbolic power')
            n = int(c)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        n = int(n)
        if n == 0:
            return ONE
        if n < 0:
            return (self ** (-n)).inv()
        if n == 1:
            return self
        fac = tuple((f, e * n) for f, e in self.fac)
        return _norm(ppow(self.num, n), self.den ** n, fac, deep=False)

    def conj(self):
        num = pconj(self.num)
        fac = {}
        s = 1
        for f, e in self.fac:
            g, sg = fac_conj(f)
            fac[g] = fac.get(g, 0) + e
            if e & 1:
                s *= sg
        if s < 0:
            num = pneg(num)
        return F(num, self.den, tuple(sorted(fac.items())))

    conjugate = conj

    @property
    def real(self):
        return (self + self.conj()) / 2

    @property
    def imag(self):
        return (self - self.conj()) / (2 * I_)

    def same(self, o):
        """Exact equality (cross multiplication)."""
        o = lift(o)
        if self is o:
            return True
        if self.fac == o.fac and self.den == o.den:
            return self.num == o.num
        return (self - o).is_zero()

    def is_real(self):
        return self.same(self.conj())

    def nterms(self):
        return len(self.num)

    def __abs__(self):
        return fabs(self)


def _cross_cancel(num, fac):
    """Cancel num against denominators of the other operand."""
    if not fac:
        return num, fac
    out = []
    for f, e in fac:
        p = FAC[f]
        while e > 0:
            if len(p) == 1:
                (dm, _), = p.items()
                if all(divides(dm, m) for m in num):
                    num = {m - dm: c for m, c in num.items()}
                    e -= 1
                    continue
                break
            if len(num) < len(p) and len(num) < 2:
                break
            q = pdivexact(num, p)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return num, out


def factor_simple(num):
    """num = d * prod(factors); returns (d, facs, unit polynomial multiplying the inverse)."""
    d = pcontent(num)
    if num[max(num)] < 0:
        d = -d
    p = num if d == 1 else {m: c // d for m, c in num.items()}
    fac = {}
    unit = None
    common = None
    for m in p:
        if common is None:
            common = dict(mono_vars(m))
        else:
            for vid in list(common):
                e = (m >> (vid * BITS)) & FIELD
                if e < common[vid]:
                    if e:
                        common[vid] = e
                    else:
                        del common[vid]
        if not common:
            break
    if common:
        mm = sum(e << (v * BITS) for v, e in common.items())
        p = {m - mm: c for m, c in p.items()}
        for v, e in common.items():
            if v == 0:  # 1/I = -I
                unit = pmul(unit or {0: 1}, {1: -1})
                continue
            var = VARS[v]
            if var.sq is not None:
                # 1/A = A / A^2
                unit = pmul(unit or {0: 1}, {mono(v): 1})
                d2, f2, u2 = factor_simple(var.sq)
                d *= d2
                for f, k in f2:
                    fac[f] = fac.get(f, 0) + k
                if u2 is not None:
                    unit = pmul(unit, u2)
                continue
            f = fac_id({mono(v): 1})
            fac[f] = fac.get(f, 0) + e
    if p != {0: 1}:
        f = fac_id(p)
        fac[f] = fac.get(f, 0) + 1
    return d, tuple(sorted(fac.items())), unit


def _norm(num, den, fac, deep=True):
    if not num:
        return ZERO
    if den < 0:
        num, den = pneg(num), -den
    if den != 1:
        g = den
        for c in num.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g != 1:
            num = {m: c // g for m, c in num.items()}
            den //= g
    if fac:
        num, fac = _cross_cancel(num, fac)
        fac = tuple(fac)
    return F(num, den, fac)


ZERO = F({}, 1, ())
ONE = F({0: 1}, 1, ())
I_ = F({1: 1}, 1, ())


def PI():
    return F({mono(1): 1}, 1, ())


def from_fraction(q):
    q = Fraction(q)
    if q == 0:
        return ZERO
    return F({0: q.numerator}, q.denominator, ())


def snap_real(x):
    """Exact value of a float literal: small rational times a power of pi if it is one."""
    x = float(x)
    r = _SNAP.get(x)
    if r is not None:
        return r
    r = _snap_real(x)
    _SNAP[x] = r
    return r


def _snap_real(x):
    if x == 0:
        return ZERO
    if x != x or x in (math.inf, -math.inf):
        raise Undefined('non-finite constant')
    if x == int(x) and abs(x) < 2 ** 53:
        return from_fraction(int(x))
    q = Fraction(x)
    if q.denominator <= 4096:
        return from_fraction(q)
    for k in (0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5):
        y = x / math.pi ** k
        f = Fraction(y).limit_denominator(3000)
        if f and abs(float(f) - y) <= 3e-15 * abs(y):
            r = from_fraction(f)
            if k > 0:
                r = r * F({mono(1, k): 1})
            elif k < 0:
                r = r / F({mono(1, -k): 1})
            return r
    # square roots of small rationals
    f = Fraction(x * x).limit_denominator(300)
    if f and abs(math.sqrt(f) - abs(x)) <= 3e-16 * abs(x) and f.numerator < 300:
        r = fsqrt(from_fraction(f))
        return r if x > 0 else -r
    return from_fraction(q)


def lift(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return F({0: x}) if x else ZERO
    if isinstance(x, Fraction):
        return from_fraction(x)
    if isinstance(x, float):
        return snap_real(x)
    if isinstance(x, complex):
        r = snap_real(x.real)
        if x.imag:
            r = r + I_ * snap_real(x.imag)
        return r
    try:
        import numpy as np
        if isinstance(x, np.generic) or (isinstance(x, np.ndarray) and x.ndim == 0):
            return lift(x.item())
    except ImportError:
        pass
    return NotImplemented


# --------------------------------------------------------------------- inputs

def real_var(name, pos=False):
    v = _new(name, 'real')
    v.pos = pos
    x = _rng.uniform(0.3, 2.0)
    v.num = x if pos or _rng.random() < 0.5 else -x
    return F({mono(v.id): 1})


def complex_var(name):
    v = _new(name, 'cplx')
    w = _new(name + '~', 'cplxc')
    v.conj, w.conj = w.id, v.id
    v.num = complex(_rng.uniform(-1.5, 1.5), _rng.uniform(-1.5, 1.5))
    w.num = v.num.conjugate()
    return F({mono(v.id): 1})


def var_of(f):
    """Variable id of a bare variable."""
    (m, c), = f.num.items()
    (vid, e), = mono_vars(m)
    assert c == 1 and e == 1 and f.den == 1 and not f.fac
    return vid


# ---------------------------------------------------------------------- atoms

def numval(f, vals=None):
    """Numeric value of f; vals: vid -> number for base variables (default fingerprints)."""
    if vals is None:
        get = _fingerprint
    else:
        cache = {}

        def get(vid):
            if vid in cache:
                return cache[vid]
            if vid in vals:
                r = vals[vid]
            else:
                r = atom_value(VARS[vid], get)
            cache[vid] = r
            return r
    return _fvalue(f, get)


def _fvalue(f, get):
    n = peval(f.num, get)
    d = f.den
    for fi, e in f.fac:
        d = d * peval(FAC[fi], get) ** e
    try:
        return n / d
    except ZeroDivisionError:
        return float('nan')


def _fingerprint(vid):
    v = VARS[vid]
    if v.num is None:
        v.num = atom_value(v, _fingerprint)
    return v.num


def atom_value(v, get):
    k = v.kind
    if k in ('I',):
        return 1j
    if v.name == 'PI':
        return math.pi
    if k == 'sqrt':
        x = peval(v.sq, get)
        if isinstance(x, complex) and abs(x.imag) < 1e-9 * (1 + abs(x)) and x.real >= 0:
            x = x.real
        try:
            return cmath.sqrt(x) if isinstance(x, complex) or x < 0 else math.sqrt(x)
        except OverflowError:
            return math.sqrt(float(x))
    if k == 'fn':
        name, args = v.data
        xs = [_fvalue(a, get) for a in args]
        return fn_value(name, xs)
    if k == 'fnc':  # conjugate partner of a fn atom
        r = get(v.conj)
        return r.conjugate() if isinstance(r, complex) else r
    if k in ('cplxc',):
        return complex(get(v.conj)).conjugate()
    raise KeyError(v.name)


def _c(x):
    return complex(x)


def fn_value(name, xs):
    import math as m
    try:
        if name == 'val':
            return xs[0]
        if name == 'modulus':
            return abs(_c(xs[0]))
        if name == 'log':
            return cmath.log(_c(xs[0]))
        if name == 'exp':
            return cmath.exp(_c(xs[0]))
        if name == 'cos':
            return cmath.cos(_c(xs[0]))
        if name == 'sin':
            return cmath.sin(_c(xs[0]))
        if name == 'atan2':
            return m.atan2(_c(xs[0]).real, _c(xs[1]).real)
        if name == 'f32':
            import numpy as np
            z = np.complex64(xs[0])
            return complex(z)
        if name == 'pow':
            return _c(xs[0]) ** _c(xs[1])
        if name == 'floor':
            return m.floor(_c(xs[0]).real)
        if name == 'ceil':
            return m.ceil(_c(xs[0]).real)
        if name == 'round':
            return round(_c(xs[0]).real)
        if hasattr(cmath, name):
            return getattr(cmath, name)(_c(xs[0]))
        if hasattr(m, name):
            return getattr(m, name)(*[_c(x).real for x in xs])
    except (ValueError, OverflowError, ZeroDivisionError):
        return float('nan')
    # opaque function: deterministic pseudo-random value of the fingerprint of its arguments
    h = random.Random(repr((name, [f'{_c(x):.6g}' for x in xs])))
    return h.uniform(-1, 1)


def close(a, b, tol=1e-7):
    a, b = complex(a), complex(b)
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def fn_atom(name, *args, real=None, pos=False):
    """Atom name(args); reused for equal arguments."""
    args = [lift(a) for a in args]
    if real is None:
        real = all(a.is_real() for a in args)
    nv = [numval(a) for a in args]
    lst = ATOMS.setdefault(name, [])
    for v, a2, n2 in lst:
        if all(close(x, y) for x, y in zip(nv, n2)) and all(x.same(y) for x, y in zip(args, a2)):
            return F({mono(v.id): 1})
    v = _new(f'{name}#{len(lst)}', 'fn')
    v.data = (name, args)
    v.pos = pos
    lst.append((v, args, nv))
    if not real:
        ca = [a.conj() for a in args]
        cn = [numval(a) for a in ca]
        w = _new(f'{name}#{len(lst)}', 'fn')
        w.data = (name, ca)
        v.conj, w.conj = w.id, v.id
        lst.append((w, ca, cn))
    return F({mono(v.id): 1})


def fsize(f):
    return len(f.num) + sum(len(FAC[fi]) for fi, _ in f.fac)


def abbreviate(f):
    """A variable standing for f.  What is shown for the variable holds for f."""
    return fn_atom('val', f)


def fresh_fn(name):
    """A free function value (real)."""
    return real_var(name)


def isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def squarefree_int(n):
    """n = s^2 * r."""
    s, r = 1, 1
    p = 2
    while p * p <= n and p < 2000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        s *= p ** (e // 2)
        if e & 1:
            r *= p
        p += 1
    q = isqrt_exact(n)
    if q is not None:
        s *= q
    else:
        r *= n
    return s, r


def sqrt_atom(poly):
    """Atom for the square root of a primitive polynomial."""
    key = ('sqrt', frozenset(poly.items()))
    v = ATOMS.get(key)
    if v is None:
        v = _new(f'sqrt#{len(VARS)}', 'sqrt')
        v.sq = poly
        ATOMS[key] = v
        pc = pconj(poly)
        if pc == poly:
            v.pos = True  # real, non-negative where it is used
        else:
            w = _new(f'sqrt#{len(VARS)}', 'sqrt')
            w.sq = pc
            ATOMS[('sqrt', frozenset(pc.items()))] = w
            v.conj, w.conj = w.id, v.id
            _special(w)
        _special(v)
    return F({mono(v.id): 1})


def var_pos(vid):
    return VARS[vid].pos


def fsqrt(f):
    """Principal square root."""
    f = lift(f)
    if not f.num:
        return ZERO
    # sqrt(N / (d * prod p^e)) = sqrt(N * d * prod p^(e mod 2)) / (d * prod p^ceil(e/2))
    # valid if the halves that are pulled out are positive; otherwise keep as one atom
    num = pscale(f.num, f.den)
    out = from_fraction(Fraction(1, f.den))
    for fi, e in f.fac:
        p = FAC[fi]
        if e & 1:
            num = pmul(num, p)
            e += 1
        half = F({0: 1}, 1, ((fi, e // 2),))
        if (e // 2) & 1 and not known_nonneg(p):
            # sqrt(x / p^2) = sqrt(x)/|p|
            half = fabs(half)
        out = out * half
    c = pcontent(num)
    if c != 1:
        num = {m: k // c for m, k in num.items()}
    s, r = squarefree_int(c)
    out = out * s
    # monomial content
    vs = pvars(num)
    rest = num
    for vid in vs:
        v = VARS[vid]
        e = min_exp(rest, vid)
        if not e or vid == 0:
            continue
        if v.conj == vid and v.sq is None:
            if e >= 2:
                h = e // 2
                rest = {m - mono(vid, 2 * h): k for m, k in rest.items()}
                b = F({mono(vid): 1})
                b = b if v.pos else fabs(b)
                out = out * b ** h
    # z^e * zbar^e pairs: sqrt(|z|^2e) = |z|^e
    for vid in vs:
        v = VARS[vid]
        if v.conj > vid and v.conj in vs:
            e = min(min_exp(rest, vid), min_exp(rest, v.conj))
            if e:
                mm = mono(vid, e) + mono(v.conj, e)
                rest = {m - mm: k for m, k in rest.items()}
                out = out * abs_var(vid) ** e
    if rest == {0: 1} or rest == {0: -1}:
        if r != 1:
            out = out * sqrt_atom({0: r})
        if rest == {0: -1}:
            out = out * I_
        return out
    # perfect squares: P = Q * conj(Q) with known Q
    a = _known_abs(rest)
    if a is not None:
        if r != 1:
            a = a * sqrt_atom({0: r})
        return out * a
    if r != 1:
        rest = pscale(rest, r)
    return out * sqrt_atom(rest)


def abs_var(vid):
    """|v| for a complex variable, as atom with |v|^2 = v vbar."""
    v = VARS[vid]
    lo, hi = min(v.id, v.conj), max(v.id, v.conj)
    key = ('absv', lo)
    a = ATOMS.get(key)
    if a is None:
        a = _new(f'abs({VARS[lo].name})', 'sqrt')
        a.sq = {mono(lo) + mono(hi): 1}
        a.pos = True
        ATOMS[key] = a
        _special(a)
    return F({mono(a.id): 1})


_ABSKNOWN: dict = {}


def _known_abs(p):
    """Modulus atom registered for a polynomial p = q * conj(q)."""
    return ATOMS.get(('absq', frozenset(p.items())))


def known_nonneg(p):
    """Syntactic: polynomial is a sum of squares / products of positive variables."""
    if pconj(p) != p:
        return False
    for m, c in p.items():
        if c < 0:
            return False
        for vid, e in mono_vars(m):
            v = VARS[vid]
            if vid == 0:
                return False
            if v.pos:
                continue
            if v.conj == vid:
                if e & 1:
                    return False
            else:
                if ((m >> (v.conj * BITS)) & FIELD) != e:
                    return False
    return True


def fabs(f):
    """Modulus (complex) or absolute value (real); multiplicative."""
    f = lift(f)
    c = f.const()
    if c is not None:
        return from_fraction(abs(c))
    out = from_fraction(Fraction(1, f.den))
    for fi, e in f.fac:
        d, fac, unit = factor_abs(FAC[fi])
        out = out / from_fraction(Fraction(abs(d))) ** e
        for p, k in fac:
            out = out / _abs_poly(p) ** (e * k)
    d, fac, unit = factor_abs(f.num)
    out = out * abs(d)
    for p, e in fac:
        out = out * _abs_poly(p) ** e
    return out


def factor_abs(num):
    d = pcontent(num)
    p = num if d == 1 else {m: c // d for m, c in num.items()}
    fac = []
    for vid in pvars(p):
        e = min_exp(p, vid)
        if e:
            p = {m - mono(vid, e): c for m, c in p.items()}
            if vid:
                fac.append(({mono(vid): 1}, e))
    p = _split(p, fac)
    if p not in ({0: 1}, {0: -1}):
        fac.append((p, 1))
    return d, fac, None


def _split(p, fac):
    """Divide by pieces that occur as denominators, which are added to fac."""
    if not 1 < len(p) <= 20000:
        return p
    for q in sorted((q for q in FAC if 1 < len(q) <= len(p)), key=len):
        e = 0
        while len(p) > 1:
            r = pdivexact(p, q)
            if r is None:
                break
            p, e = r, e + 1
        if e:
            fac.append((q, e))
    return p


def _abs_poly(p):
    if len(p) == 1:
        (m, c), = p.items()
        out = lift(abs(c))
        for vid, e in mono_vars(m):
            v = VARS[vid]
            if vid == 0:
                continue
            if v.pos:
                out = out * F({mono(vid): 1}) ** e
            elif v.conj == vid:
                out = out * real_abs({mono(vid): 1}) ** e
            else:
                out = out * abs_var(vid) ** e
        return out
    # factor out known pieces is not attempted; |p| with |p|^2 = p * conj p
    if known_nonneg(p):
        return F(p)
    if known_nonneg(pneg(p)):
        return F(pneg(p))
    if pconj(p) == p:
        return real_abs(p)
    sq = pmul(p, pconj(p))
    if len(sq) == 1:
        return fsqrt(F(sq))
    key = ('absq', frozenset(sq.items()))
    a = ATOMS.get(key)
    if a is None:
        v = _new(f'abs#{len(VARS)}', 'sqrt')
        v.sq = sq
        v.pos = True
        _special(v)
        a = F({mono(v.id): 1})
        ATOMS[key] = a
    return a


def real_abs(p):
    """|p| for a real polynomial of unknown sign: atom with square p^2."""
    if p[max(p)] < 0:
        p = pneg(p)
    key = ('rabs', frozenset(p.items()))
    a = ATOMS.get(key)
    if a is None:
        v = _new(f'rabs#{len(VARS)}', 'sqrt')
        v.sq = pmul(p, p)
        v.pos = True
        _special(v)
        a = F({mono(v.id): 1})
        ATOMS[key] = a
    return a


def _terms(f):
    """Split f into sum of monomial fractions [(coef, monomial, fac)]."""
    return [(Fraction(c, f.den), m, f.fac) for m, c in f.num.items()]


def flog(f):
    f = lift(f)
    c = f.const()
    if c is not None:
        if c == 0:
            raise Undefined('log 0')
        if c == 1:
            return ZERO
        if c > 0 and c < 1:
            return -flog(1 / f)
        if c < 0:
            return flog(-f) + I_ * PI()
    if len(f.num) == 1 and not f.fac and f.den == 1:
        (m, c), = f.num.items()
        mv = mono_vars(m)
        if c == 1 and len(mv) == 1:
            v = VARS[mv[0][0]]
            if v.kind == 'fn' and v.data[0] == 'exp' and mv[0][1] == 1 and v.conj == v.id:
                return v.data[1][0]
    # positive monomials split
    def all_pos(p):
        return len(p) == 1 and all(VARS[v].pos for v, _ in mono_vars(next(iter(p)))) and next(iter(p.values())) > 0
    if all_pos(f.num) and all(all_pos(FAC[fi]) for fi, _ in f.fac):
        (m, c), = f.num.items()
        mv = dict(mono_vars(m))
        for fi, e in f.fac:
            (mm, _), = FAC[fi].items()
            for v, k in mono_vars(mm):
                mv[v] = mv.get(v, 0) - k * e
        if len(mv) + (Fraction(c, f.den) != 1) > 1 or any(e != 1 for e in mv.values()):
            out = ZERO
            for v, e in mv.items():
                if e:
                    out = out + e * flog(F({mono(v): 1}))
            q = Fraction(c, f.den)
            if q != 1:
                out = out + flog(from_fraction(q))
            return out
    # positive denominators are pulled out: log(a / b) = log a - log b
    pos = [(fi, e) for fi, e in f.fac if known_nonneg(FAC[fi])]
    if pos and f.is_real():
        rest = F(f.num, f.den, tuple((fi, e) for fi, e in f.fac if (fi, e) not in pos))
        out = flog(rest)
        for fi, e in pos:
            out = out - e * flog(F(FAC[fi]))
        return out
    real = f.is_real() and (all(known_nonneg(FAC[fi]) for fi, _ in f.fac) and known_nonneg(f.num))
    if real or f.is_real():
        return fn_atom('log', f, real=True)
    return fn_atom('log', f, real=False)


def fexp(f):
    f = lift(f)
    out = ONE
    rest = []
    for q, m, fac in _terms(f):
        mv = mono_vars(m)
        logs = [(v, e) for v, e in mv if VARS[v].kind == 'fn' and VARS[v].data[0] == 'log']
        if not fac and len(mv) == 1 and len(logs) == 1 and logs[0][1] == 1:
            arg = VARS[logs[0][0]].data[1][0]
            if q.denominator == 1:
                out = out * arg ** int(q)
                continue
            if q.denominator == 2:
                out = out * fsqrt(arg) ** int(q * 2)
                continue
        rest.append((q, m, fac))
    for q, m, fac in rest:
        if m & FIELD:  # contains I: cos + i sin
            m2 = m & ~FIELD
            base = F({m2: 1}, q.denominator, fac)
            p = q.numerator
            c, s = cos_sin(base)
            e = c + I_ * s
            if p < 0:
                e = c - I_ * s
                p = -p
            out = out * e ** p
        else:
            base = F({m: 1}, q.denominator, fac)
            real = base.is_real()
            a = fn_atom('exp', base, real=real, pos=real)
            out = out * a ** q.numerator
    return out


def cos_sin(base):
    """(cos, sin) atoms of one monomial argument; multiples of pi/2 are exact."""
    c = (base / PI()).const() if base.num else Fraction(0)
    if c is not None:
        k = c * 2
        if k.denominator == 1:
            k = int(k) % 4
            return (lift([1, 0, -1, 0][k]), lift([0, 1, 0, -1][k]))
    real = base.is_real()
    cos = fn_atom('cos', base, real=real)
    sin = fn_atom('sin', base, real=real)
    v = VARS[var_of(cos)]
    if v.sq is None:
        sv = var_of(sin)
        v.sq = {0: 1, mono(sv, 2): -1}
        _special(v)
        if v.conj != v.id:
            w = VARS[v.conj]
            w.sq = {0: 1, mono(VARS[sv].conj, 2): -1}
            _special(w)
    return cos, sin


def fcos(f):
    e = fexp(I_ * f)
    e2 = fexp(-I_ * f)
    return (e + e2) / 2


def fsin(f):
    e = fexp(I_ * f)
    e2 = fexp(-I_ * f)
    return (e - e2) / (2 * I_)


# ---------------------------------------------------------------- derivatives

def diff(f, vid):
    """Formal (Wirtinger) derivative with respect to variable vid."""
    f = lift(f)
    num = F(f.num, f.den)
    dn = pdiff(f.num, vid) / f.den
    if not f.fac:
        return dn
    inv = F({0: 1}, 1, f.fac)
    out = dn * inv
    for fi, e in f.fac:
        dp = pdiff(FAC[fi], vid)
        if dp.num:
            out = out - num * inv * dp * e * F({0: 1}, 1, ((fi, 1),))
    return out


_DV = {}


def pdiff(p, vid):
    """Derivative of a polynomial as fraction (atoms are differentiated by the chain rule)."""
    direct = {}
    sh = vid * BITS
    chain = {}
    vs = pvars(p)
    for v in vs:
        if v == vid:
            continue
        k = VARS[v].kind
        if k in ('sqrt', 'fn'):
            d = datom(v, vid)
            if d.num:
                chain[v] = d
    for m, c in p.items():
        e = (m >> sh) & FIELD
        if e:
            k = m - mono(vid)
            direct[k] = direct.get(k, 0) + c * e
    out = F({m: c for m, c in direct.items() if c}) if direct else ZERO
    for v, d in chain.items():
        part = {}
        for m, c in p.items():
            e = (m >> (v * BITS)) & FIELD
            if e:
                k = m - mono(v)
                part[k] = part.get(k, 0) + c * e
        out = out + F({m: c for m, c in part.items() if c}) * d
    return out


def datom(v, vid):
    """d atom_v / d var_vid."""
    a = VARS[v]
    me = F({mono(v): 1})
    if a.kind == 'sqrt':
        return pdiff(a.sq, vid) / (2 * me)
    name, args = a.data
    if name == 'val':
        return diff(args[0], vid)
    if name == 'log':
        return diff(args[0], vid) / args[0]
    if name == 'exp':
        return diff(args[0], vid) * me
    if name in ('cos', 'sin'):
        d = diff(args[0], vid)
        if not d.num:
            return ZERO
        c, s = cos_sin(args[0])
        return -s * d if name == 'cos' else c * d
    for x in args:
        if diff(x, vid).num:
            raise Unsupported(f'derivative of {name}')
    return ZERO


# ----------------------------------------------------------------- substitute

def psubst(p, mapping):
    """Substitute variables (vid -> F) in a polynomial."""
    keep = {}
    out = ZERO
    cache = {}
    groups = {}
    for m, c in p.items():
        k = 0
        rest = []
        for vid, e in mono_vars(m):
            if vid in mapping:
                rest.append((vid, e))
            else:
                k += mono(vid, e)
        groups.setdefault(tuple(rest), {})[k] = c
    for rest, part in groups.items():
        t = F(part)
        for vid, e in rest:
            key = (vid, e)
            q = cache.get(key)
            if q is None:
                q = mapping[vid] ** e
                cache[key] = q
            t = t * q
        out = out + t
    return out


def subst(f, mapping):
    """Substitute base variables by fractions (atoms of substituted variables are rebuilt)."""
    mapping = dict(mapping)
    for v in _fvars(f):
        a = VARS[v]
        if v in mapping:
            continue
        if a.kind == 'sqrt' and any(x in mapping for x in _deep_vars(a.sq)):
            mapping[v] = fsqrt(psubst_deep(a.sq, mapping))
        elif a.kind == 'fn' and any(x in mapping for y in a.data[1] for x in _fdeep(y)):
            name, args = a.data
            args = [subst(x, mapping) for x in args]
            mapping[v] = rebuild(name, args)
    num = psubst(f.num, mapping)
    den = lift(f.den)
    for fi, e in f.fac:
        den = den * psubst(FAC[fi], mapping) ** e
    return num / den


def psubst_deep(p, mapping):
    return subst(F(p), mapping)


def rebuild(name, args):
    if name == 'log':
        return flog(args[0])
    if name == 'exp':
        return fexp(args[0])
    if name == 'cos':
        return fcos(args[0])
    if name == 'sin':
        return fsin(args[0])
    return fn_atom(name, *args)


def _fvars(f):
    s = set(pvars(f.num))
    for fi, _ in f.fac:
        s.update(pvars(FAC[fi]))
    return s


def _deep_vars(p):
    s = set()
    for v in pvars(p):
        s.add(v)
        a = VARS[v]
        if a.kind == 'sqrt':
            s |= _deep_vars(a.sq)
        elif a.kind == 'fn':
            for x in a.data[1]:
                s |= _fdeep(x)
    return s


def _fdeep(f):
    s = _deep_vars(f.num)
    for fi, _ in f.fac:
        s |= _deep_vars(FAC[fi])
    return s


# ----------------------------------------------------------------------- show

def pshow(p, limit=12):
    out = []
    for m, c in list(p.items())[:limit]:
        t = '*'.join(VARS[v].name + (f'^{e}' if e > 1 else '') for v, e in mono_vars(m))
        out.append(f'{c}*{t}' if t and c != 1 else (t or str(c)))
    s = ' + '.join(out) or '0'
    if len(p) > limit:
        s += f' + ...({len(p)} terms)'
    return s


def show(f):
    s = pshow(f.num)
    if f.den == 1 and not f.fac:
        return s
    d = [str(f.den)] if f.den != 1 else []
    d += [f'({pshow(FAC[fi])})' + (f'^{e}' if e > 1 else '') for fi, e in f.fac]
    return f'({s})/[{"*".join(d)}]'


reset()
