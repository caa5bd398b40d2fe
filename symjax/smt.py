"""SMT back end: turns algebra elements into QF_NRA queries and keeps statistics."""
from __future__ import annotations

import os
import random
import subprocess
import sys
import time
from fractions import Fraction

from . import alg
from .alg import F, VARS, FAC, mono_vars

_site = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_site)
    import z3
    sys.path.remove(_site)
z3.set_param('memory_max_size', 8000)        # MB; running out of it is inconclusive


class Inconclusive(Exception):
    """The solver gave no verdict."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.cvc5 = 0
        self.maxterms = 0
        self.by_kind = {}

    def add(self, kind, res, dt):
        self.queries += 1
        self.time += dt
        k = self.by_kind.setdefault(kind, {'unsat': 0, 'sat': 0, 'unknown': 0})
        name = str(res)
        k[name] += 1
        setattr(self, name, getattr(self, name) + 1)


STATS = Stats()
TIMEOUT = 60_000
SECOND_OPINION = False


def _solve(solver, kind, timeout=None):
    t = time.time()
    solver.set('timeout', int(timeout or TIMEOUT))
    r = solver.check()
    STATS.add(kind, r, time.time() - t)
    return r


# -------------------------------------------------------------- formal queries

def _poly_smt(p, names):
    """SMT-LIB sum of monomials."""
    ts = []
    for m, c in p.items():
        fs = []
        for vid, e in mono_vars(m):
            names.add(vid)
            fs.extend([f'v{vid}'] * e)
        cs = str(c) if c >= 0 else f'(- {-c})'
        if not fs:
            ts.append(cs)
        elif c == 1 and len(fs) == 1:
            ts.append(fs[0])
        else:
            ts.append(f'(* {cs} {" ".join(fs)})')
    if not ts:
        return '0'
    if len(ts) == 1:
        return ts[0]
    return f'(+ {" ".join(ts)})'


def _split_i(p):
    re, im = {}, {}
    for m, c in p.items():
        if m & alg.FIELD:
            im[m & ~alg.FIELD] = c
        else:
            re[m] = c
    return re, im


def cross(l, r):
    """Cross-multiplied numerators (L, R) with l == r iff L == R (denominators non-zero)."""
    fa, fb = dict(l.fac), dict(r.fac)
    L, R = l.num, r.num
    from math import gcd
    g = gcd(l.den, r.den)
    L = alg.pscale(L, r.den // g)
    R = alg.pscale(R, l.den // g)
    for f in {**fa, **fb}:
        k = max(fa.get(f, 0), fb.get(f, 0))
        if k - fa.get(f, 0):
            L = alg.pmul(L, alg.ppow(FAC[f], k - fa.get(f, 0)))
        if k - fb.get(f, 0):
            R = alg.pmul(R, alg.ppow(FAC[f], k - fb.get(f, 0)))
    return L, R


def identity_smt(pairs):
    """SMT-LIB text: satisfiable iff one of the equations l == r fails formally."""
    names = set()
    dis = []
    for l, r in pairs:
        L, R = cross(l, r)
        STATS.maxterms = max(STATS.maxterms, len(L), len(R))
        for a, b in zip(_split_i(L), _split_i(R)):
            if not a and not b:
                continue
            dis.append(f'(not (= {_poly_smt(a, names)} {_poly_smt(b, names)}))')
    if not dis:
        dis = ['false']
    decl = '\n'.join(f'(declare-fun v{v} () Real)' for v in sorted(names))
    return f'{decl}\n(assert (or {" ".join(dis)} false))\n'


def _cvc5(text, timeout=30):
    t = time.time()
    try:
        p = subprocess.run(['/usr/bin/cvc5', '--lang=smt2', '-q', f'--tlimit={timeout*1000}'],
                           input=f'(set-logic QF_NRA)\n{text}(check-sat)\n', capture_output=True, text=True,
                           timeout=timeout + 10)
    except subprocess.TimeoutExpired:
        return 'unknown'
    STATS.time += time.time() - t
    STATS.cvc5 += 1
    if '(error' in p.stdout:
        return 'unknown'
    return p.stdout.strip().split('\n')[-1] if p.stdout.strip() else 'unknown'


def prove_identities(pairs, timeout=None):
    """Decide formal identities.  True: valid for all values; False: solver found a difference."""
    text = identity_smt(pairs)
    s = z3.SolverFor('QF_NRA')
    s.from_string(text)
    r = _solve(s, 'identity', timeout)
    if r == z3.unknown:
        # flat sums decide by normalisation
        s = z3.Then(z3.With('simplify', som=True), 'propagate-values', 'qfnra-nlsat').solver()
        s.from_string(text)
        r = _solve(s, 'identity', timeout)
    if r == z3.unknown:
        raise Inconclusive(f'identity query: {s.reason_unknown()}')
    if SECOND_OPINION and r == z3.unsat and len(text) < 200000:
        c = _cvc5(text)
        if c == 'sat':
            raise Inconclusive('z3 and cvc5 disagree')
    return r == z3.unsat


# ---------------------------------------------------------------- real queries

class RealEnc:
    """Real encoding: complex variables as x + i y, atoms with their defining constraints."""

    def __init__(self):
        self.xy = {}
        self.z3v = {}
        self.side = []
        self.done = set()

    def rvar(self, key):
        v = self.z3v.get(key)
        if v is None:
            v = z3.Real(f'r_{key}')
            self.z3v[key] = v
        return v

    def mapping(self, vid):
        """(re, im) polynomials-as-z3 for a variable."""
        v = VARS[vid]
        if v.kind == 'cplx' or (v.kind in ('fn', 'sqrt') and v.conj != v.id and v.conj > v.id):
            return self.rvar(f'x{vid}'), self.rvar(f'y{vid}')
        if v.kind == 'cplxc' or (v.kind in ('fn', 'sqrt') and v.conj != v.id):
            return self.rvar(f'x{v.conj}'), -self.rvar(f'y{v.conj}')
        x = self.rvar(f'x{vid}')
        if vid not in self.done:
            self.done.add(vid)
            if v.kind == 'real' and v.data is not None:   # ('range', lo, hi): lo <= x < hi
                _, lo, hi = v.data
                self.side += [x >= z3.Q(lo.numerator, lo.denominator), x < z3.Q(hi.numerator, hi.denominator)]
            if v.name == 'PI':
                self.side += [x > z3.Q(314159, 100000), x < z3.Q(31416, 10000)]
            if v.kind == 'sqrt':
                re, im = self.poly(v.sq)
                self.side += [x >= 0, x * x == re]
            elif v.sq is not None and v.id != 0:  # cos
                re, im = self.poly(v.sq)
                self.side.append(x * x == re)
            elif v.pos:
                self.side.append(x > 0)
        return x, None

    def poly(self, p):
        """(re, im) z3 terms; im None if syntactically absent."""
        re, im = [], []
        cache = {}
        for m, c in p.items():
            a, b = z3.RealVal(c), None
            for vid, e in mono_vars(m):
                if vid == 0:
                    x, y = None, None
                    # multiply by i
                    a, b = (-b if b is not None else z3.RealVal(0)), a
                    continue
                k = (vid, e)
                if k not in cache:
                    x, y = self.mapping(vid)
                    px, py = x, y
                    for _ in range(e - 1):
                        if y is None:
                            px = px * x
                        else:
                            px, py = px * x - py * y, px * y + py * x
                    cache[k] = (px, py)
                px, py = cache[k]
                if py is None:
                    a = a * px
                    b = b * px if b is not None else None
                elif b is None:
                    a, b = a * px, a * py
                else:
                    a, b = a * px - b * py, a * py + b * px
            re.append(a)
            if b is not None:
                im.append(b)
        z = z3.RealVal(0)
        return (z3.Sum(re) if len(re) > 1 else (re[0] if re else z),
                (z3.Sum(im) if len(im) > 1 else im[0]) if im else None)

    def frac(self, f):
        """(re_num, im_num, den>0 term, nonzero conditions)."""
        num = f.num
        den2 = z3.RealVal(f.den)
        nz = []
        # multiply numerator by conj of denominators -> den |p|^2
        for fi, e in f.fac:
            p = FAC[fi]
            pc = alg.pconj(p)
            re, im = self.poly(p)
            if im is None or pc == p:
                nz.append(re != 0)
                if e & 1:
                    num = alg.pmul(num, p)
                for _ in range(e + (e & 1)):
                    den2 = den2 * re
            else:
                nz.append(z3.Or(re != 0, im != 0))
                n2 = re * re + im * im
                num = alg.pmul(num, alg.ppow(pc, e))
                for _ in range(e):
                    den2 = den2 * n2
        re, im = self.poly(num)
        return re, im, den2, nz

    def sign_cond(self, f, op):
        """z3 Bool for `f op 0`, f real valued; op in <,<=,>,>=,==,!= """
        f, op = unroot(f, op)
        re, im, den, nz = self.frac(f)
        self.side += nz
        z = z3.RealVal(0)
        return {'<': re < z, '<=': re <= z, '>': re > z, '>=': re >= z,
                '==': re == z, '!=': re != z}[op]

    def base_values(self, model, pins):
        """Numbers for base variables from a model."""
        vals = {}
        for v in VARS:
            if v.kind == 'cplx':
                x = self.value(model, f'x{v.id}', pins)
                y = self.value(model, f'y{v.id}', pins)
                vals[v.id] = complex(x, y)
                vals[v.conj] = complex(x, -y)
            elif v.kind == 'real':
                vals[v.id] = self.value(model, f'x{v.id}', pins)
        return vals

    def value(self, model, key, pins):
        v = self.z3v.get(key)
        if v is not None:
            r = model.eval(v, model_completion=True)
            if z3.is_algebraic_value(r):
                r = r.approx(20)
            if z3.is_rational_value(r):
                return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
        if key in pins:
            return float(pins[key])
        return 1.0


def unroot(f, op):
    """`a sqrt(A).. - b sqrt(B).. op 0` (a, b > 0) rewritten without the roots."""
    if f.fac or len(f.num) != 2 or op not in ('<', '<=', '>', '>=', '==', '!='):
        return f, op
    parts = []
    for m, c in f.num.items():
        if m & alg.FIELD:
            return f, op
        sq = F({0: 1})
        for v, e in mono_vars(m):
            if VARS[v].kind != 'sqrt' or VARS[v].conj != v:
                return f, op
            sq = sq * F(VARS[v].sq) ** e
        parts.append((c, sq))
    (c1, A), (c2, B) = parts
    if (c1 > 0) == (c2 > 0):
        return f, op
    g = A * (c1 * c1) - B * (c2 * c2)
    return (g if c1 > 0 else -g), op


def linear_unsat(conds):
    """True if the conditions contradict each other with every monomial read as a free number."""
    atoms = {}
    s = z3.SolverFor('QF_LRA')

    def atom(part, m, fac):
        k = (part, m, fac)
        if k not in atoms:
            atoms[k] = z3.Real(f'a{len(atoms)}')
        return atoms[k]
    for f, op in conds:
        f, op = unroot(f, op)
        if op == '!=' or not f.is_real():
            continue
        if any(alg.pconj(FAC[fi]) != FAC[fi] for fi, _ in f.fac):
            continue
        ts = []
        for m, c in f.num.items():
            im = bool(m & alg.FIELD)
            m &= ~alg.FIELD
            (mc, cc), = alg.pconj({m: 1}).items()
            if mc & alg.FIELD or cc != 1:
                mc = m
            sign = 1
            if mc < m:
                m, sign = mc, (-1 if im else 1)
            if m == 0 and not f.fac:
                if not im:
                    ts.append(z3.RealVal(c))
                continue
            # the real part of i*m is minus the imaginary part of m
            ts.append((-c if im else c) * sign * atom('im' if im else 're', m, f.fac))
        t = z3.Sum(ts) if ts else z3.RealVal(0)
        s.add({'<': t < 0, '<=': t <= 0, '>': t > 0, '>=': t >= 0, '==': t == 0}[op])
    return _solve(s, 'linear', 10000) == z3.unsat


def real_check(conds_fn, kind='real', timeout=None, extra=()):
    """conds_fn(enc) -> list of z3 Bools.  Returns (result, enc, model)."""
    enc = RealEnc()
    conds = conds_fn(enc)
    s = z3.SolverFor('QF_NRA')
    for c in conds:
        s.add(c)
    for c in enc.side:
        s.add(c)
    for c in extra:
        s.add(c)
    r = _solve(s, kind, timeout)
    return r, enc, (s.model() if r == z3.sat else None)


def find_model(conds_fn, rng, tries=12, timeout=8000, hints=()):
    """Search a model of the (satisfiable looking) conditions, pinning variables to small rationals.

    Pinning only restricts the search; every returned assignment satisfies all conditions.
    Yields (enc, model, pins).
    """
    enc0 = RealEnc()
    conds_fn(enc0)
    base = [k for k in enc0.z3v if _is_base(k)]
    nfree_seq = [2, 2, 3, 3, 4, 6, 2, 2, 3, len(base), 4, 3]
    for t in range(tries):
        enc = RealEnc()
        conds = conds_fn(enc)
        nfree = nfree_seq[t % len(nfree_seq)]
        keys = list(base)
        rng.shuffle(keys)
        pins = {}
        for k in keys[nfree:]:
            vid = int(k[1:])
            q = Fraction(rng.randint(-12, 12) or 5, rng.choice([3, 5, 7, 8]))
            if VARS[vid].pos:
                q = abs(q)
            pins[k] = q
        s = z3.SolverFor('QF_NRA')
        for c in list(conds) + list(enc.side):
            s.add(c)
        for k, q in pins.items():
            s.add(enc.z3v[k] == z3.Q(q.numerator, q.denominator))
        if 'x1' in enc.z3v:
            pass
        r = _solve(s, 'model', timeout)
        if r == z3.sat:
            yield enc, s.model(), pins


def _is_base(key):
    v = VARS[int(key[1:])]
    return v.kind in ('real', 'cplx')
