"""Path exploration with solver-decided branches."""
from __future__ import annotations

import math
import random

from . import alg, smt
from .alg import F
from .smt import z3

_OPNEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def _numeric(f, op, vals):
    """Clearly satisfied at a point."""
    if op == '==':
        return False
    try:
        x = complex(alg.numval(f, vals))
    except (ZeroDivisionError, OverflowError, ValueError, KeyError):
        return False
    if op == '!=':
        return abs(x) > 1e-9
    return x.real < -1e-9 if op in ('<', '<=') else x.real > 1e-9


class RCmp:
    """Undecided comparison `f op 0` of real (or ==/!= complex) values."""
    __slots__ = ('f', 'op')

    def __init__(self, f, op):
        self.f, self.op = f, op

    def neg(self):
        return RCmp(self.f, _OPNEG[self.op])


class PathLimit(Exception):
    pass


class Engine:
    def __init__(self):
        self.ibase = []       # integer assumptions
        self.rbase = []       # real assumptions (F, op)
        self.paths = 0
        self.forks = 0
        self.maxpaths = 4000
        self.active = False
        self.feas_timeout = 6000
        self.vals = None      # concrete evaluation (replay of an oracle)
        self.opaque = False   # inverse matrices are unknowns with their contract
        self.generic = False  # expressions that are not identically zero are taken as non-zero
        self._start([])

    def reset(self):
        self.ibase, self.rbase, self.vals, self.generic, self.opaque = [], [], None, False, False
        self._start([])

    def _start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.ipc = list(self.ibase)
        self.rpc = list(self.rbase)
        self.isolver = z3.Solver()
        self.isolver.set('timeout', 20000)
        for c in self.ipc:
            self.isolver.add(c)
        self.rdec = []

    # ------------------------------------------------------------- exploration
    def explore(self, body):
        """Run body once per feasible path.  body() is called with decisions replayed."""
        stack = [[]]
        outs = []
        n = 0
        while stack:
            n += 1
            if n > self.maxpaths:
                raise PathLimit(f'more than {self.maxpaths} paths')
            self.pending = []
            self._start(stack.pop())
            self.active = True
            try:
                outs.append(body())
            finally:
                self.active = False
            stack.extend(self.pending)
            self.paths += 1
        self._start([])
        return outs

    def _choose(self, options):
        """options: list of (tag, feasible) in order; returns chosen tag and records alternatives."""
        i = len(self.trace)
        if i < len(self.prefix):
            t = self.prefix[i]
            self.trace.append(t)
            return t
        t, rest = options[0], options[1:]
        for r in rest:
            self.pending.append(self.trace + [r])
            self.forks += 1
        self.trace.append(t)
        return t

    # ---------------------------------------------------------------- integers
    def _icheck(self, c):
        self.isolver.push()
        self.isolver.add(c)
        import time
        t = time.time()
        r = self.isolver.check()
        smt.STATS.add('path', r, time.time() - t)
        self.isolver.pop()
        return r != z3.unsat

    def decide(self, b):
        """Truth value of a boolean element on this path."""
        if isinstance(b, (bool,)):
            return b
        if isinstance(b, RCmp):
            return self.decide_real(b.f, b.op)
        if isinstance(b, z3.BoolRef):
            b = z3.simplify(b)
            if z3.is_true(b):
                return True
            if z3.is_false(b):
                return False
            i = len(self.trace)
            if i < len(self.prefix):
                v = self._choose(None)
            else:
                t, f = self._icheck(b), self._icheck(z3.Not(b))
                if t and f:
                    v = self._choose([True, False])
                elif t or f:
                    v = self._choose([t])
                else:
                    raise smt.Inconclusive('infeasible path')
            c = b if v else z3.Not(b)
            self.ipc.append(c)
            self.isolver.add(c)
            return v
        return bool(b)

    def concretize(self, x):
        """Python int for a symbolic integer; forks over all feasible values."""
        if isinstance(x, z3.ArithRef):
            x = z3.simplify(x)
            if z3.is_int_value(x):
                return x.as_long()
            i = len(self.trace)
            if i < len(self.prefix):
                v = self._choose(None)
            else:
                vals = []
                self.isolver.push()
                import time
                while True:
                    t = time.time()
                    r = self.isolver.check()
                    smt.STATS.add('path', r, time.time() - t)
                    if r == z3.unsat:
                        break
                    if r != z3.sat or len(vals) > 300:
                        self.isolver.pop()
                        raise smt.Inconclusive('integer path condition')
                    v = self.isolver.model().eval(x, model_completion=True).as_long()
                    vals.append(v)
                    self.isolver.add(x != v)
                self.isolver.pop()
                if not vals:
                    raise smt.Inconclusive('infeasible path')
                v = self._choose(sorted(vals))
            self.ipc.append(x == v)
            self.isolver.add(x == v)
            return v
        return int(x)

    # ------------------------------------------------------------------- reals
    def real_conds(self, extra=()):
        pcs = list(self.rpc) + list(extra)

        def build(enc):
            out = []
            for f, op in pcs:
                if op in ('==', '!=') and not f.is_real():
                    re, im, den, nz = enc.frac(f)
                    enc.side += nz
                    im = im if im is not None else z3.RealVal(0)
                    c = z3.And(re == 0, im == 0)
                    out.append(c if op == '==' else z3.Not(c))
                else:
                    out.append(enc.sign_cond(f, op))
            return out
        return build

    def _rcheck(self, f, op):
        if smt.linear_unsat(self.rpc + [(f, op)]):
            return False
        # a point satisfying the path condition settles feasibility
        conds = [(f, op)] + self.rpc
        for vals in self._points():
            if all(_numeric(g, o, vals) for g, o in conds):
                return True
        r, _, _ = smt.real_check(self.real_conds([(f, op)]), 'path', self.feas_timeout)
        return r != z3.unsat

    def _points(self):
        pts = self.__dict__.setdefault('points', [])
        if not pts or pts[0][0] != (len(alg.VARS), alg.EPOCH):
            pts.clear()
            rng = random.Random(77)
            for k in range(40):
                vals = {}
                for v in alg.VARS:
                    if v.kind == 'cplx':
                        z = complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)) * 10 ** rng.uniform(-1, 1)
                        vals[v.id], vals[v.conj] = z, z.conjugate()
                    elif v.kind == 'real':
                        if v.data is not None:
                            lo, hi = float(v.data[1]), float(v.data[2])
                            vals[v.id] = lo + rng.random() * (hi - lo)
                        elif v.name == 'PI':
                            vals[v.id] = math.pi
                        else:
                            x = rng.uniform(0.1, 2)
                            vals[v.id] = x if v.pos or rng.random() < 0.5 else -x
                pts.append(((len(alg.VARS), alg.EPOCH), vals))
        return [p[1] for p in pts]

    def decide_real(self, f, op):
        if self.vals is not None:
            x = alg.numval(f, self.vals)
            if op in ('==', '!='):
                return (abs(x) < 1e-12) == (op == '==')
            x = complex(x).real
            return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0}[op]
        c = f.const()
        if c is not None:
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        if op in ('==', '!=') and f.is_zero():
            return op == '=='
        neg = _OPNEG
        if self.generic:        # ties are outside the bounds
            if op in ('==', '!='):
                return op == '!='
            if f.is_zero():
                return op in ('<=', '>=')
            op = op[0]
            neg = {'<': '>', '>': '<'}
        # same comparison decided before on this path
        for g, gop, val in self.rdec:
            if g.num == f.num and g.den == f.den and g.fac == f.fac:
                if gop == op:
                    return val
                if neg[gop] == op:
                    return not val
        i = len(self.trace)
        if i < len(self.prefix):
            v = self._choose(None)
            rec = True
        else:
            t = self._rcheck(f, op)
            n = self._rcheck(f, neg[op])
            if t and n:
                v = self._choose([True, False])
            elif t or n:
                v = self._choose([t])
            else:
                raise smt.Inconclusive('infeasible real path')
        self.rpc.append((f, op if v else neg[op]))
        self.rdec.append((f, op, v))
        return v


ENGINE = Engine()
