"""Cases, goals, replay and evidence."""
from __future__ import annotations

import json
import os
import math
import random
import re
import sys
import signal
import time
import traceback
from fractions import Fraction

import numpy as np
import jax
import jax.numpy as jnp
from jax import tree_util as jtu

from . import alg, smt, interp, stubs
from .alg import F, lift, Unsupported, Undefined
from .engine import ENGINE, RCmp, PathLimit
from .interp import NAN, is_sym, to_obj
from .smt import z3, STATS, Inconclusive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOL = 1e-6


class Sym:
    """A symbolic array argument."""

    def __init__(self, val, dtype):
        v = np.empty(np.shape(val), object)
        v[...] = val
        self.val = v
        self.dtype = np.dtype(dtype)

    @property
    def shape(self):
        return self.val.shape


def _fill(shape, f):
    a = np.empty(shape, object)
    for ix in np.ndindex(*shape):
        a[ix] = f(ix)
    return a


def _nm(name, ix):
    return name + ''.join(f'_{i}' for i in ix)


def cvar(name, shape=()):
    return Sym(_fill(shape, lambda ix: alg.complex_var(_nm(name, ix))), complex)


def rvar(name, shape=(), pos=False, rng=None):
    def f(ix):
        x = alg.real_var(_nm(name, ix), pos=pos)
        if rng is not None:
            v = alg.VARS[alg.var_of(x)]
            v.data = ('range', Fraction(rng[0]), Fraction(rng[1]))
            v.num = float(rng[0]) + alg._rng.random() * float(rng[1] - rng[0])
        return x
    return Sym(_fill(shape, f), float)


def hermitian(name, n):
    a = np.empty((n, n), object)
    for i in range(n):
        a[i, i] = alg.real_var(f'{name}{i}{i}')
        for j in range(i + 1, n):
            a[i, j] = alg.complex_var(f'{name}{i}{j}')
            a[j, i] = a[i, j].conj()
    return Sym(a, complex)


def ivar(name, lo, hi, shape=()):
    """Symbolic integers lo <= x < hi (constraint recorded on the Sym)."""
    s = Sym(_fill(shape, lambda ix: z3.Int(_nm(name, ix))), int)
    s.constraints = [c for x in s.val.reshape(-1) for c in (x >= lo, x < hi)]
    return s


def keyvar(name):
    s = Sym(stubs.key_input(name), np.uint32)
    s.keyname = name
    return s


def sym(val, dtype=complex):
    """Argument from an array of expressions."""
    a = np.empty(np.shape(val), object)
    src = np.asarray(val, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = src[ix]
        a[ix] = lift(v) if np.dtype(dtype).kind in 'fc' else v
    return Sym(a, dtype)


def _is_leaf(x):
    return isinstance(x, Sym)


# ------------------------------------------------------------------------ goals

class Eq:
    def __init__(self, label, lhs, rhs):
        self.label, self.lhs, self.rhs = label, lhs, rhs


class Rel:
    """f op 0 for real f."""

    def __init__(self, label, f, op):
        self.label, self.f, self.op = label, f, op


class Holds:
    """Boolean goal (python bool or z3 Bool)."""

    def __init__(self, label, b):
        self.label, self.b = label, b


class Custom:
    """Goal with its own procedure: decide(ck, case) -> True (proved by the solver), a text
    (violation reproduced on the real code) or None (undecided)."""

    def __init__(self, label, decide):
        self.label, self.decide = label, decide


def eqs(label, code, ref):
    """Element-wise equality goals; shapes must agree."""
    code = code if is_sym(code) else np.asarray(code)
    ref = ref if is_sym(ref) else np.asarray(ref, dtype=object if _has_sym(ref) else None)
    if tuple(code.shape) != tuple(ref.shape):
        return [Holds(f'{label}: shape {code.shape} expected {ref.shape}', False)]
    out = []
    for ix in np.ndindex(*code.shape):
        out.append(Eq(f'{label}{list(ix) if ix else ""}', code[ix], ref[ix]))
    return out


def _has_sym(x):
    if isinstance(x, (F, z3.ExprRef)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object
    return False


# ------------------------------------------------------------------------ check

class TimeUp(BaseException):
    pass


def time_up(*a):
    raise TimeUp()


def limit(seconds):
    signal.signal(signal.SIGALRM, time_up)
    signal.alarm(seconds)


class Violation(Exception):
    pass


class Case:
    pass


GENERAL = 'inputs in general position where a case is marked so: different expressions compared by the code are not equal'


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed)
        self.cases = []
        self.goals = 0
        self.discharged = 0
        self.violations = []
        self.errors = []
        self.known = []
        self.functions = {}
        self.t0 = time.time()
        self.samples = []
        self.paths = 0
        self.validated = 0
        self.bounds = []
        self.assumptions = []
        self.only = os.environ.get('VERIF_CASE')
        self.verbose = bool(os.environ.get('VERIF_VERBOSE'))
        self.known_entries = load_known(pid)
        self.benign = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def overdue(self):
        """A violation is known and its further instances would take long."""
        return self.violations and time.time() - self.found > 60

    def fresh(self):
        """Start a new symbol space (one per case)."""
        alg.reset(self.rng.randrange(1 << 30))
        stubs.clear()
        interp.reset_case()
        ENGINE.reset()

    # ------------------------------------------------------------------- run
    def case(self, name, fn, args, oracle, *, assume=(), iassume=(), defined=False, kw=None,
             symrand=False, validate=True, generic=False, abbrev=None, opaque=False):
        """Execute fn on symbolic args, prove the goals of oracle on every path.

        fn: real code; args: pytree of Sym / constants; oracle(args, out) -> goals.
        assume: [(F, op)] hypotheses on the inputs.
        generic: inputs in general position (equalities between different expressions do not occur).
        abbrev: predicate choosing intermediate values that become variables of their own.
        opaque: inverse matrices are unknowns (recorded in interp.INVERSES).
        """
        if len(self.violations) >= 4 or self.overdue() or (self.only and self.only not in name):
            return
        t = time.time()
        q0, p0, g0 = STATS.queries, ENGINE.paths, self.goals
        ENGINE.generic, interp.ABBREV, ENGINE.opaque = generic, abbrev, opaque
        if generic and GENERAL not in self.assumptions:
            self.assumptions.append(GENERAL)
        try:
            self._case(name, fn, args, oracle, assume, iassume, defined, symrand, validate)
        except Inconclusive as e:
            self.errors.append(f'{name}: inconclusive: {e}')
        except (Unsupported, PathLimit) as e:
            self.errors.append(f'{name}: not encodable: {e}')
            if self.verbose:
                traceback.print_exc()
        except Exception as e:
            self.errors.append(f'{name}: check error: {type(e).__name__}: {e}')
            if self.verbose:
                traceback.print_exc()
        finally:
            stubs.MODE = None
            ENGINE.vals = None
            ENGINE.generic, interp.ABBREV, ENGINE.opaque = False, None, False
        rec = {'case': name, 'paths': ENGINE.paths - p0, 'goals': self.goals - g0,
               'queries': STATS.queries - q0, 'seconds': round(time.time() - t, 2)}
        self.cases.append(rec)
        if self.verbose:
            print('   ', rec, flush=True)

    def _case(self, name, fn, args, oracle, assume, iassume, defined, symrand, validate):
        leaves, tree = jtu.tree_flatten(args, is_leaf=_is_leaf)
        idx = [i for i, l in enumerate(leaves) if isinstance(l, Sym)]
        syms = [leaves[i] for i in idx]

        def call(*vals):
            ls = list(leaves)
            for i, v in zip(idx, vals):
                ls[i] = v
            return fn(*jtu.tree_unflatten(tree, ls))

        c = Case()
        c.name, c.call, c.syms, c.args, c.oracle = name, call, syms, args, oracle
        c.leaves, c.idx, c.tree = leaves, idx, tree
        c.assume = [(lift(f), op) for f, op in assume]
        c.iassume = list(iassume) + [x for s in syms for x in getattr(s, 'constraints', [])]
        c.symrand = symrand
        c.paths = []
        # the symbols themselves
        ENGINE.rbase = list(c.assume)
        ENGINE.ibase = list(c.iassume)
        if not self._assumptions_sat(c):
            raise Inconclusive('assumptions not satisfiable')
        stubs.MODE = 'sym' if symrand else None
        try:
            specs = [jax.ShapeDtypeStruct(s.shape, s.dtype) for s in syms]
            closed, out_shape = jax.make_jaxpr(call, return_shape=True)(*specs)
        except Exception as e:
            stubs.MODE = None
            self._raised(c, e)
            return
        finally:
            stubs.MODE = None
        collect_functions(closed.jaxpr, self.functions)
        out_tree = jtu.tree_structure(out_shape)

        def sym_leaves():
            return [s.val for s in syms]

        argsym = self._args_with(c, [s.val for s in syms])

        def body():
            stubs.DRAWLOG.clear()
            interp.DENS.clear()
            interp.ROOTS.clear()
            interp.INVERSES.clear()
            c.complete = False
            try:
                outs = interp.eval_jaxpr(closed.jaxpr, closed.consts, sym_leaves())
                out = jtu.tree_unflatten(out_tree, outs)
                c.cur_outs = outs
                c.complete = True
                try:
                    goals = list(oracle(argsym, out))
                except (ValueError, IndexError, KeyError, AttributeError, TypeError) as e:
                    self._malformed(c, e)
                    raise
                if not goals:
                    raise Inconclusive('oracle produced no goals')
                self._prove(c, goals, defined)
            except (Unsupported, Inconclusive) as e:
                self._fallback(c, e)
                raise
            c.paths.append((list(ENGINE.rpc), list(ENGINE.ipc), outs))
        npath = len(c.paths)
        try:
            ENGINE.explore(body)
        except Violation as v:
            return
        if len(c.paths) == npath:
            raise Inconclusive('no feasible path')
        self.paths += len(c.paths) - npath
        if validate:
            self._validate(c)

    # ------------------------------------------------------------ plain python
    def host(self, name, fn, args, oracle, *, iassume=(), out=None):
        """Execute plain Python code on symbolic integers (args: pytree of integer Sym / constants).

        The oracle receives z3 terms (or ints) for arguments and results; replay uses ints.
        """
        if len(self.violations) >= 4 or self.overdue() or (self.only and self.only not in name):
            return
        t = time.time()
        q0, p0, g0 = STATS.queries, ENGINE.paths, self.goals
        try:
            self._host(name, fn, args, oracle, iassume)
        except Inconclusive as e:
            self.errors.append(f'{name}: inconclusive: {e}')
        except (Unsupported, PathLimit) as e:
            self.errors.append(f'{name}: not encodable: {e}')
        except Violation:
            pass
        except Exception as e:
            self.errors.append(f'{name}: check error: {type(e).__name__}: {e}')
            if self.verbose:
                traceback.print_exc()
        finally:
            ENGINE.vals = None
        rec = {'case': name, 'paths': ENGINE.paths - p0, 'goals': self.goals - g0,
               'queries': STATS.queries - q0, 'seconds': round(time.time() - t, 2)}
        self.cases.append(rec)
        if self.verbose:
            print('   ', rec, flush=True)

    def _host(self, name, fn, args, oracle, iassume):
        from .host import HostInt, HostBool
        leaves, tree = jtu.tree_flatten(args, is_leaf=_is_leaf)
        idx = [i for i, l in enumerate(leaves) if isinstance(l, Sym)]
        syms = [leaves[i] for i in idx]
        c = Case()
        c.name, c.syms, c.leaves, c.idx, c.tree, c.symrand = name, syms, leaves, idx, tree, False
        ENGINE.rbase = []
        ENGINE.ibase = list(iassume) + [x for s in syms for x in getattr(s, 'constraints', [])]
        c.iassume, c.assume = ENGINE.ibase, []
        if not self._assumptions_sat(c):
            raise Inconclusive('assumptions not satisfiable')

        def unpack(vals):
            """0-d arrays become scalars."""
            return self._args_with(c, [v[()] if v.ndim == 0 else v for v in vals])

        def wrap(a):
            b = np.empty(a.shape, object)
            for ix in np.ndindex(*a.shape):
                b[ix] = HostInt(a[ix]) if isinstance(a[ix], z3.ExprRef) else a[ix]
            return b

        def plain(x):
            def one(v):
                if isinstance(v, np.ndarray) and v.dtype == object:
                    w = np.empty(v.shape, object)
                    for ix in np.ndindex(*v.shape):
                        w[ix] = one(v[ix])
                    return w
                return v.z if isinstance(v, (HostInt, HostBool)) else v
            return jtu.tree_map(one, x)

        def real(ints):
            vals = []
            for s in syms:
                b = np.empty(s.shape, object)
                for ix in np.ndindex(*s.shape):
                    b[ix] = _intval(ints, s.val[ix])
                vals.append(b)
            a = unpack(vals)
            try:
                return a, fn(*a), None
            except Exception as e:
                return a, None, f'raises {type(e).__name__}: {str(e)[:200]}'

        def refute(g, extra):
            s = z3.Solver()
            s.add(*ENGINE.ipc)
            s.add(*extra)
            if smt._solve(s, 'integer') != z3.sat:
                raise Inconclusive(f'{g.label}: no values for a failing path')
            ints = s.model()
            a, out, err = real(ints)
            if err is None:
                for h in oracle(a, out):
                    b = h.b
                    if isinstance(b, z3.ExprRef):
                        b = z3.is_true(z3.simplify(b))
                    if not b:
                        err = f'{h.label}: does not hold for input {a}, result {out}'
                        break
            if err is None:
                raise Inconclusive(f'{g.label}: fails symbolically, not reproduced')
            self._report(c, g, {}, ints, err)
            raise Violation()

        def prof(frame, event, arg):
            if event == 'call' and '/cyjax/' in frame.f_code.co_filename:
                k = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                self.functions[k] = self.functions.get(k, 0) + 1

        def body():
            a = unpack([wrap(s.val) for s in syms])
            sys.setprofile(prof)
            try:
                out = fn(*a)
            except (Inconclusive, Unsupported, PathLimit):
                raise
            except Exception as e:
                sys.setprofile(None)
                refute(Holds(f'runs ({type(e).__name__}: {str(e)[:100]})', False), [])
            finally:
                sys.setprofile(None)
            goals = list(oracle(plain(a), plain(out)))
            if not goals:
                raise Inconclusive('oracle produced no goals')
            self.goals += len(goals)
            for g in goals:
                b = g.b
                if isinstance(b, z3.BoolRef):
                    s = z3.Solver()
                    s.add(*ENGINE.ipc)
                    s.add(z3.Not(b))
                    r = smt._solve(s, 'integer')
                    if r == z3.unsat:
                        self.discharged += 1
                        continue
                    if r != z3.sat:
                        raise Inconclusive(f'{g.label}: not decided')
                    refute(g, [z3.Not(b)])
                elif b:
                    self.discharged += 1
                else:
                    refute(g, [])
            c.npaths = getattr(c, 'npaths', 0) + 1
        ENGINE.explore(body)
        self.paths += c.npaths

    def _args_with(self, c, vals):
        ls = list(c.leaves)
        for i, v in zip(c.idx, vals):
            ls[i] = v
        return jtu.tree_unflatten(c.tree, ls)

    def _assumptions_sat(self, c):
        """Vacuity guard."""
        if c.iassume:
            s = z3.Solver()
            s.add(*c.iassume)
            if smt._solve(s, 'vacuity') != z3.sat:
                return False
        if c.assume:
            for _ in smt.find_model(ENGINE.real_conds(), random.Random(self.seed + 1)):
                return True
            r, _, _ = smt.real_check(ENGINE.real_conds(), 'vacuity')
            return r == z3.sat
        return True

    # ----------------------------------------------------------------- proving
    def _prove(self, c, goals, defined):
        self.goals += len(goals)
        pend = []
        ref_dens = []
        for g in goals:
            if isinstance(g, Holds):
                self._prove_bool(c, g)
            elif isinstance(g, Custom):
                r = g.decide(self, c)
                if r is True:
                    self.discharged += 1
                elif r is None:
                    raise Inconclusive(f'{g.label}: not decided')
                else:
                    vals, what = r
                    self._report(c, g, vals, None, what)
                    raise Violation()
            elif isinstance(g, Rel):
                self._prove_rel(c, g)
            else:
                l, r = g.lhs, g.rhs
                if isinstance(l, np.ndarray) and l.ndim == 0:
                    l = l[()]
                if isinstance(r, np.ndarray) and r.ndim == 0:
                    r = r[()]
                if isinstance(l, (np.integer, np.bool_, int, bool, z3.ExprRef)) and \
                        not isinstance(r, (F, float, complex, np.floating, np.complexfloating)):
                    self._prove_bool(c, Holds(g.label, _ieq(l, r)))
                    continue
                if l is NAN or r is NAN:
                    if r is NAN:
                        raise Inconclusive(f'{g.label}: reference undefined')
                    self._refute(c, g, 'undefined value', [])
                    raise Inconclusive(f'{g.label}: undefined intermediate value')
                l, r = lift(l), lift(r)
                if r.fac:
                    ref_dens.extend(f for f, _ in r.fac)
                pend.append((g, l, r))
        # formal identities, in chunks so that one query covers several goals
        chunk, size = [], 0
        for g, l, r in pend:
            chunk.append((g, l, r))
            size += len(l.num) + len(r.num)
            if size > 4000 or len(chunk) >= 40:
                self._prove_chunk(c, chunk)
                chunk, size = [], 0
        if chunk:
            self._prove_chunk(c, chunk)
        if defined:
            self._prove_defined(c, goals, set(ref_dens))

    def _differs(self, c, chunk):
        """Replay at concrete inputs where the two sides differ, which spares the search for a model."""
        ints = self._ints()
        for vals in self._points(ENGINE.rpc, 1):
            for g, l, r in chunk:
                x, y = _num(l, vals, ints), _num(r, vals, ints)
                if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                    what = self.replay(c, vals, ints, g)
                    if what is not None:
                        self._report(c, g, vals, ints, what)
                        raise Violation()
            return

    def _prove_chunk(self, c, chunk):
        self._differs(c, chunk)
        if smt.prove_identities([(l, r) for _, l, r in chunk]):
            self.discharged += len(chunk)
            if len(self.samples) < 6:
                g, l, r = chunk[0]
                self.samples.append(f'{c.name} / {g.label}: unsat, {len(l.num)} monomials')
            return
        for g, l, r in chunk:
            if len(chunk) > 1 and smt.prove_identities([(l, r)]):
                self.discharged += 1
                continue
            self._prove_eq_real(c, g, l, r)

    def _points(self, conds, count=4):
        """Concrete inputs satisfying the conditions, without a solver call."""
        for v in [{}] + ENGINE._points()[:count]:
            v = full_values(v)
            if all(_cond_num(f, op, v) for f, op in conds):
                yield v

    def _ints(self):
        if not ENGINE.ipc:
            return None
        s = z3.Solver()
        s.add(*ENGINE.ipc)
        if s.check() != z3.sat:
            raise Inconclusive('path condition')
        return s.model()

    def _fallback(self, c, why):
        """The query could not be posed or decided: a violation may still be evident at concrete inputs."""
        if not c.complete and (c.symrand or interp.ROOTS or interp.INVERSES):
            return
        ints = self._ints()
        for vals in self._points(ENGINE.rbase):
            try:
                r = self.replay(c, vals, ints, None)
            except Exception:
                return
            if r is not None:
                self._report(c, Holds(f'concrete inputs ({why})', False), vals, ints, r)
                raise Violation()

    def _magnitudes(self, c, g, sides):
        """Replay at inputs of different magnitudes, where a difference of the two sides is most visible."""
        if any(op == '==' for _, op in ENGINE.rpc):
            return
        ints = self._ints()
        names = sorted({re.sub(r'[\d_].*', '', v.name) for v in alg.VARS if _input(v)})
        best = []
        for base in [{}] + ENGINE._points()[:2]:
            for name in names + [None]:
                for t in (1e-3, 1e3, 1e-6, 1e6, 1e-9):
                    vals = full_values(base)
                    for v in alg.VARS:
                        if _input(v) and name in (None, re.sub(r'[\d_].*', '', v.name)):
                            vals[v.id] = vals[v.id] * t
                            if v.kind == 'cplx':
                                vals[v.conj] = vals[v.conj] * t
                    try:
                        if not all(_cond_num(f, op, vals) for f, op in ENGINE.rpc):
                            continue
                        x, y = sides(vals, ints)
                        e = abs(x - y) / (1 + abs(x) + abs(y))
                    except (ArithmeticError, ValueError):
                        continue
                    if 1e-6 < e < math.inf:
                        best.append((-e, len(best), vals))
        for _, _, vals in sorted(best)[:4]:
            what = self.replay(c, vals, ints, g)
            if what is not None:
                self._report(c, g, vals, ints, what)
                raise Violation()

    def _prove_eq_real(self, c, g, l, r):
        """Not a formal identity: decide under the path condition over the reals."""
        self._magnitudes(c, g, lambda v, ints: (_num(l, v, ints), _num(r, v, ints)))
        d = l - r
        small = len(d.num) < 400
        if ENGINE.rpc or _has_atoms(d):
            if small:
                res, enc, model = smt.real_check(ENGINE.real_conds([(d, '!=')]), 'real', 20000)
                if res == z3.unsat:
                    self.discharged += 1
                    return
                if res == z3.sat:
                    if self._try(c, g, enc, model, {}):
                        return
        self._refute(c, g, 'values differ', [(d, '!=')])
        raise Inconclusive(f'{g.label}: not proved and no counterexample reproduced')

    def _prove_rel(self, c, g):
        neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[g.op]
        f = g.f
        if f is NAN:
            self._refute(c, g, 'undefined value', [])
            raise Inconclusive(f'{g.label}: undefined intermediate value')
        f = lift(f)
        cst = f.const()
        if cst is not None:
            ok = {'<': cst < 0, '<=': cst <= 0, '>': cst > 0, '>=': cst >= 0, '==': cst == 0, '!=': cst != 0}[g.op]
            if ok:
                self.discharged += 1
                return
        if smt.linear_unsat(ENGINE.rpc + [(f, neg)]):
            self.discharged += 1
            return
        res, enc, model = smt.real_check(ENGINE.real_conds([(f, neg)]), 'relation', 60000)
        if res == z3.unsat:
            self.discharged += 1
            return
        if res == z3.sat and self._try(c, g, enc, model, {}):
            return
        self._refute(c, g, f'relation {g.op} fails', [(f, neg)])
        raise Inconclusive(f'{g.label}: relation not proved, no counterexample reproduced')

    def _prove_bool(self, c, g):
        b = g.b
        if isinstance(b, RCmp):
            return self._prove_rel(c, Rel(g.label, b.f, b.op))
        if not isinstance(b, z3.BoolRef):
            if bool(b):
                # decided on this path; the path condition itself was decided by the solver
                self.discharged += 1
                return
            self._refute(c, g, 'fails', [])
            raise Inconclusive(f'{g.label}: fails symbolically, not reproduced')
        s = z3.Solver()
        s.add(*ENGINE.ipc)
        s.add(z3.Not(b))
        r = smt._solve(s, 'integer')
        if r == z3.unsat:
            self.discharged += 1
            return
        if r == z3.sat:
            self._refute(c, g, 'fails', [], extra_int=[z3.Not(b)])
        raise Inconclusive(f'{g.label}: integer goal not decided')

    def _prove_defined(self, c, goals, ref_dens):
        """Denominators the code divides by must not vanish where the reference is defined."""
        seen = set()
        for den in list(interp.DENS):
            for p in _den_factors(den):
                fi = alg.fac_id(p)
                if fi in seen or fi in ref_dens:
                    continue
                seen.add(fi)
                self.goals += 1
                f = F(p)
                if f.const() is not None:
                    self.discharged += 1
                    continue
                extra = [(f, '==')] + [(F(alg.FAC[k]), '!=') for k in ref_dens]
                res, enc, model = smt.real_check(ENGINE.real_conds(extra), 'defined', 5000)
                if res == z3.unsat:
                    self.discharged += 1
                    continue
                g = Holds(f'defined where {alg.pshow(p)} = 0', True)
                g.goals = goals
                self._refute(c, g, 'undefined', extra, tries=4)
                self.benign += 1
                self.discharged += 1

    # ------------------------------------------------------------------ replay
    def _refute(self, c, g, why, extra, extra_int=(), tries=12):
        """Search models of the failing condition and replay them on the real code."""
        n = 0
        if sum(len(f.num) for f, _ in extra) > 3000:        # the encoding would exhaust the memory
            return
        for enc, model, pins in smt.find_model(ENGINE.real_conds(extra), random.Random(self.seed + 17), tries=tries):
            n += 1
            if self._try(c, g, enc, model, pins, extra_int):
                raise Violation()
            if n >= 4:
                break

    def _try(self, c, g, enc, model, pins, extra_int=()):
        vals = enc.base_values(model, pins)
        ints = None
        if ENGINE.ipc or extra_int:
            s = z3.Solver()
            s.add(*ENGINE.ipc)
            s.add(*extra_int)
            if s.check() != z3.sat:
                return False
            ints = s.model()
        r = self.replay(c, vals, ints, g)
        if r is None:
            return False
        self._report(c, g, vals, ints, r)
        return True

    def numeric_args(self, c, vals, ints):
        out = []
        for s in c.syms:
            if getattr(s, 'keyname', None):
                k = np.asarray(jax.random.PRNGKey(self.seed & 0xffff))
                # distinct key inputs get distinct real keys
                h = sum(map(ord, s.keyname))
                k = np.asarray(jax.random.PRNGKey((self.seed + 7919 * h) & 0xffff))
                stubs.LINEAGE[k.tobytes()] = ('in', s.keyname)
                out.append(jnp.asarray(k))
                continue
            a = np.empty(s.shape, s.dtype)
            for ix in np.ndindex(*s.shape):
                v = s.val[ix]
                if isinstance(v, F):
                    v = alg.numval(v, vals)
                    if s.dtype.kind == 'f':
                        v = v.real if isinstance(v, complex) else v
                elif isinstance(v, z3.ExprRef):
                    v = _intval(ints, v)
                a[ix] = v
            out.append(jnp.asarray(a))
        return out

    def run_real(self, c, vals, ints):
        """Run the real code on concrete values."""
        fv = dict(vals)
        _fill_roots_noop = None
        if c.symrand:
            stubs.REPLAY.clear()
            stubs.LINEAGE.clear()
            stubs.CONSUMED.clear()
            for k, v in stubs.DRAWS.items():
                if isinstance(v, F):
                    x = alg.numval(v, fv)
                    stubs.REPLAY[k] = x.real if isinstance(x, complex) else x
                else:
                    stubs.REPLAY[k] = _intval(ints, v)
        args = self.numeric_args(c, fv, ints)
        if c.symrand:
            stubs.MODE = 'replay'
            try:
                with jax.disable_jit():
                    out = c.call(*args)
            finally:
                stubs.MODE = None
        else:
            out = c.call(*args)
        return args, out

    def replay(self, c, vals, ints, g):
        """None if the real code satisfies the goal at these values, else a description."""
        vals = full_values(vals)
        try:
            args, out = self.run_real(c, vals, ints)
        except Exception as e:
            if isinstance(e, (Unsupported, Inconclusive)):
                raise
            return f'raises {type(e).__name__}: {str(e)[:200]}'
        outs, tree = jtu.tree_flatten(out)
        ph = []
        vv = dict(vals)
        bad = False
        for o in outs:
            o = np.asarray(o)
            if o.dtype.kind in 'fc':
                a = np.empty(o.shape, object)
                for ix in np.ndindex(*o.shape):
                    f = alg.complex_var('out') if o.dtype.kind == 'c' else alg.real_var('out')
                    vid = alg.var_of(f)
                    vv[vid] = complex(o[ix]) if o.dtype.kind == 'c' else float(o[ix])
                    if o.dtype.kind == 'c':
                        vv[alg.VARS[vid].conj] = complex(o[ix]).conjugate()
                    a[ix] = f
                ph.append(a)
            else:
                ph.append(o)
        saved = (ENGINE.rpc, ENGINE.ipc, ENGINE.vals, list(interp.ROOTS))
        ENGINE.vals = vv
        try:
            argc = self._args_with(c, [self._conc_ints(s, ints) for s in c.syms])
            goals = list(c.oracle(argc, jtu.tree_unflatten(tree, ph)))
        finally:
            ENGINE.rpc, ENGINE.ipc, ENGINE.vals = saved[:3]
            interp.ROOTS[:] = saved[3]
        vv = full_values(vv)
        for h in goals:
            r = self._goal_numeric(h, vv, ints)
            if r is not None:
                return f'{h.label}: {r}'
        return None

    def _conc_ints(self, s, ints):
        if s.dtype.kind in 'iub' and not getattr(s, 'keyname', None):
            a = np.empty(s.shape, s.dtype)
            for ix in np.ndindex(*s.shape):
                v = s.val[ix]
                a[ix] = _intval(ints, v) if isinstance(v, z3.ExprRef) else v
            return a
        return s.val

    def _goal_numeric(self, h, vv, ints):
        if isinstance(h, Custom):
            return None
        if isinstance(h, Eq):
            l, r = _num(h.lhs, vv, ints), _num(h.rhs, vv, ints)
            if r != r or abs(r) == float('inf'):
                return None       # reference undefined here
            if l != l or abs(l - r) > TOL * (1 + abs(l) + abs(r)):
                # nor is it known where the last digits of the inputs decide
                near = _num(h.rhs, _nudged(vv), ints)
                if near != near or abs(near - r) > 1e-4 * (1 + abs(r)):
                    return None
            if l != l:
                return f'code gives NaN, expected {r}'
            if abs(l - r) > TOL * (1 + abs(l) + abs(r)):
                return f'code gives {_fmt(l)}, expected {_fmt(r)}'
            return None
        if isinstance(h, Holds):
            b = h.b
            if isinstance(b, RCmp):
                return self._goal_numeric(Rel(h.label, b.f, b.op), vv, ints)
            if isinstance(b, z3.BoolRef):
                b = z3.is_true(z3.simplify(ints.eval(b, model_completion=True))) if ints is not None \
                    else z3.is_true(z3.simplify(b))
            return None if b else 'does not hold'
        x = _num(h.f, vv, ints)
        if x != x:
            return 'value is NaN'
        x = complex(x).real
        tol = TOL
        bad = {'<': x >= tol, '<=': x > tol, '>': x <= -tol, '>=': x < -tol,
               '==': abs(x) > tol, '!=': abs(x) < 1e-13}[h.op]
        if h.op in '<>' and h.op in ('<', '>') and abs(x) < 1e-13:
            bad = True
        return f'{_fmt(x)} {h.op} 0 does not hold' if bad else None

    def _malformed(self, c, exc):
        """The oracle cannot read the output: a violation if the output of the real code has that form too."""
        f = traceback.extract_tb(exc.__traceback__)[-1].filename
        if os.path.dirname(os.path.realpath(f)) != os.path.join(os.path.realpath(VERIF), 'checks'):
            return
        vals, ints = self.path_values()
        _, out = self.run_real(c, vals, ints)
        real = [np.shape(x) for x in jtu.tree_leaves(out)]
        if real == [np.shape(x) for x in c.cur_outs]:
            g = Holds('form of the result', False)
            self._report(c, g, vals, ints, f'results of shapes {real} instead of the documented ones ({type(exc).__name__}: {exc})')
            raise Violation()

    def _raised(self, c, exc):
        """The code raised while being traced: a violation if it also raises on concrete input."""
        vals = {}
        for v in alg.VARS:
            if v.kind in ('real', 'cplx', 'cplxc'):
                vals[v.id] = v.num
        ints = None
        if c.iassume:
            s = z3.Solver()
            s.add(*c.iassume)
            s.check()
            ints = s.model()
        try:
            self.run_real(c, vals, ints)
        except Exception as e:
            g = Holds('runs', False)
            self._report(c, g, vals, ints, f'raises {type(e).__name__}: {str(e)[:300]}')
            return
        raise Unsupported(f'tracing failed: {type(exc).__name__}: {str(exc)[:300]}')

    def _report(self, c, g, vals, ints, what):
        for k in self.known_entries:
            if k['case'] in c.name and k['goal'] in g.label + ' ' + str(what):
                self.known.append(f'{k["text"]}')
                return
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.pid}_{len(self.violations)}.json')
        names = {}
        for v in alg.VARS:
            if v.kind in ('real', 'cplx') and v.id in vals and v.name != 'out':
                names[v.name] = str(vals[v.id])
        rec = {'property': self.pid, 'case': c.name, 'goal': g.label, 'observed': str(what),
               'inputs': names, 'integers': str(ints) if ints is not None else None,
               'tier': self.tier, 'seed': self.seed,
               'rerun': f'VERIF_CASE="{c.name}" VERIF_SEED={self.seed} python {VERIF}/run.py {self.pid}'}
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        if not self.violations:
            self.found = time.time()
            signal.alarm(min(120, signal.alarm(0) or 120))    # further instances are not worth more
        self.violations.append(rec)
        print(f'VIOLATION property={self.pid} replay={path}', flush=True)
        print(f'  case {c.name}: {g.label}: {what}', flush=True)

    def path_values(self):
        """Numbers satisfying the current path condition (real part and integers)."""
        ints = None
        if ENGINE.ipc:
            s = z3.Solver()
            s.add(*ENGINE.ipc)
            if s.check() != z3.sat:
                raise Inconclusive('path condition')
            ints = s.model()
        base = full_values({})
        if all(_cond_num(f, op, base) for f, op in ENGINE.rpc):
            return base, ints
        for enc, model, pins in smt.find_model(ENGINE.real_conds(), random.Random(self.seed + 3)):
            return full_values(enc.base_values(model, pins)), ints
        raise Inconclusive('no values for path')

    # -------------------------------------------------------------- validation
    def _validate(self, c):
        """Push one concrete input through real code and encoding and compare the outputs."""
        vals = {}
        for v in alg.VARS:
            if v.kind in ('real', 'cplx', 'cplxc'):
                vals[v.id] = v.num
        for rpc, ipc, outs in c.paths:
            if not all(_cond_num(f, op, vals) for f, op in rpc):
                continue
            ints = None
            if ipc:
                s = z3.Solver()
                s.add(*ipc)
                if s.check() != z3.sat:
                    continue
                ints = s.model()
            if interp.ROOTS or interp.INVERSES:
                return
            args, out = self.run_real(c, vals, ints)
            real = [np.asarray(o) for o in jtu.tree_leaves(out)]
            for a, b in zip(outs, real):
                if tuple(a.shape) != tuple(b.shape):
                    raise Inconclusive('encoding and code differ in shape')
                for ix in np.ndindex(*b.shape):
                    if isinstance(a[ix], stubs.KeyElem):
                        continue
                    if a[ix] is NAN:
                        continue
                    x, y = _num(a[ix], vals, ints), complex(b[ix])
                    if not (abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))):
                        raise Inconclusive(f'encoding ({x}) and code ({y}) differ at a test input')
            self.validated += 1
            return

    # ------------------------------------------------------------------ python
    def raw_violation(self, name, label, what, data=None):
        """Violation established (and replayed) by a check specific procedure."""
        c = Case()
        c.name = name
        g = Holds(label, False)
        self._report(c, g, {}, data, what)

    def finish(self):
        wall = time.time() - self.t0
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'symbolic execution of the jaxprs traced from the current source; '
                               'every goal on every path decided by an SMT solver (z3, QF_NRA / LIA)',
                'functions_encoded': sorted(self.functions),
                'primitives_encoded': dict(sorted(interp.USED.items())),
                'bounds': self.bounds,
                'cases': self.cases,
                'paths': self.paths,
                'goals': self.goals,
                'goals_discharged': self.discharged,
                'queries': STATS.queries,
                'queries_by_kind': STATS.by_kind,
                'solver_time_s': round(STATS.time, 3),
                'largest_query_monomials': STATS.maxterms,
                'encodings_validated_against_real_code': self.validated,
                'denominators_replayed_benign': self.benign,
                'samples': self.samples[:6],
                'errors': self.errors[:20],
            },
            'assumptions': self.assumptions + [
                'floating point values are read as real numbers; float literals are read as the rational (times a power of pi) they round',
            ],
            'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in dict.fromkeys(self.known):
            print(f'KNOWN-FINDING: property={self.pid} {k}')
        print(f'{self.pid} {self.tier}: {len(self.cases)} cases, {self.paths} paths, {self.discharged}/{self.goals} goals, '
              f'{STATS.queries} queries, solver {STATS.time:.1f}s, wall {wall:.1f}s')
        for e in self.errors:
            print('ERROR', e)
        if self.violations:
            return 1
        if self.errors:
            return 2
        if not self.cases or not self.goals:
            print('ERROR nothing checked')
            return 2
        return 0


# ---------------------------------------------------------------------- helpers

def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            head, _, text = line[6:].partition('::')
            d = dict(kv.split('=', 1) for kv in head.split() if '=' in kv)
            if d.get('property') == pid:
                out.append({'case': d.get('case', ''), 'goal': d.get('goal', ''), 'text': text.strip()})
    return out


def full_values(vals):
    """Complete an assignment of base variables with default numbers."""
    out = {}
    for v in alg.VARS:
        if v.kind in ('real', 'cplx', 'cplxc') and v.num is not None:
            out[v.id] = v.num
    out.update(vals)
    return out


def _input(v):
    """A variable of the inputs without a bounded range."""
    return v.kind in ('real', 'cplx') and v.data is None and v.num is not None and v.name not in ('PI', 'out')


def _nudged(vals):
    """The same assignment with inputs changed in the last digits."""
    out = dict(vals)
    for v in alg.VARS:
        if v.id in out and v.kind in ('real', 'cplx') and v.name not in ('PI', 'out'):
            t = 1 + 1e-11 * (1 + v.id % 7)
            out[v.id] = out[v.id] * t
            if v.kind == 'cplx':
                out[v.conj] = out[v.conj] * t
    return out


def _intval(ints, v):
    if ints is None:
        x = z3.simplify(v)
    else:
        x = ints.eval(v, model_completion=True)
    if z3.is_bool(x):
        return z3.is_true(x)
    return x.as_long()


def _num(x, vals, ints):
    if isinstance(x, np.ndarray):
        x = x[()]
    if x is NAN:
        return float('nan')
    if isinstance(x, F):
        return alg.numval(x, vals)
    if isinstance(x, z3.ExprRef):
        return _intval(ints, x)
    if isinstance(x, RCmp):
        return _cond_num(x.f, x.op, vals)
    if isinstance(x, Fraction):
        return float(x)
    return x


def _cond_num(f, op, vals):
    x = alg.numval(f, vals)
    if op in ('==', '!='):
        e = abs(x) < 1e-12
        return e if op == '==' else not e
    x = complex(x).real
    return {'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0}[op]


def _ieq(l, r):
    if isinstance(l, np.generic):
        l = l.item()
    if isinstance(r, np.generic):
        r = r.item()
    return l == r


def _fmt(x):
    x = complex(x)
    return f'{x.real:.8g}' if x.imag == 0 else f'{x:.8g}'


def _has_atoms(f):
    for v in alg._fdeep(f):
        if alg.VARS[v].kind in ('sqrt', 'fn'):
            return True
    return False


def _den_factors(f):
    """Irreducible looking factors of a denominator value."""
    f = lift(f)
    d, fac, unit = alg.factor_abs(f.num)
    return [p for p, e in fac]


def collect_functions(jaxpr, out, depth=0):
    from jax._src import source_info_util
    for eqn in jaxpr.eqns:
        tb = eqn.source_info.traceback
        if tb is not None:
            for fr in tb.frames:
                if '/cyjax/' in fr.file_name:
                    name = f'{os.path.basename(fr.file_name)}:{fr.function_name}'
                    out[name] = out.get(name, 0) + 1
        for v in eqn.params.values():
            for j in (v if isinstance(v, (tuple, list)) else (v,)):
                if hasattr(j, 'jaxpr') and hasattr(j, 'consts'):
                    collect_functions(j.jaxpr, out, depth + 1)
                elif hasattr(j, 'eqns'):
                    collect_functions(j, out, depth + 1)
