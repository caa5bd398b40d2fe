"""Random number generation replaced by symbolic draws.

While MODE is 'sym' the functions of jax.random bind the primitives defined here; the
interpreter gives a draw a fresh variable per (key lineage, shape, position), so two draws
from the same key coincide and different keys are unrelated.  While MODE is 'replay' the
same primitives return the values of a solver model; otherwise jax.random is untouched.
"""
from __future__ import annotations

import numpy as np
import jax
import jax.numpy as jnp
from jax import core as jcore
from jax.interpreters import batching
from fractions import Fraction

from . import alg, interp
from .engine import ENGINE
from .smt import z3

MODE = None
_orig = {}
DRAWS = {}        # (kind, term, shape, index) -> F / z3 Int
DRAWLOG = []      # draws of the current path, in order: (kind, term, shape)
REPLAY = {}       # same keys -> numbers
LINEAGE = {}      # key bytes -> term (replay)
CONSUMED = []     # (kind, key bytes) of a replayed run, in order


class KeyElem:
    __slots__ = ('term', 'j')

    def __init__(self, term, j):
        self.term, self.j = term, j

    def __eq__(self, o):
        return isinstance(o, KeyElem) and (self.term, self.j) == (o.term, o.j)

    def __hash__(self):
        return hash((self.term, self.j))

    def __repr__(self):
        return f'{self.term}[{self.j}]'


def clear():
    DRAWS.clear()
    DRAWLOG.clear()
    REPLAY.clear()
    LINEAGE.clear()


def key_input(name):
    a = np.empty((2,), object)
    a[0], a[1] = KeyElem(('in', name), 0), KeyElem(('in', name), 1)
    return a


def terms_of(key):
    """Lineage term for each key of an array (*b, 2)."""
    key = key if interp.is_sym(key) else np.asarray(key)
    flat = key.reshape(-1, 2)
    out = []
    for a, b in flat:
        if isinstance(a, KeyElem):
            if not (isinstance(b, KeyElem) and a.term == b.term and (a.j, b.j) == (0, 1)):
                raise alg.Unsupported('arithmetic on random keys')
            out.append(a.term)
        else:
            out.append(('const', int(a), int(b)))
    return out, key.shape[:-1]


def _raw(key):
    """uint32 key data of old style or typed keys."""
    if hasattr(key, 'dtype') and jax.dtypes.issubdtype(key.dtype, jax.dtypes.prng_key):
        return jax.random.key_data(key)
    key = jnp.asarray(key)
    if key.dtype != jnp.uint32 or key.ndim == 0 or key.shape[-1] != 2:
        raise TypeError(f'not a random key: {key.dtype}{list(key.shape)}')     # as jax.random does
    return key


# ------------------------------------------------------------------ primitives

def _mk(name, out_aval, impl, symrule):
    p = jcore.Primitive('sym_' + name)
    p.def_abstract_eval(out_aval)
    p.def_impl(impl)

    def batch(args, dims, **params):
        key = jnp.moveaxis(args[0], dims[0], 0) if dims[0] is not batching.not_mapped else None
        if key is None:
            raise NotImplementedError('batched random data')
        return p.bind(key, *args[1:], **params), 0
    batching.primitive_batchers[p] = batch
    interp.FUNCS['sym_' + name] = symrule
    interp.ALWAYS.add('sym_' + name)
    return p


def _draw_abs(key, *, shape, dtype, **kw):
    return jcore.ShapedArray(key.shape[:-1] + tuple(shape), np.dtype(dtype))


def _replay_terms(key):
    key = np.asarray(key)
    flat = key.reshape(-1, 2)
    return [LINEAGE.get(k.tobytes(), ('const', int(k[0]), int(k[1]))) for k in flat], key.shape[:-1], flat


def _draw_impl(kind):
    def impl(key, *, shape, dtype, **kw):
        ts, b, flat = _replay_terms(key)
        outs = []
        for t, k in zip(ts, flat):
            if not kw.get('sub'):
                CONSUMED.append((kind, k.tobytes()))
            n = int(np.prod(shape)) if shape else 1
            kk = (kind, t, tuple(shape)) + tuple(sorted(kw.items()))
            vals = [REPLAY.get(kk + (i,)) for i in range(n)]
            if any(v is None for v in vals):
                o = {'uniform': lambda: _orig['uniform'](jnp.asarray(k), shape),
                     'normal': lambda: _orig['normal'](jnp.asarray(k), shape),
                     'randint': lambda: _orig['randint'](jnp.asarray(k), shape, kw.get('lo'), kw.get('hi')),
                     'perm': lambda: _orig['permutation'](jnp.asarray(k), kw.get('n'))}[kind]()
                outs.append(np.asarray(o).astype(dtype))
            else:
                outs.append(np.array(vals, dtype=dtype).reshape(shape))
        return jnp.asarray(np.stack(outs).reshape(b + tuple(shape)) if outs else np.zeros(b + tuple(shape), dtype))
    return impl


def _draw_sym(kind, make):
    def h(eqn, key, *, shape, dtype, **kw):
        ts, b = terms_of(key)
        n = int(np.prod(shape)) if shape else 1
        out = interp.obj((len(ts), n))
        for r, t in enumerate(ts):
            kk = (kind, t, tuple(shape)) + tuple(sorted(kw.items()))
            if not kw.get('sub'):
                DRAWLOG.append(kk)
            if kk + (0,) not in DRAWS and n:
                vals = make(kk, n, kw)
                for i in range(n):
                    DRAWS[kk + (i,)] = vals[i]
            elif n and kind in ('randint', 'perm'):
                _constrain(kind, [DRAWS[kk + (i,)] for i in range(n)], kw)
            for i in range(n):
                out[r, i] = DRAWS[kk + (i,)]
        return out.reshape(b + tuple(shape))
    return h


def _mk_uniform(kk, n, kw):
    out = []
    for i in range(n):
        f = alg.real_var(f'u{len(DRAWS) + i}')
        v = alg.VARS[alg.var_of(f)]
        v.data = ('range', Fraction(0), Fraction(1))
        v.num = alg._rng.uniform(0.05, 0.95)
        out.append(f)
    return out


def _mk_normal(kk, n, kw):
    return [alg.real_var(f'g{len(DRAWS) + i}') for i in range(n)]


def _constrain(kind, vs, kw):
    cs = []
    if kind == 'randint':
        for v in vs:
            cs += [v >= kw['lo'], v < kw['hi']]
    else:
        for v in vs:
            cs += [v >= 0, v < kw['n']]
        if len(vs) > 1:
            cs.append(z3.Distinct(*vs))
    for c in cs:
        if not any(c.eq(d) for d in ENGINE.ipc):
            ENGINE.ipc.append(c)
            ENGINE.isolver.add(c)


def _mk_int(kind):
    def make(kk, n, kw):
        vs = [z3.Int(f'{kind}{len(DRAWS) + i}') for i in range(n)]
        _constrain(kind, vs, kw)
        return vs
    return make


uniform_p = _mk('uniform', _draw_abs, _draw_impl('uniform'), _draw_sym('uniform', _mk_uniform))
normal_p = _mk('normal', _draw_abs, _draw_impl('normal'), _draw_sym('normal', _mk_normal))
randint_p = _mk('randint', _draw_abs, _draw_impl('randint'), _draw_sym('randint', _mk_int('randint')))
perm_p = _mk('perm', _draw_abs, _draw_impl('perm'), _draw_sym('perm', _mk_int('perm')))


def _split_abs(key, *, num):
    return jcore.ShapedArray(key.shape[:-1] + (num, 2), np.dtype('uint32'))


def _split_impl(key, *, num):
    ts, b, flat = _replay_terms(key)
    outs = []
    for t, k in zip(ts, flat):
        CONSUMED.append(('split', k.tobytes()))
        s = np.asarray(_orig['split'](jnp.asarray(k), num))
        for i in range(num):
            LINEAGE[s[i].tobytes()] = ('split', t, num, i)
        outs.append(s)
    return jnp.asarray(np.stack(outs).reshape(b + (num, 2)) if outs else np.zeros(b + (num, 2), np.uint32))


def _split_sym(eqn, key, *, num):
    ts, b = terms_of(key)
    out = interp.obj((len(ts), num, 2))
    for r, t in enumerate(ts):
        DRAWLOG.append(('split', t, (num,)))
        for i in range(num):
            for j in (0, 1):
                out[r, i, j] = KeyElem(('split', t, num, i), j)
    return out.reshape(b + (num, 2))


split_p = _mk('split', _split_abs, _split_impl, _split_sym)


def _fold_abs(key, data):
    return jcore.ShapedArray(key.shape, np.dtype('uint32'))


def _fold_impl(key, data):
    ts, b, flat = _replay_terms(key)
    outs = []
    for t, k in zip(ts, flat):
        s = np.asarray(_orig['fold_in'](jnp.asarray(k), data))
        LINEAGE[s.tobytes()] = ('fold', t, int(data))
        outs.append(s)
    return jnp.asarray(np.stack(outs).reshape(b + (2,)))


def _fold_sym(eqn, key, data):
    ts, b = terms_of(key)
    d = ENGINE.concretize(interp.scalar(data))
    out = interp.obj((len(ts), 2))
    for r, t in enumerate(ts):
        for j in (0, 1):
            out[r, j] = KeyElem(('fold', t, d), j)
    return out.reshape(b + (2,))


fold_p = _mk('fold', _fold_abs, _fold_impl, _fold_sym)


# ------------------------------------------------------------- jax.random patches

def _fdt(dtype):
    return np.dtype(jax.dtypes.canonicalize_dtype(dtype))


def uniform(key, shape=(), dtype=float, minval=0., maxval=1.):
    if MODE is None:
        return _orig['uniform'](key, shape, dtype, minval, maxval)
    dt = _fdt(dtype)
    u = uniform_p.bind(_raw(key), shape=tuple(int(s) for s in shape), dtype=dt)
    if isinstance(minval, (int, float)) and isinstance(maxval, (int, float)) and (minval, maxval) == (0, 1):
        return u
    minval, maxval = jnp.asarray(minval, dt), jnp.asarray(maxval, dt)
    return u * (maxval - minval) + minval


def normal(key, shape=(), dtype=float):
    if MODE is None:
        return _orig['normal'](key, shape, dtype)
    dt = _fdt(dtype)
    shape = tuple(int(s) for s in shape)
    if dt.kind == 'c':
        k1, k2 = split(key)
        rd = np.zeros((), dt).real.dtype
        return (normal_p.bind(_raw(k1), shape=shape, dtype=rd)
                + 1j * normal_p.bind(_raw(k2), shape=shape, dtype=rd)).astype(dt) / np.sqrt(2)
    return normal_p.bind(_raw(key), shape=shape, dtype=dt)


def randint(key, shape, minval, maxval, dtype=int):
    if MODE is None:
        return _orig['randint'](key, shape, minval, maxval, dtype)
    return randint_p.bind(_raw(key), shape=tuple(int(s) for s in shape), dtype=_fdt(dtype),
                          lo=int(minval), hi=int(maxval))


def split(key, num=2):
    if MODE is None:
        return _orig['split'](key, num)
    if isinstance(num, (tuple, list)):
        n = int(np.prod(num))
        return split_p.bind(_raw(key), num=n).reshape(tuple(num) + (2,))
    return split_p.bind(_raw(key), num=int(num))


def fold_in(key, data):
    if MODE is None:
        return _orig['fold_in'](key, data)
    return fold_p.bind(_raw(key), jnp.asarray(data))


def permutation(key, x, axis=0, independent=False):
    if MODE is None:
        return _orig['permutation'](key, x, axis, independent)
    if not np.ndim(x):
        n = int(x)
        return perm_p.bind(_raw(key), shape=(n,), dtype=_fdt(int), n=n)
    n = x.shape[axis]
    if independent and x.ndim > 1:
        y = jnp.moveaxis(x, axis, 0)
        flat = y.reshape(n, -1)
        cols = [flat[:, i][perm_p.bind(_raw(key), shape=(n,), dtype=_fdt(int), n=n, sub=i)] for i in range(flat.shape[1])]
        return jnp.moveaxis(jnp.stack(cols, 1).reshape(y.shape), 0, axis)
    p = perm_p.bind(_raw(key), shape=(n,), dtype=_fdt(int), n=n)
    return jnp.take(x, p, axis=axis)


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    if MODE is None:
        return _orig['choice'](key, a, shape, replace, p, axis)
    arr = jnp.arange(int(a)) if not np.ndim(a) else a
    if p is not None:
        raise alg.Unsupported('weighted choice')
    n = int(np.prod(shape)) if shape else 1
    if replace:
        idx = randint_p.bind(_raw(key), shape=tuple(shape), dtype=_fdt(int), lo=0, hi=int(arr.shape[axis]))
    else:
        idx = perm_p.bind(_raw(key), shape=(arr.shape[axis],), dtype=_fdt(int), n=int(arr.shape[axis]))[:n]
        idx = idx.reshape(shape)
    return jnp.take(arr, idx, axis=axis)


def bernoulli(key, p=0.5, shape=None):
    if MODE is None:
        return _orig['bernoulli'](key, p, shape)
    return uniform(key, np.shape(p) if shape is None else shape) < p


def shuffle(key, x, axis=0):
    if MODE is None:
        return _orig['shuffle'](key, x, axis)
    return permutation(key, x, axis)


def exponential(key, shape=(), dtype=float):
    if MODE is None:
        return _orig['exponential'](key, shape, dtype)
    return -jnp.log1p(-uniform(key, shape, dtype))


def truncated_normal(key, lower, upper, shape=None, dtype=float):
    if MODE is None:
        return _orig['truncated_normal'](key, lower, upper, shape, dtype)
    return uniform(key, () if shape is None else shape, dtype, lower, upper)


def PRNGKey(seed, **kw):
    if MODE is None or isinstance(seed, jcore.Tracer):
        return _orig['PRNGKey'](seed, **kw)
    with jax.ensure_compile_time_eval():
        return _orig['PRNGKey'](seed, **kw)


def install():
    for f in (PRNGKey, uniform, normal, randint, split, fold_in, permutation, choice, bernoulli, shuffle, exponential, truncated_normal):
        n = f.__name__
        if n not in _orig and hasattr(jax.random, n):
            _orig[n] = getattr(jax.random, n)
            setattr(jax.random, n, f)
