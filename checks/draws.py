"""Goals about how outputs depend on random draws."""
import numpy as np
import jax
from symjax import alg, smt, stubs
from symjax.alg import F
from symjax.harness import Custom, full_values, _num
from jax import tree_util as jtu


def draw_ids():
    return {alg.var_of(v): k for k, v in stubs.DRAWS.items() if isinstance(v, F)}


def depends(f, vid):
    """Solver verdict: does the value of f change with the draw?"""
    if f is None or not isinstance(f, F) or vid not in alg._fdeep(f):
        return False
    other = alg.real_var('alt')
    v = alg.VARS[alg.var_of(other)]
    v.data, v.num = alg.VARS[vid].data, alg.VARS[vid].num
    return not smt.prove_identities([(f, alg.subst(f, {vid: other}))])


def uses(f):
    return {d for d in draw_ids() if depends(f, d)}


def not_shared(label, groups, pick):
    """No draw influences two different groups of outputs.

    groups: list of lists of F; pick(out) -> list of lists of numbers of the real output.
    """
    def decide(ck, c):
        sets = [set().union(*[uses(f) for f in g]) if g else set() for g in groups]
        for i in range(len(sets)):
            for j in range(i):
                for d in sorted(sets[i] & sets[j]):
                    r = replay(ck, c, d, i, j)
                    if r is not None:
                        return r
                    return None
        return True

    def replay(ck, c, d, i, j):
        vals, ints = ck.path_values()
        _, a = ck.run_real(c, vals, ints)
        v2 = dict(vals)
        v2[d] = (vals[d] + 0.37) % 1 if alg.VARS[d].data else vals[d] + 0.7
        _, b = ck.run_real(c, v2, ints)
        a, b = pick(a), pick(b)
        di = max(abs(complex(x) - complex(y)) for x, y in zip(a[i], b[i]))
        dj = max(abs(complex(x) - complex(y)) for x, y in zip(a[j], b[j]))
        if di > 1e-6 and dj > 1e-6:
            return vals, f'one random number changes outputs {i} and {j} (by {di:.3g} and {dj:.3g})'
        return None
    return Custom(label, decide)


def keys_used_once(label='no random key is used twice'):
    """Every key is consumed (drawn from or split) at most once on this path."""
    def decide(ck, c):
        seen = set()
        dup = None
        for kk in stubs.DRAWLOG:
            if kk[1] in seen:
                dup = kk
            seen.add(kk[1])
        if dup is None:
            return True
        vals, ints = ck.path_values()
        ck.run_real(c, vals, ints)
        keys = [k for _, k in stubs.CONSUMED]
        for i, k in enumerate(keys):
            if k in keys[:i]:
                return vals, f'key {np.frombuffer(k, np.uint32)} is consumed more than once: ' \
                    f'{[n for n, q in stubs.CONSUMED if q == k]}'
        return None
    return Custom(label, decide)
