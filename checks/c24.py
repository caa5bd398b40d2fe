"""Random samplers."""
import numpy as np
from fractions import Fraction
from symjax import alg, smt, stubs
from symjax.alg import ONE, ZERO, F
from symjax.engine import ENGINE
from symjax.harness import Eq, Rel, Holds, Custom, eqs, keyvar, rvar, ivar
from checks.draws import not_shared, uses, draw_ids
from cyjax import random as cr
import jax


def abs2(x):
    return x * x.conj()


def flat_groups(a):
    return [[x] for x in np.asarray(a).reshape(-1)]


def run(ck):
    shapes = ((), (1,), (3,), (2, 2), (2, 1, 2)) if not ck.thorough else ((), (1,), (3,), (4,), (2, 2), (2, 3), (2, 1, 2))
    ck.bounds.append(f'sample shapes {shapes}; every value of the underlying uniform [0,1) / normal draws')
    ck.assumptions.append('norms of normal draws are non-zero; exp is increasing (instances exp(L u) in [1, s) for 0 <= u < 1)')
    for sh in shapes:
        ck.fresh()
        key = keyvar('k')

        def o(a, out):
            goals = [Holds('shape', out.shape == sh)]
            for x in out.reshape(-1):
                goals += [Rel('re >= -1', x.real + 1, '>='), Rel('re <= 1', x.real - 1, '<='),
                          Rel('im >= -1', x.imag + 1, '>='), Rel('im <= 1', x.imag - 1, '<=')]
            parts = [[y] for x in out.reshape(-1) for y in (x.real, x.imag)]
            goals.append(not_shared('every component has its own random number', parts,
                         lambda r: [[y] for x in np.asarray(r).reshape(-1) for y in (x.real, x.imag)]))
            return goals
        ck.case(f'uniform_components {sh}', lambda k: cr.uniform_components(k, sh), (key,), o, symrand=True)

        ck.fresh()
        key, lo, d = keyvar('k'), rvar('lo', (), pos=True), rvar('d', (), pos=True)
        from symjax.harness import sym
        hi = sym(lo.val[()] + d.val[()], float)

        def o(a, out):
            _, lo, hi = a
            goals = [Holds('shape', out.shape == sh)]
            for x in out.reshape(-1):
                goals += [Rel('|z| >= minrad', abs2(x) - lo[()] ** 2, '>='), Rel('|z| <= maxrad', abs2(x) - hi[()] ** 2, '<=')]
            goals.append(not_shared('entries use different random numbers', flat_groups(out), flat_groups))
            return goals
        ck.case(f'uniform_angle {sh} radii', lambda k, l, h: cr.uniform_angle(k, sh, l, h), (key, lo, hi), o, symrand=True)

        ck.fresh()

        def o(a, out):
            return [Holds('shape', out.shape == sh)] + [Rel('|z| <= 1', abs2(x) - 1, '<=') for x in out.reshape(-1)]
        ck.case(f'uniform_angle {sh} default', lambda k: cr.uniform_angle(k, sh), (keyvar('k'),), o, symrand=True)

        ck.fresh()

        def o(a, out):
            goals = [Holds('shape', out.shape == sh)] + [Eq('|z| = 1', abs2(x), ONE) for x in out.reshape(-1)]
            goals.append(not_shared('entries use different random numbers', flat_groups(out), flat_groups))
            return goals
        ck.case(f'uniform_angle_unit {sh}', lambda k: cr.uniform_angle_unit(k, sh), (keyvar('k'),), o, symrand=True)

        for name, f, cplx in (('real_sphere', cr.real_sphere, False), ('complex_sphere', cr.complex_sphere, True)):
            ck.fresh()

            def o(a, out):
                goals = [Holds('shape', out.shape == sh)]
                if not sh:
                    return goals + [Eq('unit', alg.lift(out[()] if isinstance(out, np.ndarray) else out), ONE)]
                rows = out.reshape(-1, sh[-1])
                goals += [Eq('unit norm', sum((abs2(x) for x in r), ZERO), ONE) for r in rows]
                goals.append(not_shared('points use different random numbers', [list(r) for r in rows],
                                        lambda r: [list(x) for x in np.asarray(r).reshape(-1, sh[-1])]))
                return goals
            ck.case(f'{name} {sh}', lambda k: f(k, sh), (keyvar('k'),), o, symrand=True)

    for dim in (1, 2, 3):
        for count in (1, 2):
            ck.fresh()

            def o(a, out):
                goals = [Holds('shape', out.shape == (count, dim + 1))]
                goals += [Eq('unit norm', sum((abs2(x) for x in r), ZERO), ONE) for r in out]
                goals.append(not_shared('points use different random numbers', [list(r) for r in out],
                                        lambda r: [list(x) for x in np.asarray(r)]))
                return goals
            ck.case(f'uniform_projective hom count={count} dim={dim}',
                    lambda k: cr.uniform_projective(k, count, dim, affine=False), (keyvar('k'),), o, symrand=True)
            if dim * count > 2 and not ck.thorough or dim * count > 3:
                continue
            ck.fresh()

            def o(a, out):
                z, p = out
                goals = [Holds('shapes', z.shape == (count, dim) and p.shape == (count,))]
                for i in range(count):
                    k = ENGINE.concretize(p[i])
                    goals.append(Holds('patch in range', 0 <= k <= dim))
                    goals += [Rel('|z| <= 1', abs2(x) - 1, '<=') for x in z[i]]
                return goals
            ck.case(f'uniform_projective affine count={count} dim={dim}',
                    lambda k: cr.uniform_projective(k, count, dim), (keyvar('k'),), o, symrand=True)

    overlap(ck)


def overlap(ck):
    cfg = ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (1, 4)) if not ck.thorough else ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (2, 3), (1, 4))
    ck.bounds.append(f'overlap sampling: (count, dim) in {cfg}, every ordered pair of different patches, every patch size > 1')
    for count, dim in cfg:
        ck.fresh()
        d = alg.real_var('d', pos=True)
        from symjax.harness import sym
        s = sym(d + 1, float)
        p, q = ivar('p', 0, dim + 1), ivar('q', 0, dim + 1)
        seen = {}

        def o(a, out):
            _, s, p, q = a
            s = s[()]
            p, q = ENGINE.concretize(p[()]), ENGINE.concretize(q[()])
            j = q - (p < q)
            goals = [Holds('shape', out.shape == (count, dim))]
            facts(s)
            for r in range(count):
                m = [abs2(x) for x in out[r]]
                goals += [Rel(f'|z_{i}| bounded in this chart', m[i] - s * s, '<=') for i in range(dim)]
                goals += [Rel(f'|z_{i}| bounded in other chart', m[i] - s * s * m[j], '<=') for i in range(dim) if i != j]
                goals.append(Rel('transition coordinate bounded in other chart', ONE - s * s * m[j], '<='))
            goals.append(not_shared('points use different random numbers', [list(r) for r in out],
                                    lambda r: [list(x) for x in np.asarray(r)]))
            if ENGINE.vals is None:
                goals.append(mirror(out, (p, q), j, count, dim, seen))
            return goals
        ck.case(f'projective_overlap count={count} dim={dim}',
                lambda k, s, p, q: cr.projective_overlap(k, count, dim, p, q, s), (keyvar('k'), s, p, q), o,
                iassume=[p.val[()] != q.val[()]], symrand=True)
    for count, dim in ((0, 2), (2, 0)):
        ck.fresh()
        ck.case(f'projective_overlap empty count={count} dim={dim}',
                lambda k: cr.projective_overlap(k, count, dim, 0, 1, 1.1), (keyvar('k'),),
                lambda a, out: [Holds('shape', out.shape == (count, dim))], symrand=True)


def facts(s):
    """exp(log(s) u) lies in [1, s) for 0 <= u < 1 < s."""
    L = alg.flog(s)
    for d in draw_ids():
        E = alg.fexp(L * F({alg.mono(d): 1}))
        ENGINE.rpc.append((E - 1, '>='))
        ENGINE.rpc.append((E - s, '<'))
        ENGINE.rpc.append(((E * E - s) * (2 * F({alg.mono(d): 1}) - 1), '>='))
    ENGINE.rpc.append((L, '>'))


def mirror(out, pq, j, count, dim, seen):
    """Reversing the draw behind the shared radius gives the moduli of the other chart.

    With bound b = min(1, |z_j|) and reversal |z_j| -> 1/|z_j| this says: |z_i| / b does not depend on
    the shared draw, and is the same function on the branches |z_j| >= 1 and |z_j| < 1.
    """
    def decide(ck, c):
        for r in range(count):
            m = [abs2(x) for x in out[r]]
            us = uses(m[j])
            if len(us) != 1:
                return None
            u, = us
            x = F({alg.mono(u): 1})
            if not smt.prove_identities([(alg.subst(m[j], {u: ONE - x}) * m[j], ONE)]):
                return replay(ck, c, u, r)
            for i in range(dim):
                if i == j:
                    continue
                if u not in uses(m[i]):
                    rel = m[i]
                elif u not in uses(m[i] / m[j]):
                    rel = m[i] / m[j]
                else:
                    return replay(ck, c, u, r)
                old = seen.setdefault((pq, r, i), rel)
                if old is not rel and not smt.prove_identities([(old, rel)]):
                    return replay(ck, c, u, r)
        return True

    def replay(ck, c, u, r):
        for k in range(6):
            vals, ints = ck.path_values()
            vals = dict(vals)
            vals[u] = (vals[u] + 0.17 * k) % 1
            _, a = ck.run_real(c, vals, ints)
            v2 = dict(vals)
            v2[u] = 1 - vals[u]
            _, b = ck.run_real(c, v2, ints)
            a, b = np.abs(np.asarray(a)[r]), np.abs(np.asarray(b)[r])
            want = a / a[j]
            want[j] = 1 / a[j]
            if np.max(np.abs(b - want)) > 1e-6:
                return vals, f'reversed draw gives moduli {b}, mirrored point has {want}'
        return None
    return Custom('reversing the shared draw mirrors the point', decide)
