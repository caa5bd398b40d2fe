"""Points on the variety: intersection sampling and solving for a coordinate."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from symjax import alg, interp
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, Custom, eqs, cvar, keyvar
from checks import geom
from checks.draws import keys_used_once
from checks.roots import zero_values, all_roots, tries
from checks.polys import P

CONIC = P('conic', 'z0**2 + a*z1**2 - z2*z1 + z2**2', [('z', [0, 1, 2])], ['a'])
CONIC0 = P('plain conic', 'z0**2 + z1**2 + z2**2', [('z', [0, 1, 2])], [])
NAMES = P('conic with parameters t, p_0, q_1', 'z0**2 + t*z1**2 + p_0*z2*z1 + q_1*z2**2', [('z', [0, 1, 2])], ['q_1', 't', 'p_0'])
SQUARE = P('quadric surface', 'z0**2 + a*z1**2 + z2*z3', [('z', [0, 1, 2, 3])], ['a'])
CUBIC1 = P('cubic curve', 'z0**3 + z1**3 + z2**3 - a*z0*z1*z2', [('z', [0, 1, 2])], ['a'])
LINE = P('line', 'z0 + a*z1 + b*z2', [('z', [0, 1, 2])], ['a', 'b'])


def number(p, z, par, k=None):
    """Numerical value of the polynomial, relative to the size of its terms."""
    z = list(z) if k is None else list(z[:k]) + [1] + list(z[k:])
    e = {'R': lambda a, b: abs(a) / abs(b), 'I': 1.0}
    e.update({f'z{i}': abs(complex(x)) for i, x in enumerate(z)})
    e.update({n: abs(complex(x)) for n, x in zip(p.params, [] if par is None else par)})
    size = eval(p.expr.replace('-', '+'), {'__builtins__': {}}, e)
    e = {f'z{i}': complex(x) for i, x in enumerate(z)}
    e.update({n: complex(x) for n, x in zip(p.params, [] if par is None else par)})
    e['R'], e['I'] = lambda a, b: a / b, 1j
    return eval(p.expr, {'__builtins__': {}}, e) / size


def mk(p, par):
    return None if not p.params else par


def run(ck):
    ck.assumptions.append('root finding (companion matrix eigenvalues) is represented by its contract: every returned root satisfies the polynomial '
                          'handed over and the roots are all of them; the leading coefficient is not zero')
    solve(ck)
    sample(ck)


def solve(ck):
    polys = [CONIC, CONIC0, geom.CUBIC, geom.QUADRIC, geom.FERMAT3, geom.generic(3, 2), geom.generic(3, 3), LINE, geom.CUBIC3, geom.QUARTIC]
    if ck.thorough:
        polys += [geom.generic(4, 2), geom.generic(4, 3), geom.generic(3, 4)]
    ck.bounds.append('solve_defining: ' + ', '.join(p.name for p in polys) + '; every patch and dependent coordinate, arbitrary other coordinates and parameters')
    for p in polys:
        N = len(p.indices[0])
        v = geom.variety(p)
        for k in [None] + list(range(N)):
            n = N if k is None else N - 1
            for d in range(n):
                ck.fresh()
                z, par = cvar('z', (n - 1,)), cvar('par', (len(p.params),))
                hom = d if k is None or d < k else d + 1
                x = alg.complex_var('x')
                q = geom.affine_value(p, list(z.val[:d]) + [x] + list(z.val[d:]), par.val, k)
                deg = degree_in(q, x)
                if deg == 0:
                    continue

                def code(z, par):
                    with jax.ensure_compile_time_eval():    # indices stay numbers
                        return v.solve_defining(z, mk(p, par), d) if k is None else v.solve_defining(z, mk(p, par), d, k)

                def o(a, out):
                    z, par = a
                    goals = [Holds('one point per root', out.shape == (deg, n))]
                    if out.shape != (deg, n):
                        return goals
                    for r in range(deg):
                        goals += eqs(f'given coordinates, point {r}', np.delete(out[r], d), np.array(list(z), object))
                    if ENGINE.vals is None:
                        goals.append(zero_values('points on the variety', [geom.affine_value(p, out[r], par, k) for r in range(deg)],
                                                 lambda a, out: [number(p, r, a[1], k) for r in np.asarray(out)]))
                        goals.append(all_roots('different roots', [out[r, d] for r in range(deg)], lambda a, out: np.asarray(out)[:, d]))
                    return goals
                ck.case(f'{p.name}: solve for {d} in patch {k}', code, (z, par), o, generic=True)
    # batches
    for p in [CONIC, geom.CUBIC]:
        ck.fresh()
        v = geom.variety(p)
        z, par = cvar('z', (2, 1)), cvar('par', (2, len(p.params)))

        def o(a, out):
            z, par = a
            deg = out.shape[1]
            goals = [Holds('shape', out.shape[0] == 2 and out.shape[2:] == (2,))]
            for b in range(2):
                for r in range(deg):
                    goals.append(Eq(f'given coordinate {b} {r}', out[b, r, 1], z[b, 0]))
            if ENGINE.vals is None:
                goals.append(zero_values('points on the variety', [geom.affine_value(p, out[b, r], par[b], 2) for b in range(2) for r in range(deg)],
                                         lambda a, out: [number(p, np.asarray(out)[b, r], a[1][b], 2) for b in range(2) for r in range(deg)]))
            return goals
        def code(z, par):
            with jax.ensure_compile_time_eval():
                return v.solve_defining(z, par, 0, 2)
        ck.case(f'{p.name}: batch', code, (z, par), o, generic=True)


def degree_in(q, x):
    vid = alg.var_of(x)
    return max(((m >> (alg.BITS * vid)) & alg.FIELD) for m in q.num)


def sample(ck):
    cases = [(CONIC, 1), (CONIC, 3), (CONIC0, 2), (NAMES, 3), (LINE, 2), (CUBIC1, 1), (CUBIC1, 2), (CUBIC1, 4), (SQUARE, 3), (geom.FERMAT3, 1), (CONIC, 5)]
    if ck.thorough:
        cases += [(geom.CUBIC, 4), (geom.generic(3, 2), 3), (SQUARE, 5)]
    ck.bounds.append('sampling: ' + ', '.join(f'{p.name} x{c}' for p, c in cases) + '; all random numbers, arbitrary parameters')
    for p, count in cases:
        v = geom.variety(p)
        N = len(p.indices[0])
        for affine in (False, True):
            if affine and count > (2 if ck.thorough or p is LINE else 1):
                continue
            ck.fresh()
            par = cvar('par', (len(p.params),))

            def o(a, out):
                _, par = a
                goals = [keys_used_once()] if ENGINE.vals is None else []
                zs, patch = out if affine else (out, None)
                shape = (count, N - 1 if affine else N)
                goals.append(Holds('requested number of points', zs.shape == shape))
                if affine:
                    goals.append(Holds('one patch per point', patch.shape == (count,)))
                if zs.shape != shape or ENGINE.vals is not None:
                    return goals
                ks = [ENGINE.concretize(x) for x in patch] if affine else [None] * count

                def numeric(a, out):
                    zs, patch = out if affine else (out, [None] * count)
                    return [number(p, z, a[1], None if k is None else int(k)) for z, k in zip(np.asarray(zs), patch)]
                goals.append(zero_values('points on the variety', [geom.affine_value(p, z, par, k) for z, k in zip(zs, ks)], numeric))
                goals.append(all_roots('different points', [sum((x * (j + 2) for j, x in enumerate(z)), alg.ZERO) for z in zs],
                                       lambda a, out: np.asarray(out[0] if affine else out)))
                if not affine:
                    goals.append(nonzero())
                return goals
            ck.case(f'{p.name}: {count} points{" affine" if affine else ""}', lambda key, par: v.sample_intersect(key, mk(p, par), count, affine),
                    (keyvar('key'), par), o, symrand=True, generic=True)

    # with weights: the same points, and the weights belong to them
    for p, count in [(CONIC, 1), (CONIC0, 2), (CUBIC1, 1), (SQUARE, 1)]:
        v = geom.variety(p)
        for affine in (False, True):
            ck.fresh()
            par = cvar('par', (len(p.params),))

            def code(key, par):
                q = mk(p, par)
                return v.sample_intersect(key, q, count, affine, True), v.sample_intersect(key, q, count, affine), v.sample_intersect(key, q, count, True)

            def o(a, out):
                (pts, w), plain, (zs, patch) = out
                _, par = a
                goals = [Holds('one weight per point', w.shape == (count,))]
                if affine:
                    goals += eqs('same points', pts[0], plain[0]) + eqs('same patches', pts[1], plain[1])
                else:
                    goals += eqs('same points', pts, plain)
                for i in range(count):
                    goals.append(Eq(f'weight of point {i}', w[i], weight(p, zs[i], par, ENGINE.concretize(patch[i]))))
                return goals
            ck.case(f'{p.name}: {count} points with weights{" affine" if affine else ""}', code, (keyvar('key'), par), o, symrand=True, generic=True, abbrev=interp.drawn)


def weight(p, z, par, k):
    """Density of the holomorphic volume form with respect to the Fubini-Study measure (any dependent coordinate)."""
    n = len(z)
    x = [alg.complex_var('x') for _ in z]
    g = geom.gradient(p, x, par, k)
    at = {alg.var_of(a): b for a, b in zip(x, z)}
    g = [alg.subst(f, at) for f in g]
    d = next(i for i, f in enumerate(g) if not f.is_zero())
    J = geom.jacobian(g, d)
    det = geom.det(geom.pull(J, geom.fs(list(z)), geom.conj(J)))
    return alg.PI() ** (n - 1) / (math.factorial(n - 1) * det * g[d] * g[d].conj())


def nonzero():
    def decide(ck, c):
        for vals, ints in tries(ck):
            _, out = ck.run_real(c, vals, ints)
            z = np.asarray(out)
            if np.isfinite(z).all() and np.abs(z).max(axis=1).min() > 1e-2:
                return True
        return vals, 'a sampled point has vanishing homogeneous coordinates'
    return Custom('homogeneous coordinates are not all zero for generic draws', decide)
