"""Distribution of the random samplers."""
import math
from fractions import Fraction
import numpy as np
from symjax import alg, smt
from symjax.alg import F, ZERO, ONE
from symjax.engine import ENGINE
from symjax.harness import Custom, Holds, keyvar, rvar, ivar, sym, full_values
from checks.c24 import abs2
from checks.draws import uses
from cyjax import random as cr

STEP = 1e-5


def is_uniform(d):
    return alg.VARS[d].data is not None


def same(*pairs):
    return smt.prove_identities([(alg.lift(a), alg.lift(b)) for a, b in pairs])


def points(ck):
    """Assignments of the draws (inside their range) on the current path."""
    vals, ints = ck.path_values()
    out = []
    for k in range(4):
        v = dict(full_values(vals))
        for i, x in enumerate(alg.VARS):
            if x.kind == 'real' and x.data is not None:
                v[x.id] = 0.1 + 0.8 * ((v[x.id] + 0.37 * k + 0.11 * k * (i % 5)) % 1)
        out.append(v)
    return out, ints


def slopes(ck, c, vals, ints, ids, pick):
    """Central differences of the picked outputs by the draws."""
    out = []
    for d in ids:
        v, w = dict(vals), dict(vals)
        v[d], w[d] = vals[d] + STEP, vals[d] - STEP
        _, a = ck.run_real(c, v, ints)
        _, b = ck.run_real(c, w, ints)
        out.append((np.asarray(pick(a), complex) - np.asarray(pick(b), complex)) / 2 / STEP)
    return out


def area(label, z, pick, size=None):
    """Uniform with respect to area: the element d(re, im)/d(draws) is a constant (of the given size)."""
    def decide(ck, c):
        ds = sorted(uses(z))
        if len(ds) > 2 or not all(is_uniform(d) for d in ds):
            return True                 # another construction
        if len(ds) == 2:
            u, v = ds
            x, y = z.real, z.imag
            J = alg.diff(x, u) * alg.diff(y, v) - alg.diff(x, v) * alg.diff(y, u)
            if (same((J * J, size * size)) if size is not None else
                    same((alg.diff(J, u), ZERO), (alg.diff(J, v), ZERO)) and not same((J, ZERO))):
                return True
        seen = []
        vs, ints = points(ck)
        for vals in vs:
            s = slopes(ck, c, vals, ints, ds, pick)
            s = [complex(x) for x in s] + [0j] * (2 - len(ds))
            seen.append(abs(s[0].real * s[1].imag - s[1].real * s[0].imag))
            want = abs(alg.numval(size, vals)) if size is not None else seen[0]
            if abs(seen[-1] - want) > 1e-4 * (1 + want) or seen[-1] < 1e-9:
                return vals, f'area element {seen[-1]:.6g}' + (f' instead of {abs(want):.6g}' if size is not None else f', elsewhere {seen[0]:.6g}')
        return None
    return Custom(label, decide)


def phase(label, zs, pick):
    """Every phase is uniform on the circle, driven by a random number of its own."""
    def decide(ck, c):
        own = []
        for i, z in enumerate(zs):
            m = uses(abs2(z))
            ds = uses(z)
            if not all(is_uniform(d) for d in ds):
                return True             # another construction
            own.append(sorted(ds - m))
            if len(own[-1]) > 1 or (not own[-1] and ds):
                if not own[-1]:
                    r = fixed(ck, c, i, sorted(ds))
                    if r is not None:
                        return r
                return True
            if not own[-1]:
                return fixed(ck, c, i, [])
        for i, z in enumerate(zs):
            u, = own[i]
            d = alg.diff(z, u)
            t = alg.I_ * alg.PI() * 2 * z
            if not same((d, t)) and not same((d, -t)):
                vs, ints = points(ck)
                for vals in vs:
                    s, = slopes(ck, c, vals, ints, [u], lambda r: pick(r)[i])
                    _, a = ck.run_real(c, vals, ints)
                    rate = complex(s) / complex(pick(a)[i])
                    if abs(abs(rate.imag) - 2 * math.pi) > 1e-4:
                        return vals, f'the phase of entry {i} changes at rate {rate.imag:.6g} instead of 2 pi'
                return None
            for j in range(i):
                if own[i] == own[j]:
                    vals, ints = ck.path_values()
                    s, = slopes(ck, c, vals, ints, [u], lambda r: [pick(r)[i], pick(r)[j]])
                    if np.min(np.abs(s)) > 1e-4:
                        return vals, f'entries {i} and {j} share their random phase'
                    return None
        return True

    def fixed(ck, c, i, ds):
        vs, ints = points(ck)
        for vals in vs:
            _, a = ck.run_real(c, vals, ints)
            a = complex(pick(a)[i])
            for s in slopes(ck, c, vals, ints, ds, lambda r: pick(r)[i]):
                if abs((complex(s) / a).imag) > 1e-6:
                    return None
        return vs[0], f'the phase of entry {i} does not depend on any random number'
    return Custom(label, decide)


def sphere(label, parts, pick):
    """Uniform on the sphere: an orthogonal transformation of independent normal numbers, normalised."""
    def decide(ck, c):
        ds = sorted(set().union(*[uses(x) for x in parts]))
        n = len(parts)
        if len(ds) > n or 0 < sum(map(is_uniform, ds)) < len(ds):
            return True                 # another construction
        vs, ints = points(ck)
        if n > 1 and len(ds) == n and is_uniform(ds[0]):
            return box(ck, c, ds, vs, ints)
        if len(ds) == n:
            xs = [F({alg.mono(d): 1}) for d in ds]
            r = alg.fsqrt(sum((x * x for x in xs), ZERO))
            hs = [p * r for p in parts]
            Q = [[Fraction(complex(alg.numval(alg.diff(h, d), vs[0])).real).limit_denominator(1000) for d in ds] for h in hs]
            lin = [sum((x * q for x, q in zip(xs, row)), ZERO) for row in Q]
            if same(*zip(hs, lin)):
                M = np.array(Q, float)
                if np.allclose(M @ M.T, np.eye(n)):
                    return True
        # the vector times the norm of the draws is not linear, or not orthogonal
        def value(v):
            _, a = ck.run_real(c, v, ints)
            return np.asarray(pick(a), float) * math.sqrt(sum(v[d] ** 2 for d in ds))
        for k in range(4):
            v, w = dict(vs[0]), dict(vs[0])
            for i, d in enumerate(ds):
                v[d], w[d] = vs[0][d] * (1 + 0.3 * (i + k) % 2), 0.4 + 0.7 * ((i * 3 + k) % 4) - 0.5 * k
            s = dict(v)
            for d in ds:
                s[d] = v[d] + w[d]
            a, b, t = value(v), value(w), value(s)
            if np.max(np.abs(t - a - b)) > 1e-6:
                return v, f'directions of normal vectors are distorted: {t} is not {a} + {b}'
            if abs(a @ a - sum(v[d] ** 2 for d in ds)) > 1e-6 or len(ds) < n:
                return v, f'image {a} of the normal vector has another length, or depends on {len(ds)} numbers only'
        return None
    def box(ck, c, ds, vs, ints):
        """Directions of points that are uniform in a box are not uniform: their ratios are affine in a draw."""
        rho = parts[0] / parts[1]
        for d in sorted(uses(parts[0])):
            if same((alg.diff(alg.diff(rho, d), d), ZERO)) and not same((alg.diff(rho, d), ZERO)):
                break
        else:
            return True                 # another construction
        for vals in vs:
            r = []
            for t in (0.2, 0.4, 0.6):
                _, a = ck.run_real(c, {**vals, d: t}, ints)
                a = pick(a)
                r.append(float(a[0]) / float(a[1]))
            if abs(r[0] - 2 * r[1] + r[2]) > 1e-9 * (1 + abs(r[1])) or abs(r[2] - r[0]) < 1e-9:
                return None
        return vs[0], f'the ratio of two coordinates is an affine function of a uniform number: {r}'
    return Custom(label, decide)


def run(ck):
    shapes = ((), (1,), (4,), (2, 3), (2, 1, 2)) if not ck.thorough else ((), (1,), (3,), (4,), (6,), (2, 3), (2, 1, 2), (3, 3))
    ck.bounds.append(f'sample shapes {shapes}; all radii 0 < minrad < maxrad and the default radii; every value of the random numbers')
    ck.assumptions.append('jax.random.uniform and normal give independent numbers of their distribution; samplers are maps of these numbers, '
                          'a map with constant area element has uniform image (its range is checked by C24)')
    ck.assumptions.append('constructions with more random numbers than coordinates, or from another kind of random numbers, are not judged')
    for sh in shapes:
        flat = lambda r: np.asarray(r).reshape(-1)
        ck.fresh()
        ck.case(f'uniform_components {sh}', lambda k: cr.uniform_components(k, sh), (keyvar('k'),),
                lambda a, out: [area(f'entry {i}: uniform', z, lambda r, i=i: flat(r)[i]) for i, z in enumerate(out.reshape(-1))] if ENGINE.vals is None else [Holds('runs', True)],
                symrand=True)
        ck.fresh()
        key, lo, d = keyvar('k'), rvar('lo', (), pos=True), rvar('d', (), pos=True)
        hi = sym(lo.val[()] + d.val[()], float)

        def o(a, out):
            if ENGINE.vals is not None:
                return [Holds('runs', True)]
            _, lo, hi = a
            size = alg.PI() * (hi[()] ** 2 - lo[()] ** 2)
            return [area(f'entry {i}: uniform in the ring', z, lambda r, i=i: flat(r)[i], size) for i, z in enumerate(out.reshape(-1))] + \
                [phase('uniform phases', list(out.reshape(-1)), flat)]
        ck.case(f'uniform_angle {sh} radii', lambda k, l, h: cr.uniform_angle(k, sh, l, h), (key, lo, hi), o, symrand=True)
        ck.fresh()

        def o(a, out):
            if ENGINE.vals is not None:
                return [Holds('runs', True)]
            return [area(f'entry {i}: uniform in the disk', z, lambda r, i=i: flat(r)[i], alg.PI()) for i, z in enumerate(out.reshape(-1))]
        ck.case(f'uniform_angle {sh} default', lambda k: cr.uniform_angle(k, sh), (keyvar('k'),), o, symrand=True)
        ck.fresh()
        ck.case(f'uniform_angle_unit {sh}', lambda k: cr.uniform_angle_unit(k, sh), (keyvar('k'),),
                lambda a, out: [phase('uniform phases', list(out.reshape(-1)), flat)] if ENGINE.vals is None else [Holds('runs', True)], symrand=True)
    for name, f, cplx in (('real_sphere', cr.real_sphere, False), ('complex_sphere', cr.complex_sphere, True)):
        for sh in ((1,), (2,), (3,), (4,), (2, 3)) if not ck.thorough else ((1,), (2,), (3,), (4,), (5,), (2, 3), (2, 1, 2)):
            rows(ck, f'{name} {sh}', lambda k: f(k, sh), sh[-1], cplx)
    for dim in (1, 2, 3) if not ck.thorough else (1, 2, 3, 4):
        rows(ck, f'uniform_projective, dimension {dim}', lambda k: cr.uniform_projective(k, 2, dim, affine=False), dim + 1, True)
    ck.bounds.append('spheres up to real dimension 8 (thorough 10), projective space up to dimension 3 (thorough 4)')
    cfg = ((1, 1), (2, 1), (2, 2), (1, 3)) if not ck.thorough else ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (2, 3), (1, 4))
    ck.bounds.append(f'phases of overlap samples: (count, dimension) in {cfg}, all pairs of patches and sizes')
    for count, dim in cfg:
        ck.fresh()
        s = sym(alg.real_var('d', pos=True) + 1, float)
        p, q = ivar('p', 0, dim + 1), ivar('q', 0, dim + 1)
        ck.case(f'projective_overlap count={count} dim={dim}',
                lambda k, s, p, q: cr.projective_overlap(k, count, dim, p, q, s), (keyvar('k'), s, p, q),
                lambda a, out: [phase('uniform phases', list(out.reshape(-1)), flat)] if ENGINE.vals is None else [Holds('runs', True)],
                iassume=[p.val[()] != q.val[()]], symrand=True)


def rows(ck, name, code, n, cplx):
    ck.fresh()

    def split(r):
        return [x for y in r for x in (y.real, y.imag)] if cplx else list(r)

    def o(a, out):
        if ENGINE.vals is not None:
            return [Holds('runs', True)]
        return [sphere(f'point {i}: uniform on the sphere', split(r), lambda x, i=i: split(np.asarray(x).reshape(-1, n)[i]))
                for i, r in enumerate(out.reshape(-1, n))]
    ck.case(name, code, (keyvar('k'),), o, symrand=True)
