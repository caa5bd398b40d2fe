"""Batched calls equal element-wise calls."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from jax import tree_util as jtu
from symjax import alg
from symjax.harness import Eq, Holds, eqs, cvar, rvar, hermitian, ivar, sym
from checks import geom
from checks.given import Points, SimpleEta
from checks.polys import build
from cyjax import differential as df, polynomial as pm, projective as pj, util
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull


def C(*base):
    return base, lambda name, shape: cvar(name, shape)


def I(hi):
    return (), lambda name, shape: ivar(name, 0, hi, shape)


def H(n, few=False):
    """Positive diagonal matrices (few: with one unknown)."""
    def make(name, shape):
        d = rvar(name, shape[:-1], pos=True)
        h = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            h[ix] = alg.ZERO if ix[-1] != ix[-2] else d.val[ix[:-1]] if not few or ix[-1] == 0 else alg.lift(2 + ix[-1] + sum(ix))
        return sym(h)
    return (n, n), make


def few(*base):
    """Vectors with one unknown."""
    def make(name, shape):
        v = cvar(name, shape)
        for ix in np.ndindex(*shape):
            if ix[-1]:
                v.val[ix] = alg.lift(1 + sum(ix)) + alg.I_ * ix[0]
        return v
    return base, make


def subsets(k, full):
    """Combinations of batched arguments: each one, all but one, all; everything in the full version."""
    s = [c for r in range(1, k + 1) for c in itertools.combinations(range(k), r)]
    return s if full else [c for c in s if len(c) in (1, k)]


def batched(ck, name, f, spec, full=False, shapes=((2,),), mixed=(), known=None, **kw):
    """spec: (base shape, maker) per argument; mixed: explicit batch shapes per argument."""
    k = len(spec)
    combos = [tuple(B if i in S else () for i in range(k)) for S in subsets(k, full or ck.thorough) for B in shapes]
    for combo in dict.fromkeys(combos + list(mixed)):
        ck.fresh()
        args = [make(f'a{i}', b + base) for i, (b, (base, make)) in enumerate(zip(combo, spec))]
        B = np.broadcast_shapes(*combo)

        def pick(a, b, ix):
            return a[ix[len(ix) - len(b):]] if b else a

        def code(*a):
            return f(*a), [f(*[pick(x, b, ix) for x, b in zip(a, combo)]) for ix in np.ndindex(*B)]

        def o(a, out):
            got, single = out
            goals = []
            gl = jtu.tree_leaves(got)
            for pos, s in zip(np.ndindex(*B), single):
                for j, (g, x) in enumerate(zip(gl, jtu.tree_leaves(s))):
                    ok = tuple(g.shape) == B + tuple(x.shape)
                    goals.append(Holds(f'shape of output {j}', ok))
                    if ok:
                        goals += eqs(f'output {j} at {pos}', np.asarray(g[pos], object), np.asarray(x, object))
            return goals
        ck.case(f'{name}: batch shapes {combo}', code, tuple(args), o, **kw)


def run(ck):
    ck.bounds.append('batch shapes (2,), (2, 2), (1, 2) or (1,), mixed ranks where listed; coordinates in dimension 1 to 3; every single argument batched and all arguments batched, '
                     'every combination for the projective functions and in the thorough version')
    projective(ck)
    variety(ck)
    metric(ck)


def projective(ck):
    n = 2
    two, flat = ((2,), (2, 2)), ((2,), (1, 2))
    if ck.thorough:
        two, flat = two + ((1,),), flat + ((1,),)
    batched(ck, 'index_hom_to_affine', pj.index_hom_to_affine, [I(3), I(3)], shapes=flat)
    batched(ck, 'index_affine_to_hom', pj.index_affine_to_hom, [I(3), I(2)], shapes=flat)
    batched(ck, 'hom_to_affine', pj.hom_to_affine, [C(n + 1), I(n + 1)], full=True, shapes=flat, mixed=[((2, 3), (3,)), ((2,), (1, 2))], generic=True)
    batched(ck, 'hom_to_affine, best patch', lambda z: pj.hom_to_affine(z), [C(n + 1)], shapes=two[:1], generic=True)
    batched(ck, 'affine_to_hom', pj.affine_to_hom, [C(n), I(n + 1)], full=True, shapes=flat, mixed=[((2, 3), (3,)), ((2,), (1, 2))])
    batched(ck, 'change_chart', pj.change_chart, [C(n), I(n + 1), I(n + 1)], full=True, mixed=[((2, 2), (2,), (2,))], generic=True)
    for n in (1, 2, 3):
        batched(ck, f'fs_metric in dimension {n}', pj.fs_metric, [C(n)], shapes=two + ((2, 1, 2),))
        batched(ck, f'fs_potential in dimension {n}', pj.fs_potential, [C(n)], shapes=two)
        batched(ck, f'homogeneous fs_potential in dimension {n}', lambda z: pj.fs_potential(z, hom=True), [C(n + 1)], shapes=two)
        both = [((2,), (2,)), ((2, 2), (2, 2))]
        for nm, f in (('fs_metric', pj.fs_metric), ('fs_potential', pj.fs_potential)):
            batched(ck, f'{nm} with conjugate in dimension {n}', f, [C(n), C(n)], shapes=(), mixed=both)
    for n in (1, 2, 3):
        batched(ck, f'jacobian_embed in dimension {n}', df.jacobian_embed, [C(n), I(n)], full=True, shapes=flat, mixed=[((2, 2), (2,))], generic=True)
    batched(ck, 'induced_metric', df.induced_metric, [C(2, 2), C(2), I(2)], full=True, generic=True)
    batched(ck, 'induced_metric with conjugate', df.induced_metric, [C(2, 2), C(2), I(2), C(2)], generic=True)


    helpers(ck)


def helpers(ck):
    """Flattening of batch dimensions and its inverse."""
    n = 2
    for B in ((), (3,), (2, 2), (1, 2)):
        for given in (False, True):
            ck.fresh()
            z, y = cvar('z', B + (n,)), cvar('y', B + (n,))

            def code(z, y):
                a, s = util.flatten_coord(z)
                b, t = util.flatten_coord(z, y if given else None, True)
                return a, b, util.unflatten_coord(a, s), util.unflatten_coord((b[0][:, 0], jnp.stack([b[1], b[1]], 2)), t), s, t

            def o(args, out):
                z, y = args
                a, b, r, (u, w), s, t = out
                other = y if given else geom.conj(z)
                goals = [Holds('shape', tuple(int(x) for x in s) == B and tuple(int(x) for x in t) == B)]
                for nm, x, ref in (('flat', a, z.reshape(-1, n)), ('flat with conjugate', b[0], z.reshape(-1, n)), ('conjugate', b[1], other.reshape(-1, n)),
                                   ('back', r, z), ('back, scalars', u, z[..., 0]), ('back, matrices', w, np.stack([other, other], -1))):
                    ok = np.shape(x) == np.shape(ref)
                    goals.append(Holds(f'{nm}: shape', ok))
                    goals += eqs(nm, np.asarray(x, object), np.asarray(ref, object)) if ok else []
                return goals
            ck.case(f'flatten_coord, batch {B}, {"given" if given else "computed"} conjugate', code, (z, y), o)


def variety(ck):
    for p in [geom.generic(3, 1)] + ([geom.CUBIC, geom.generic(4, 1), geom.generic(3, 2)] if ck.thorough else []):
        v = geom.variety(p)
        N = len(p.indices[0])
        n, m = N - 1, len(p.params)
        Z, P, Q, D = C(n), C(m), I(N), I(n)
        batched(ck, f'defining of {p.name}', v.defining, [Z, P, Q], full=True, shapes=((2,), (1, 2)), mixed=[((2, 3), (3,), ()), ((2,), (), (2, 2))])
        batched(ck, f'homogeneous defining of {p.name}', v.defining, [C(N), P], full=True)
        batched(ck, f'grad_defining of {p.name}', v.grad_defining, [Z, P, Q], full=True, shapes=((2,), (1, 2)), mixed=[((2, 2), (2,), ())])
        batched(ck, f'homogeneous grad_defining of {p.name}', v.grad_defining, [C(N), P])
        batched(ck, f'jacobian_embed of {p.name}', v.jacobian_embed, [Z, P, Q, D], generic=True)
        batched(ck, f'induced_fs of {p.name}', lambda z, par, q, d: v.induced_fs(z, par, q, None, d), [Z, P, Q, D], generic=True)
        batched(ck, f'induced_metric of {p.name}', lambda g, z, par, q, d: v.induced_metric(g, z, par, q, None, d), [C(n, n), Z, P, Q, D], generic=True)
        batched(ck, f'sample_intersect_weights of {p.name}', v.sample_intersect_weights, [Z, P, Q, D], generic=True)
    # the best dependent coordinate is chosen for every element
    p = geom.generic(3, 1)
    v = geom.variety(p)
    Z, P = C(2), C(3)
    for k in range(3) if ck.thorough else (1,):
        batched(ck, f'best_dependent in patch {k}', lambda z, par: v.best_dependent(z, par, k), [Z, P], generic=True)
        batched(ck, f'jacobian_embed in patch {k}', lambda z, par: v.jacobian_embed(z, par, k), [Z, P], generic=True)
        batched(ck, f'induced_fs in patch {k}', lambda z, par: v.induced_fs(z, par, k), [Z, P], generic=True)
        batched(ck, f'sample_intersect_weights in patch {k}', lambda z, par: v.sample_intersect_weights(z, par, k, separate=True), [Z, P], generic=True)


def metric(ck):
    for n, k in ((1, 2), (2, 2), (3, 1)):
        S = MonomialBasisFull(n, k)
        batched(ck, f'sections of degree {k} in dimension {n}', S, [C(n), I(n + 1)], full=True, shapes=((2,), (1, 2)), mixed=[((2, 3), (3,)), ((2,), (2, 2))] if n < 2 else [])
        batched(ck, f'homogeneous sections of degree {k} in dimension {n}', lambda z: S(z, None), [C(n + 1)], shapes=((2,), (2, 2), (1,)))
    for p, k in ((geom.generic(3, 1), 1),):
        n = 2
        M = AlgebraicMetric(geom.variety(p), MonomialBasisFull(n, k))
        hh, Z, P, Q, D = H(M.sections.size), C(n), C(len(p.params)), I(n + 1), I(n)
        for q, d in ((0, 1), (2, 0)) if ck.thorough else ((2, 0),):
            at = f'in patch {q} with dependent coordinate {d}'
            batched(ck, f'kahler_potential {at}', lambda h, z, par: M.kahler_potential(h, z, par, q, d), [hh, Z, P], generic=True)
            for nm in ('metric', 'eta'):
                batched(ck, f'{nm} {at}', lambda h, z, par: getattr(M, nm)(h, z, par, q, d), [hh, Z, P], generic=True)
            for nm in ('ricci', 'ricci_scalar'):
                batched(ck, f'{nm} {at}', lambda h, z, par: getattr(M, nm)(h, z, par, q, d), [H(3, True), few(n), few(3)], generic=True)
        batched(ck, 'eta', lambda z, par, q, d: M.eta(jnp.diag(jnp.array([1., 2., 3.])) + 0j, z, par, q, d), [Z, P, Q, D], generic=True)
        batched(ck, 'eta with gradient', lambda z, q, d, g: M.eta(jnp.diag(jnp.array([1., 2., 3.])) + 0j, z, jnp.ones(3) + 0j, q, d, g), [Z, Q, D, C(n)], generic=True)
        batched(ck, 'metric with dependent coordinate', lambda h, z, d: M.metric(h, z, jnp.ones(3) + 0j, 1, d), [hh, Z, D], generic=True)
        batched(ck, 'kahler_potential with gradient', lambda h, z, q, d, g: M.kahler_potential(h, z, jnp.ones(3) + 0j, q, d, g), [H(3, True), few(n), Q, D, C(n)], generic=True)
        batched(ck, 'metric with gradient', lambda h, z, q, g: M.metric(h, z, jnp.ones(3) + 0j, q, 0, g), [hh, Z, Q, C(n)], generic=True)
    sigma(ck)


def sigma(ck):
    """Sigma accuracy of several parameters and matrices."""
    def f(z, par, h):
        M = SimpleEta(Points(build(geom.generic(2, 1), pm.HomPoly), z.reshape(2, 1)), MonomialBasisFull(1, 1))
        return M.sigma_accuracy(jax.random.PRNGKey(0), par, h, 2)
    z = jnp.array([[1 + 2j], [3 + 1j]])
    batched(ck, 'sigma_accuracy', lambda par, h: f(z, par, h), [C(2), H(2)], full=True, mixed=[((2, 2), (2,))], generic=True)
