"""Homogeneous / affine conversion."""
import numpy as np
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Rel, Holds, eqs, cvar, ivar
from symjax.smt import z3
import cyjax


def run(ck):
    dims = (1, 2, 3, 4, 5, 6, 7) if ck.thorough else (1, 2, 3, 4, 5)
    ck.bounds.append(f'projective dimension {dims}, patch symbolic over all positions, coordinates arbitrary complex numbers')
    ck.bounds.append('patch selection without patch argument: dimension 1..%d' % (4 if ck.thorough else 3))
    for n in dims:
        ck.fresh()
        z = cvar('z', (n + 1,))
        p = ivar('p', 0, n + 1)

        def o_h2a(a, out):
            z, p = a
            k = ENGINE.concretize(p[()])
            ref = [z[i] / z[k] for i in range(n + 1) if i != k]
            return eqs('affine', out, np.array(ref, object))
        ck.case(f'hom_to_affine n={n}', lambda z, p: cyjax.hom_to_affine(z, p), (z, p), o_h2a, defined=True)

        ck.fresh()
        w = cvar('w', (n,))
        p = ivar('p', 0, n + 1)

        def o_a2h(a, out):
            w, p = a
            k = ENGINE.concretize(p[()])
            ref = list(w[:k]) + [alg.ONE] + list(w[k:])
            return eqs('hom', out, np.array(ref, object))
        ck.case(f'affine_to_hom n={n}', lambda w, p: cyjax.affine_to_hom(w, p), (w, p), o_a2h)

        ck.fresh()
        w = cvar('w', (n,))
        p = ivar('p', 0, n + 1)
        ck.case(f'affine->hom->affine n={n}',
                lambda w, p: cyjax.hom_to_affine(cyjax.affine_to_hom(w, p), p), (w, p),
                lambda a, out: eqs('identity', out, a[0]), defined=True)

        ck.fresh()
        z = cvar('z', (n + 1,))
        p = ivar('p', 0, n + 1)

        def o_rt(a, out):
            z, p = a
            k = ENGINE.concretize(p[()])
            return eqs('same point', out, np.array([x / z[k] for x in z], object))
        ck.case(f'hom->affine->hom n={n}',
                lambda z, p: cyjax.affine_to_hom(cyjax.hom_to_affine(z, p), p), (z, p), o_rt)

        # index maps
        ck.fresh()
        p = ivar('p', 0, n + 1)
        i = ivar('i', 0, n + 1)

        def o_inv(a, out):
            p, i = a[0][()], a[1][()]
            af, back = out
            af, back = af[()], back[()]
            return [Holds('hom -> affine -> hom', z3.Implies(p != i, back == i)),
                    Holds('affine index in range', z3.Implies(p != i, z3.And(af >= 0, af < n)))]
        ck.case(f'index maps n={n}', lambda p, i: (
            (lambda a: (a, cyjax.projective.index_affine_to_hom(p, a)))(cyjax.projective.index_hom_to_affine(p, i))),
            (p, i), o_inv)

        ck.fresh()
        p = ivar('p', 0, n + 1)
        i = ivar('i', 0, n)

        def o_inv2(a, out):
            p, i = a[0][()], a[1][()]
            h, back = out[0][()], out[1][()]
            return [Holds('affine -> hom -> affine', back == i),
                    Holds('never the patch coordinate', h != p),
                    Holds('in range', z3.And(h >= 0, h <= n))]
        ck.case(f'index maps back n={n}', lambda p, i: (
            (lambda h: (h, cyjax.projective.index_hom_to_affine(p, h)))(cyjax.projective.index_affine_to_hom(p, i))),
            (p, i), o_inv2)

        ck.fresh()
        w = cvar('w', (n,))
        p = ivar('p', 0, n + 1)
        i = ivar('i', 0, n)

        def o_place(a, out):
            w, p, i = a
            i = ENGINE.concretize(i[()])
            return [Eq('coordinate at mapped index', out[()], w[i])]
        ck.case(f'index maps placement n={n}',
                lambda w, p, i: cyjax.affine_to_hom(w, p)[cyjax.projective.index_affine_to_hom(p, i)],
                (w, p, i), o_place)

    for n in ((1, 2, 3, 4) if ck.thorough else (1, 2, 3)):
        ck.fresh()
        z = cvar('z', (n + 1,))

        def o_opt(a, out):
            z, = a
            w, k = out
            k = ENGINE.concretize(k[()])
            goals = [Holds('patch in range', 0 <= k <= n)]
            goals += eqs('affine', w, np.array([z[i] / z[k] for i in range(n + 1) if i != k], object))
            for i in range(n + 1):
                if i != k:
                    goals.append(Rel(f'|z_{i}| maximal at patch', z[i] * z[i].conj() - z[k] * z[k].conj(), '<='))
            return goals
        nz = sum((x * x.conj() for x in z.val), alg.ZERO)
        ck.case(f'optimal patch n={n}', lambda z: cyjax.hom_to_affine(z), (z,), o_opt, assume=[(nz, '>')])
