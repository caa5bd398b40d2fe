"""Homogeneous polynomials in affine coordinates."""
import itertools
import numpy as np
import jax.numpy as jnp
import sympy
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, eqs, cvar, ivar
from checks.polys import P, build, ev
from cyjax import polynomial as pm
from cyjax import variety as vr

HOM = [
    P('cubic', 'z0**3 + a*z1**3 + z2**3 - 3*psi*z0*z1*z2 + b*z0*z1**2', [('z', [0, 1, 2])], ['psi', 'b', 'a']),
    P('quadric in a line', '2*z0**2 + a*z0*z1 - R(1,2)*z1**2', [('z', [0, 1])], ['a']),
    P('bilinear', 'a*z0*w1 + b*z1*w0 + 2*z1*w2 - z0*w0', [('z', [0, 1]), ('w', [0, 1, 2])], ['a', 'b']),
    P('bilinear reversed', 'a*z0*w1 + b*z1*w0 + 2*z1*w2 - z0*w0', [('w', [0, 1, 2]), ('z', [0, 1])], ['b', 'a']),
    P('three factors', 'x0*y1*z0 + a*x1*y0*z1 - 2*x1*y1*z0', [('x', [0, 1]), ('y', [0, 1]), ('z', [0, 1])], ['a']),
    P('three factors of different sizes', 'x0*y1*z0 + a*x1*y0*z1 - 2*x1*y2*z0 + b*x0*y2*z1', [('x', [0, 1]), ('y', [0, 1, 2]), ('z', [0, 1])], ['b', 'a']),
    P('no parameter', 'z0**4 + z1**3*z2 + z2**4', [('z', [0, 1, 2])], []),
    P('indices from one', 'a*z1**2 + z2*z3 - 4*z3**2 + z1*z2', [('z', [1, 2, 3])], ['a']),
    P('indices with a gap', 'a*z0**2 + z2*z5 - 4*z5**2 + z0*z2', [('z', [0, 2, 5])], ['a']),
]

THOROUGH = [
    P('quintic', 'a*z0**5 + b*z1**5 + z2**5 + z3**5 + z4**5 - 5*psi*z0*z1*z2*z3*z4 + c*z0**2*z1**3',
      [('z', [0, 1, 2, 3, 4])], ['psi', 'a', 'b', 'c']),
    P('bicubic', '(z0**3+a*z1**3+z2**3)*(w0**3+w1**3+b*w2**3) + psi*z0*z1*z2*w0*w1*w2',
      [('z', [0, 1, 2]), ('w', [0, 1, 2])], ['a', 'b', 'psi']),
]


def full(p, vals, patch):
    """Homogeneous coordinates: 1 inserted at the patch position of every group."""
    out = []
    for v, k in zip(vals, patch):
        v = list(v)
        out.append(v[:k] + [alg.ONE] + v[k:])
    return out


def run(ck):
    ck.bounds.append('homogeneous polynomials with one to three projective factors of dimension 1..2, Dwork and Fermat families of '
                     'degree 2..5; every patch, patches as integers, tuples, traced scalars and batches; all values')
    for p in HOM + (THOROUGH if ck.thorough else THOROUGH[:1]):
        sizes = [len(i) for i in p.indices]
        affine = lambda batch=(): [cvar(n, batch + (len(i) - 1,)) for n, i in p.variables]
        single = len(sizes) == 1
        for patch in itertools.product(*map(range, sizes)):
            ck.fresh()
            vs, par = affine(), cvar('par', (len(p.params),))

            def code(vs, par):
                po = build(p, pm.HomPoly)
                f = po.transform_eval()
                out = [po(*vs, par, patch=patch), f(*vs, par, patch=patch), po.affine_poly(patch)(*vs, par),
                       f(params=par, patch=patch, **dict(zip(p.names, vs))),
                       po(params=par, patch=patch, **dict(zip(p.names, vs)))]
                if single:
                    out += [po(*vs, par, patch=patch[0]), f(*vs, par, patch=patch[0]), po.affine_poly(patch[0])(*vs, par)]
                    out += [vr.VarietySingle(po).defining(*vs, par, patch[0])]
                # symbolic affine evaluation
                sy = [np.array([sympy.Symbol(f's{k}_{i}') for i in range(len(v))], dtype=object) for k, v in enumerate(vs)]
                q = np.array([sympy.Symbol(f't{i}') for i in range(len(p.params))], dtype=object)
                e = {f's{k}_{i}': v[i] for k, v in enumerate(vs) for i in range(len(v))}
                e.update({f't{i}': par[i] for i in range(len(p.params))})
                out.append(ev(po(*sy, q, patch=patch), e))
                return [jnp.asarray(o, complex) for o in out]
            ck.case(f'{p.name}: patch {patch}', code, (vs, par),
                    lambda a, out: [Eq(f'call {i}', x[()], p.ref(full(p, a[0], patch), a[1])) for i, x in enumerate(out)])

        # traced patch
        ck.fresh()
        vs, par = affine(), cvar('par', (len(p.params),))
        pts = [ivar(f'p{i}', 0, s) for i, s in enumerate(sizes)]

        def code(vs, par, pts):
            f = build(p, pm.HomPoly).transform_eval()
            out = [f(*vs, par, patch=tuple(pts)), f(*vs, params=par, patch=tuple(pts))]
            if single:
                out.append(f(*vs, par, patch=pts[0]))
                out.append(vr.VarietySingle(build(p, pm.HomPoly)).defining(*vs, par, pts[0]))
            return out

        def o(a, out):
            k = [ENGINE.concretize(x[()]) for x in a[2]]
            return [Eq(f'call {i}', x[()], p.ref(full(p, a[0], k), a[1])) for i, x in enumerate(out)]
        ck.case(f'{p.name}: traced patch', code, (vs, par, pts), o)

        # batch of points and patches
        if single and sizes[0] <= 3:
            ck.fresh()
            vs, par, pt = affine((2,)), cvar('par', (len(p.params),)), ivar('p', 0, sizes[0], (2,))

            def o(a, out):
                goals = []
                for b in range(2):
                    k = ENGINE.concretize(a[2][b])
                    goals.append(Eq(f'value {b}', out[b], p.ref(full(p, [a[0][0][b]], [k]), a[1])))
                return goals
            ck.case(f'{p.name}: batch of patches', lambda vs, par, pt: build(p, pm.HomPoly).transform_eval()(*vs, par, patch=pt),
                    (vs, par, pt), o)

        # homogeneous input
        ck.fresh()
        vs, par = p.args()

        def code(vs, par):
            po = build(p, pm.HomPoly)
            f = po.transform_eval()
            out = [po(*vs, par), po(*vs, par, patch=None), f(*vs, par, patch=None), f(*vs, par)]
            if single:
                out.append(vr.VarietySingle(po).defining(*vs, par))
            return out
        ck.case(f'{p.name}: homogeneous', code, (vs, par), lambda a, out: [Eq(f'call {i}', x[()], p.ref(*a)) for i, x in enumerate(out)])

        # converting to HomPoly after arithmetic
        ck.fresh()
        vs, par = affine(), cvar('par', (len(p.params),))
        k = [s - 1 for s in sizes]
        ck.case(f'{p.name}: from_poly', lambda vs, par: pm.HomPoly.from_poly(build(p, pm.Poly))(*vs, par, patch=tuple(k)), (vs, par),
                lambda a, out: [Eq('value', out[()], p.ref(full(p, a[0], k), a[1]))])
    families(ck)


def families(ck):
    for d in (2, 3, 4, 5) if not ck.thorough else (2, 3, 4, 5, 6):
        for fac in (True, False, -3, 0.5, 1 + 2j):
            val = {True: -5, False: 1}[fac] if isinstance(fac, bool) else fac
            family(ck, f'Dwork degree {d} factor {fac}', d, lambda: pm.DworkPoly(d, fac), lambda z, par: z_sum(z, d) + alg.lift(val) * par[0] * prod(z), 1,
                   (lambda: vr.Dwork(d - 2, fac)) if d > 2 else None)
        family(ck, f'Fermat degree {d}', d, lambda: pm.FermatPoly(d), lambda z, par: z_sum(z, d), 0,
               (lambda: vr.Fermat(d - 2)) if d > 2 else None)
    # the number itself can be symbolic: the factor is passed as traced value
    ck.fresh()
    z, par, fac = cvar('z', (3,)), cvar('par', (1,)), cvar('fac')
    ck.case('Dwork with any factor', lambda z, par, fac: (pm.DworkPoly(4, fac)(z, par, patch=1), pm.DworkPoly(3, fac)(z, par)), (z, par, fac),
            lambda a, out: [Eq('affine', out[0][()], 1 + z_sum(a[0], 4) + a[2][()] * a[1][0] * prod(a[0])),
                            Eq('homogeneous', out[1][()], z_sum(a[0], 3) + a[2][()] * a[1][0] * prod(a[0]))])


def z_sum(z, d):
    return sum((x ** d for x in z), alg.ZERO)


def prod(z):
    r = alg.ONE
    for x in z:
        r = r * x
    return r


def family(ck, name, d, mk, ref, npar, variety):
    for hom in (True, False):
        ck.fresh()
        z, par, p = cvar('z', (d if hom else d - 1,)), cvar('par', (npar,)), ivar('p', 0, d)

        def code(z, par, p):
            po = mk()
            a = (z, par) if npar else (z, None)
            f = po.transform_eval()
            if hom:
                out = [po(*a), f(*a, patch=None), po(z=z, params=a[1])]
                gen = pm.HomPoly.from_poly(pm.Poly(po.sympy_poly, po.variable_names, po.parameters, po.variable_indices))
                out.append(gen(z, par))
                if variety:
                    out.append(variety().defining(*a))
            else:
                out = [po(*a, patch=i) for i in range(d)] + [f(*a, patch=p)] + [f(*a, patch=d - 1), f(z=z, params=a[1], patch=p)]
                gen = pm.HomPoly.from_poly(pm.Poly(po.sympy_poly, po.variable_names, po.parameters, po.variable_indices))
                out += [gen(z, par, patch=i) for i in (0, d - 1)]
                if variety:
                    out.append(variety().defining(*a, p))
            return [jnp.asarray(o, complex) for o in out]

        def o(a, out):
            z, par, p = a
            k = 0 if hom else ENGINE.concretize(p[()])
            w = list(z) if hom else list(z[:k]) + [alg.ONE] + list(z[k:])
            return [Eq(f'call {i}', x[()], ref(w, par)) for i, x in enumerate(out)]
        ck.case(f'{name} {"homogeneous" if hom else "affine"}', code, (z, par, p), o)
