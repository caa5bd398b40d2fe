"""Varieties built from an expression or as members of the Fermat and Dwork families."""
import itertools
import numpy as np
import jax.numpy as jnp
import sympy
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import Eq, Holds, cvar, ivar
from checks.polys import P
from cyjax import variety as vr

V = [
    P('cubic', 'z0**3 + a*z1**3 - b*z2*z1**2 + 3*z2**3', [('z', [0, 1, 2])], ['a', 'b']),
    P('cubic, other order', 'z0**3 + a*z1**3 - b*z2*z1**2 + 3*z2**3', [('z', [0, 1, 2])], ['b', 'a']),
    P('product', 'z0**3 + psi*z0*z1*z2 - R(1,2)*z1**3 + z2**3', [('z', [0, 1, 2])], ['psi']),
    P('points', 'x0**2 - t*x1*x0 + x1**2', [('x', [0, 1])], ['t']),
    P('quartic', 'w0**2*w3**2 - a*w1*w2**3 + c*w2**4 + b*w3**4', [('w', [0, 1, 2, 3])], ['c', 'a', 'b']),
    P('no parameter', 'z0**3 + z1**2*z2 + z2**3', [('z', [0, 1, 2])], []),
    P('last coordinate missing', 'z0**3 + a*z1**2*z0', [('z', [0, 1, 2])], ['a']),
    P('quintic', 'z0**5 + a*z1**5 + z2**5 - b*z3**4*z0 + z4**5 + a*z0*z1*z2*z3*z4', [('z', [0, 1, 2, 3, 4])], ['b', 'a']),
]
# the degree is not the number of coordinates
OTHER = [
    P('conic', 'z0**2 + a*z1**2 - b*z2*z1 + 3*z2**2', [('z', [0, 1, 2])], ['a', 'b']),
    P('quartic curve', 'z0**4 + a*z1**3*z2 + z2**4', [('z', [0, 1, 2])], ['a']),
]


def numbers(v, N, npar):
    return [Holds('ambient dimension', v.dim_complex == N), Holds('projective dimension', v.dim_projective == N - 1),
            Holds('dimension of the variety', v.dim_variety == N - 2 and v.dim == N - 2),
            Holds('number of parameters', v.par_count == npar and len(v.parameters) == npar),
            Holds('one equation', v.num_defining == 1)]


def value(p, z, par, k):
    z = list(z)
    return p.ref([z if k is None else z[:k] + [alg.ONE] + z[k:]], par)


def run(ck):
    ck.bounds.append('from_sympy: ' + ', '.join(p.name for p in V + OTHER) + '; as text and as expression, parameters listed or collected; every patch; all values')
    for p in V + OTHER:
        (name, ind), = p.variables
        N = len(ind)
        deg = int(sympy.Poly(p.text(), *sympy.symbols([f'{name}{i}' for i in ind])).total_degree())
        for form, listed in itertools.product(('str', 'expr'), (True, False)):
            src = p.text() if form == 'str' else sympy.parse_expr(p.text())
            kw = {'params': list(p.params)} if listed else {}
            args = () if (name, deg) == ('z', 5) else (name, deg)        # defaults
            make = lambda: vr.VarietySingle.from_sympy(src, *args, **kw)
            label = f'{"degree and number of coordinates differ, " if p in OTHER else ""}{p.name}: {form}, {"listed" if listed else "collected"} parameters'

            def ordered(v, par):
                """Values in the order of the parameters reported."""
                names = [str(s) for s in v.parameters]
                return [par[p.params.index(s)] if s in p.params else None for s in names]

            ck.fresh()
            zs, par, pt = cvar('z', (N - 1,)), cvar('par', (len(p.params),)), ivar('p', 0, N)
            hom = cvar('x', (N,))

            def code(zs, hom, par, pt):
                v = make()
                q = ordered(v, list(par))
                q = jnp.stack(q) if q else None
                return v.defining(zs, q, pt), v.defining(zs, params=q, patch=N - 1), v.defining(hom, q), \
                    jnp.asarray(v.defining_poly(zs, q, patch=0), complex), v.defining(hom, q, None)

            def o(a, out):
                zs, hom, par, pt = a
                v = make()
                goals = numbers(v, N, len(p.params))
                names = [str(s) for s in v.parameters]
                goals.append(Holds('order of the parameters', names == p.params if listed else sorted(names) == sorted(p.params)))
                refs = [value(p, zs, par, ENGINE.concretize(pt[()])), value(p, zs, par, N - 1), value(p, hom, par, None), value(p, zs, par, 0), value(p, hom, par, None)]
                return goals + [Eq(f'defining equation {i}', x[()], r) for i, (x, r) in enumerate(zip(out, refs))]
            ck.case(label, code, (zs, hom, par, pt), o)

    dims = range(1, 6 if ck.thorough else 5)
    ck.bounds.append(f'Fermat and Dwork: dimension {list(dims)} and default dimension, every patch, all values')
    for dim in dims:
        member(ck, 'Fermat', lambda: vr.Fermat(dim), None, dim)
        member(ck, 'Dwork', lambda: vr.Dwork(dim), -5, dim)
        member(ck, 'Dwork without factor', lambda: vr.Dwork(dim, factor=False), 1, dim)
        member(ck, 'Dwork with factor 3', lambda: vr.Dwork(dim, 3), 3, dim)
    member(ck, 'default Fermat', vr.Fermat, None, 3)
    member(ck, 'default Dwork', vr.Dwork, -5, 3)


def member(ck, label, make, factor, dim):
    N = dim + 2
    npar = 0 if factor is None else 1
    ck.fresh()
    zs, hom, par, pt = cvar('z', (N - 1,)), cvar('x', (N,)), cvar('par', (npar,)), ivar('p', 0, N)

    def code(zs, hom, par, pt):
        v = make()
        q = par if npar else None
        return v.defining(zs, q, pt), v.defining(hom, q), v.defining(zs, params=q, patch=N - 1)

    def ref(z, par):
        out = sum((x ** N for x in z), alg.ZERO)
        if npar:
            t = par[0]
            for x in z:
                t = t * x
            out = out + t * factor
        return out

    def o(a, out):
        zs, hom, par, pt = a
        k = ENGINE.concretize(pt[()])
        full = lambda k: list(zs[:k]) + [alg.ONE] + list(zs[k:])
        return numbers(make(), N, npar) + [Eq('affine', out[0][()], ref(full(k), par)), Eq('homogeneous', out[1][()], ref(list(hom), par)),
                                           Eq('last patch', out[2][()], ref(full(N - 1), par))]
    ck.case(f'{label}, dimension {dim}', code, (zs, hom, par, pt), o)
