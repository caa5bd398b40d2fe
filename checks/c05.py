"""All evaluation routes of a polynomial agree with the polynomial it was built from."""
import itertools
import numpy as np
import jax.numpy as jnp
import sympy
from symjax import alg
from symjax.harness import Eq, eqs, cvar
from checks.polys import P, POLYS, build, ev
from cyjax import polynomial as pm

EXTRA = [
    P('two-digit indices', 'a*z2**2 + 3*z9*z10 - z10**3 + b*z2*z9', [('z', [2, 9, 10])], ['b', 'a']),
    P('floating coefficients', '2.0*z0**3 + 2.0005*a*z0*z1 - 0.9998*z1**2 + 3.0*z1', [('z', [0, 1])], ['a']),
]


def env_of(p, vals, par):
    return p.env(list(vals), par)


def run(ck):
    ck.bounds.append('polynomial shapes of checks/polys.py (up to three variable groups, parameters, gaps in the indices, '
                     'complex and fractional coefficients, here also two-digit indices and floating coefficients), all values of variables and parameters')
    for p in POLYS + EXTRA:
        numeric(ck, p)
        symbolic(ck, p)
        monomials(ck, p)
    batched(ck)
    symbolic_powers(ck)


def numeric(ck, p):
    n = len(p.variables)
    for form in ('str', 'expr', 'poly', 'symbols'):
        ck.fresh()
        vs, par = p.args()

        def code(vs, par):
            po = build(p, pm.Poly, form)
            kw = dict(zip(p.names, vs))
            out = [po(*vs, par), po(*vs, params=par), po(params=par, **kw), po(vs[0], params=par, **dict(list(kw.items())[1:]))]
            if not p.params:
                out.append(po(*vs))
            return [jnp.asarray(o) for o in out]
        ck.case(f'{p.name}: numeric from {form}', code, (vs, par),
                lambda a, out: [Eq(f'call {i}', o[()], p.ref(*a)) for i, o in enumerate(out)])
    ck.fresh()
    vs, par = p.args()

    def code(vs, par):
        f = build(p, pm.Poly).transform_eval()
        return [f(*vs, par), f(params=par, **dict(zip(p.names, vs))), f(*vs, params=par)]
    ck.case(f'{p.name}: generated function', code, (vs, par),
            lambda a, out: [Eq(f'call {i}', o[()], p.ref(*a)) for i, o in enumerate(out)])
    for what in ('names', 'params', 'neither'):
        # layout found by the library: pass everything by name
        if p.build or (what != 'names' and any(s not in p.expr for s in p.params)) or p.name == 'unused parameter':
            continue
        if what == 'neither' and p.params:
            continue
        ck.fresh()
        vs, par = p.args()

        def code(vs, par):
            po = build(p, pm.Poly, names=what == 'names', params=what == 'params')
            e = {str(q): par[i] for i, q in enumerate(p.params)}
            q = jnp.array([e[str(s)] for s in po.parameters]) if len(po.parameters) else jnp.zeros((0,), complex)
            return po(params=q, **dict(zip(p.names, vs)))
        ck.case(f'{p.name}: layout detected given {what}', code, (vs, par), lambda a, out: [Eq('value', out[()], p.ref(*a))])


def symbolic(ck, p):
    """Symbolic evaluation followed by substitution of values."""
    syms, par = p.symbols()
    flat = [s for v in syms for s in np.atleast_1d(v)] + list(par)
    same = {str(s): s for s in flat}
    cyc = dict(zip(map(str, flat), flat[1:] + flat[:1]))              # every symbol replaced by another one in use
    swap = dict(same)
    if len(flat) > 1:
        swap[str(flat[0])], swap[str(flat[1])] = flat[1], flat[0]
    new = {str(s): sympy.Symbol(f'new{i}') for i, s in enumerate(flat)}
    num = dict(same)
    num[str(flat[0])] = sympy.Integer(2)
    for kind, m in (('same symbols', same), ('cyclic permutation', cyc), ('swapped symbols', swap), ('new symbols', new), ('number', num)):
        ck.fresh()
        vs, pr = p.args()

        def code(vs, pr):
            e = env_of(p, vs, pr)
            back = {str(t): e[s] for s, t in m.items()} if kind == 'new symbols' else e
            po = build(p, pm.Poly)
            a = [np.array(m[str(v)]) if v.ndim == 0 else np.array([m[str(s)] for s in v]) for v in syms]
            q = np.array([m[str(s)] for s in par], dtype=object)
            out = [po(*a, q), po(params=q, **dict(zip(p.names, a)))] + ([po()] if kind == 'same symbols' else [])
            return [jnp.asarray(ev(o, back), complex) for o in out]

        def o(a, out):
            e = env_of(p, a[0], a[1])
            b = {s: (alg.lift(int(t)) if t.is_number else (e[s] if kind == 'new symbols' else e[str(t)])) for s, t in m.items()}
            v2 = [b[str(v)] if v.ndim == 0 else [b[str(s)] for s in v] for v in syms]
            ref = p.ref(v2, [b[str(s)] for s in par])
            return [Eq(f'call {i}', x[()], ref) for i, x in enumerate(out)]
        ck.case(f'{p.name}: symbolic, {kind}', code, (vs, pr), o)

    ck.fresh()
    vs, pr = p.args()

    def code(vs, pr):
        po = build(p, pm.Poly)
        e = env_of(p, vs, pr)
        outs = [po(), po.sympy_poly.as_expr(), po(*po.all_symbols())]
        if p.params:
            outs.append(po(*po.all_symbols(True, False)))          # parameters left as they are
        return [jnp.asarray(ev(o, e), complex) for o in outs]
    ck.case(f'{p.name}: own symbols', code, (vs, pr), lambda a, out: [Eq(f'call {i}', x[()], p.ref(*a)) for i, x in enumerate(out)])


def monomials(ck, p):
    for mode in ('log', 'opt', 'plain', 'symbolic'):
        ck.fresh()
        vs, par = p.args()

        def code(vs, par):
            po = build(p, pm.Poly)
            coeffs, cpar, powers = po.to_coeffs_and_powers()
            e = env_of(p, vs, par)
            c = []
            for k, ps in zip(coeffs, cpar):
                v = complex(k)
                for s in ps:
                    v = v * e[str(s)]
                c.append(v)
            if mode == 'symbolic':
                syms, _ = p.symbols()
                cs = np.array([sympy.Symbol(f'k{i}') for i in range(len(c))])
                t = pm.compute_monomials(syms, cs, powers, symbolic=True)
                e.update({f'k{i}': x for i, x in enumerate(c)})
                return jnp.asarray(sum(ev(x, e) for x in t), complex)
            t = pm.compute_monomials(vs, jnp.asarray(jnp.stack([jnp.asarray(x, complex) for x in c])), powers,
                                     log=mode == 'log', opt=mode == 'opt')
            return jnp.sum(t)
        ck.case(f'{p.name}: sum of extracted monomials, {mode}', code, (vs, par), lambda a, out: [Eq('value', out[()], p.ref(*a))])


def batched(ck):
    for p in POLYS[:4]:
        for shapes in itertools.product(((), (2,)), repeat=2):
            ck.fresh()
            vs = p.args(shapes[0])[0]
            par = p.args(shapes[1])[1]

            def o(a, out):
                b = np.broadcast_shapes(*shapes)
                goals = []
                if out.shape != b:
                    return eqs('shape', out, np.zeros(b))
                for ix in np.ndindex(*b):
                    v = [x[ix] if shapes[0] else x for x in a[0]]
                    q = a[1][ix] if shapes[1] else a[1]
                    goals.append(Eq(f'value at {ix}', out[ix], p.ref(v, q)))
                return goals
            ck.case(f'{p.name}: generated function, batch {shapes}', lambda vs, par: build(p, pm.Poly).transform_eval()(*vs, par),
                    (vs, par), o)


def symbolic_powers(ck):
    """Monomials for every table of powers."""
    from symjax.harness import ivar
    from symjax.engine import ENGINE
    hi = 5 if ck.thorough else 4
    ck.bounds.append(f'compute_monomials for all powers 0..{hi - 1} of two groups (scalar and vector of length 2), variables without value and powers')
    for mode in ('log', 'opt', 'plain'):
        ck.fresh()
        x, z, k = cvar('x'), cvar('z', (2,)), cvar('k', (1,))
        px, pz = ivar('px', 0, hi, (1, 1)), ivar('pz', 0, hi, (1, 2))

        def o(a, out):
            x, z, k, px, pz = a
            e = [ENGINE.concretize(px[0, 0]), ENGINE.concretize(pz[0, 0]), ENGINE.concretize(pz[0, 1])]
            return eqs('monomial', out, np.array([k[0] * x[()] ** e[0] * z[0] ** e[1] * z[1] ** e[2]], object))
        ck.case(f'compute_monomials with symbolic powers, {mode}',
                lambda x, z, k, px, pz: pm.compute_monomials((x, z), k, (px, pz), log=mode == 'log', opt=mode == 'opt'),
                (x, z, k, px, pz), o)
        # a variable that does not appear: no value and no powers
        ck.fresh()
        z, k = cvar('z', (2,)), cvar('k', (2,))
        pw = np.array([[1, 0], [2, 3]])

        def absent(z, k):
            kw = dict(log=mode == 'log', opt=mode == 'opt')
            return [pm.compute_monomials(v, k, p, **kw) for v, p in (((z, None), (pw, None)), ((None, z), (None, pw)))]

        def o2(a, out):
            z, k = a
            ref = np.array([k[0] * z[0], k[1] * z[0] ** 2 * z[1] ** 3], object)
            return [g for i, x in enumerate(out) for g in eqs(f'order {i}', x, ref)]
        ck.case(f'compute_monomials with an absent variable, {mode}', absent, (z, k), o2)
