"""Objects behave as values: using one does not change it, and objects do not influence each other."""
import numpy as np
import jax
import jax.numpy as jnp
from symjax import alg
from symjax.harness import Eq, Holds, eqs, cvar, rvar
from checks.polys import P, POLYS, build
from checks.c06 import PAIRS
from checks.c07 import HOM, full
from checks import geom
from checks.jets import Geometry
from checks.c14 import exponents
from checks.c16 import reference
from cyjax import polynomial as pm
from cyjax import variety as vr
from cyjax.donaldson import AlgebraicMetric, MonomialBasisFull, MonomialBasisReduced, monomial_basis

BY = {p.name: p for p in POLYS}
HBY = {p.name: p for p in HOM}


def snapshot(q):
    """Everything an object reports about itself, as plain data."""
    idx = [None if i is None else [int(k) for k in i] for i in q.variable_indices]
    return list(map(str, q.variable_names)), idx, list(map(str, q.parameters)), {str(k): int(v) for k, v in q.parameter_position.items()}


def uses(q, others):
    """Operations that only read their operands; their results are returned to be kept alive."""
    kept = []
    flat = [str(s) for v in q.all_symbols(True, False) for s in np.atleast_1d(v)]
    for o in others:
        kept += [q + o, o + q, q * o, o * q, q - o, o - q]
    kept += [q * 2, q + 1, q - 3, q * 0.5]
    kept += [q.diff(s) for s in flat]
    kept += [c for s in flat for c in pm.univariate_coefficients(q, s)]
    kept += [q(), q.to_coeffs_and_powers(), pm.Poly.from_poly(q), q.domain, q.variable_index_dict, q.variable_position]
    kept += [q.all_symbols(), q.all_symbols(False), repr(q)]
    return kept


def run(ck):
    polynomials(ck)
    homogeneous(ck)
    arguments(ck)
    varieties(ck)
    metrics(ck)


def polynomials(ck):
    pairs = [('quadric', 'cubic'), ('mixed', 'two factors'), ('gap indices', 'cubic'), ('unused parameter', 'quadric'), ('parameter powers', 'no parameter'),
             ('gaps', 'mixed'), ('scalar variable', 'quadric'), ('complex coefficients', 'real coefficients')]
    if ck.thorough:
        pairs += [x for x in PAIRS if x not in pairs]
    ck.bounds.append('polynomials: ' + ', '.join(map(' / '.join, pairs)) + '; sums, products, differences, scalars, derivatives, splittings, conversions; all values')
    for a, b in pairs:
        p, q = BY[a], BY[b]
        ck.fresh()
        (vs, par), (ws, quar) = p.args(), q.args()
        ws = [cvar(f'o{i}', x.val.shape) for i, x in enumerate(ws)]
        quar = cvar('opar', quar.val.shape)
        got = {}

        def code(vs, par, ws, quar):
            x, y = build(p, pm.Poly), build(q, pm.Poly)
            s = [snapshot(x), snapshot(y)]
            fx, fy = x.transform_eval(), y.transform_eval()
            first = [x(*vs, par), y(*ws, quar), fx(*vs, par), fy(*ws, quar)]
            kept = uses(x, [y, x])
            prod, d = kept[2], x.diff(str(np.atleast_1d(x.all_symbols(True, False)[0])[0]))
            s += [snapshot(prod), snapshot(d)]
            kept2 = uses(y, [x, prod]) + uses(prod, [d])
            got['same'] = [u == v for u, v in zip(s, [snapshot(x), snapshot(y), snapshot(prod), snapshot(d)])]
            x(*vs, par), fx(*vs, par)
            return first + [x(*vs, par), y(*ws, quar), fx(*vs, par), fy(*ws, quar), x.transform_eval()(*vs, par), y.transform_eval()(*ws, quar)]

        def o(a, out):
            vs, par, ws, quar = a
            rx, ry = p.ref(vs, par), q.ref(ws, quar)
            refs = [rx, ry, rx, ry] + [rx, ry, rx, ry, rx, ry]
            names = ['first operand', 'second operand', 'product', 'derivative']
            return [Holds(f'description of the {n} unchanged', b) for n, b in zip(names, got['same'])] + \
                [Eq(f'value {"after" if i > 3 else "before"} use {i}', x[()], r) for i, (x, r) in enumerate(zip(out, refs))]
        ck.case(f'{a} and {b}', code, (vs, par, ws, quar), o)


def homogeneous(ck):
    names = [p.name for p in HOM] if ck.thorough else ['cubic', 'bilinear', 'three factors', 'indices from one', 'no parameter']
    ck.bounds.append(f'homogeneous polynomials: {", ".join(names)}; one generated function in all patches, forwards and backwards')
    for name in names:
        p = HBY[name]
        sizes = [len(i) for i in p.indices]
        patches = list(np.ndindex(*sizes))
        ck.fresh()
        vs, par = [cvar(n, (len(i) - 1,)) for n, i in p.variables], cvar('par', (len(p.params),))
        hs = [cvar(f'h{n}', (len(i),)) for n, i in p.variables]
        got = {}

        def code(vs, hs, par):
            x = build(p, pm.HomPoly)
            s = snapshot(x)
            f = x.transform_eval()
            order = patches + patches[::-1]
            out = [f(*hs, par)]
            for k in order:
                out += [f(*vs, par, patch=k), x(*vs, par, patch=k), x.affine_poly(k)(*vs, par), f(*hs, par), x(*hs, par)]
            uses(x, [x])
            got['same'] = s == snapshot(x)
            return out + [x(*vs, par, patch=patches[0]), x(*hs, par)]

        def o(a, out):
            vs, hs, par = a
            hom = p.ref(hs, par)
            at = lambda k: p.ref(full(p, vs, k), par)
            refs = [hom]
            for k in patches + patches[::-1]:
                refs += [at(k)] * 3 + [hom] * 2
            refs += [at(patches[0]), hom]
            return [Holds('description unchanged', got['same'])] + [Eq(f'value {i}', x[()], r) for i, (x, r) in enumerate(zip(out, refs))]
        ck.case(f'{name}: patches in turn', code, (vs, hs, par), o)


def arguments(ck):
    """Lists and arrays handed in stay as they are, and changing them later has no effect."""
    ck.bounds.append('arguments: names, parameters and indices as lists, power tables and coefficients as arrays; changed by the caller afterwards')
    p = BY['mixed']
    ck.fresh()
    vs, par = p.args()
    got = {}

    def code(vs, par):
        names, params, idx = list(p.names), list(p.params), [None if i is None else list(i) for i in p.indices]
        before = (list(names), list(params), [None if i is None else list(i) for i in idx])
        x = pm.Poly.from_sympy(p.text(), names, params, variable_indices=idx)
        uses(x, [build(BY['two factors'], pm.Poly)])
        got['lists'] = (names, params, idx) == before
        c, cp, pw = x.to_coeffs_and_powers()
        c2, cp2, pw2 = [list(c), [list(u) for u in cp], [[list(map(int, r)) for r in t] for t in pw]]
        y = pm.Poly.from_coeffs_and_powers(c, pw, cp, names, idx, params)
        uses(y, [x])
        got['tables'] = list(c) == c2 and [list(u) for u in cp] == cp2 and [[list(map(int, r)) for r in t] for t in pw] == pw2
        c3, cp3, pw3 = x.to_coeffs_and_powers()
        got['again'] = sorted(map(str, c3)) == sorted(map(str, c2)) and [[list(map(int, r)) for r in t] for t in pw3] == pw2
        arr = [np.array(t) for t in pw2]
        copy = [t.copy() for t in arr]
        z = pm.Poly.from_coeffs_and_powers(np.array(c2, object), arr, cp2, names, idx, params)
        m = pm.compute_monomials(vs, jnp.ones(len(c2), complex), arr)
        got['arrays'] = all(np.array_equal(u, v) for u, v in zip(arr, copy))
        for t in arr:
            t[...] = 0
        return x(*vs, par), y(*vs, par), z(*vs, par)

    def o(a, out):
        vs, par = a
        return [Holds('lists of names unchanged', got['lists']), Holds('tables unchanged', got['tables']), Holds('tables extracted again', got['again']),
                Holds('arrays unchanged', got['arrays'])] + [Eq(f'value {i}', x[()], p.ref(vs, par)) for i, x in enumerate(out)]
    ck.case('arguments of constructors', code, (vs, par), o)

    # listing of monomials
    rows = {(n, d): np.array(np.asarray(monomial_basis(n, d))) for n, d in ((1, 2), (2, 2), (2, 3), (3, 1))}
    ck.fresh()
    z = cvar('z', (2,))

    def code(z):
        out = []
        for _ in range(2):
            for n, d in rows:
                with jax.ensure_compile_time_eval():
                    t = monomial_basis(n, d)
                    got[n, d] = np.array_equal(np.asarray(t), rows[n, d])
                if isinstance(t, np.ndarray) and t.flags.writeable:
                    t[...] = 7                      # the caller's array
                B = MonomialBasisFull(n, d)
                if n == 2:
                    out.append(B(z, 1))
        return out

    def o(a, out):
        z, = a
        h = [z[0], alg.ONE, z[1]]
        goals = [Holds(f'monomials {k} listed again', got[k]) for k in rows]
        for x, d in zip(out, (2, 3, 2, 3)):
            for v, e in zip(x, rows[2, d]):
                r = alg.ONE
                for b, k in zip(h, e):
                    r = r * b ** int(k)
                goals.append(Eq(f'section {tuple(map(int, e))}', v, r))
        return goals
    ck.case('monomials listed again', code, (z,), o)


def varieties(ck):
    a, b = geom.CUBIC, P('other cubic', 'z0**3 + a*z1**2*z2 - 2*z2**3 + psi*z0*z1**2', [('z', [0, 1, 2])], ['psi', 'a'])
    ck.bounds.append('varieties: two cubics with the same variables and parameters, quadric; interleaved evaluation, gradients, solving, bases')
    for p, q in ((a, b), (b, a), (a, geom.QUADRIC)):
        n, m = len(p.indices[0]) - 1, len(q.indices[0]) - 1
        ck.fresh()
        z, y, par = cvar('z', (n,)), cvar('y', (m,)), cvar('par', (len(p.params),))
        got = {}

        def code(z, y, par):
            v, w = geom.variety(p), geom.variety(q)
            s = [snapshot(v.defining_poly), snapshot(w.defining_poly)]
            out = []
            for _ in range(2):
                for k in (0, n):
                    out += [v.defining(z, par, k), w.defining(y, par, k)]
                    out += [v.grad_defining(z, par, k), w.grad_defining(y, par, k)]
                    out += [v.jacobian_embed(z, par, k, 1), w.jacobian_embed(y, par, k, 1)]
                with jax.ensure_compile_time_eval():
                    for u, r in ((v, p), (w, q)):
                        val = jnp.arange(1., 1 + len(r.params)) + 0j
                        MonomialBasisReduced(u, 3, val)
                        repr(u), u.dim, u.parameters, u.num_defining
                        u.solve_defining(jnp.ones(len(r.indices[0]) - 2) + 0j, val, 0, 1)
                vr.Fermat(1), vr.Dwork(1)
            got['same'] = s == [snapshot(v.defining_poly), snapshot(w.defining_poly)]
            return out

        def o(a, out):
            z, y, par = a
            goals = [Holds('descriptions unchanged', got['same'])]
            i = 0
            for rep in range(2):
                for k in (0, n):
                    for name, f in (('equation', lambda r, x: np.array(geom.affine_value(r, x, par, k), object)),
                                    ('gradient', lambda r, x: np.array(geom.gradient(r, x, par, k), object)),
                                    ('Jacobian', lambda r, x: geom.jacobian(geom.gradient(r, x, par, k), 1))):
                        for r, x in ((p, z), (q, y)):
                            ref = f(r, x)
                            goals += eqs(f'{name} of {r.name} in patch {k}, round {rep}', out[i], ref) if ref.ndim else [Eq(f'{name} of {r.name} in patch {k}, round {rep}', out[i][()], ref[()])]
                            i += 1
            return goals
        ck.case(f'{p.name} and {q.name} in turn', code, (z, y, par), o, generic=True)


def metrics(ck):
    """Two metrics used in turn."""
    ck.bounds.append('metrics: two lines, and two degrees on one line, used in turn; diagonal matrices')
    p, q = geom.generic(3, 1), P('line with other signs', 'c0*z1 - c1*z0 + 2*c2*z2', [('z', [0, 1, 2])], ['c0', 'c1', 'c2'])
    for (a, da), (b, db) in (((p, 1), (q, 1)), ((p, 1), (p, 2)), ((q, 2), (p, 1))) + ((((p, 3), (p, 2)), ((q, 1), (q, 3))) if ck.thorough else ()):
        ck.fresh()
        z, par = cvar('z', (2,)), cvar('par', (3,))
        M = [AlgebraicMetric(geom.variety(r), MonomialBasisFull(2, d)) for r, d in ((a, da), (b, db))]
        ex = [exponents(m.sections) for m in M]
        hs = [rvar(f'h{i}', (len(e),), pos=True) for i, e in enumerate(ex)]

        def code(hs, z, par):
            out = []
            for _ in range(2):
                for m, h in zip(M, hs):
                    h = jnp.diag(h) + 0j
                    out += [m.kahler_potential(h, z, par, 0), m.metric(h, z, par, 0, 1)[0]]
            return out

        def o(args, out):
            hs, z, par = args
            goals, i = [], 0
            for rep in range(2):
                for (r, d), e, h in zip(((a, da), (b, db)), ex, hs):
                    G = Geometry(r, e, h, z, par, 0, 1, orders=(1, 1))
                    goals.append(Eq(f'potential of metric {i // 2 % 2}, round {rep}', out[i][()], alg.flog(G.psi.d()) / (alg.PI() * d)))
                    goals += eqs(f'metric {i // 2 % 2}, round {rep}', out[i + 1], reference(G, 'g_loc'))
                    i += 2
            return goals
        ck.case(f'{a.name} of degree {da} and {b.name} of degree {db}', code, (hs, z, par), o, generic=True)
