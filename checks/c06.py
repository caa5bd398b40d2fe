"""Polynomial arithmetic, differentiation and conversions."""
import itertools
import numpy as np
import jax.numpy as jnp
import sympy
from symjax import alg
from symjax.alg import diff, var_of, lift
from symjax.harness import Eq, Holds, eqs, cvar, ivar
from symjax.host import HostInt
from checks.polys import P, POLYS, build, ev
from cyjax import polynomial as pm

BY = {p.name: p for p in POLYS}
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}

PAIRS = [
    ('quadric', 'quadric'), ('quadric', 'cubic'), ('cubic', 'quadric'), ('quadric', 'mixed'), ('mixed', 'two factors'),
    ('gap indices', 'cubic'), ('cubic', 'gap indices'), ('scalar variable', 'quadric'), ('no parameter', 'quadric'),
    ('quadric', 'no parameter'), ('two factors', 'two factors reversed'), ('complex coefficients', 'real coefficients'),
    ('unused parameter', 'quadric'), ('parameter powers', 'cubic'), ('mixed', 'scalar variable'),
]


def merged(p, q):
    """Variables of both: name -> sorted union of the indices."""
    names = {}
    for n, ind in list(p.variables) + list(q.variables):
        if n not in names:
            names[n] = None if ind is None else set(ind)
        elif ind is not None:
            names[n] |= set(ind)
    return {n: None if s is None else sorted(s) for n, s in names.items()}


def inputs(layout, params):
    return {n: cvar(n, () if ind is None else (len(ind),)) for n, ind in layout.items()}, cvar('par', (len(params),))


def env(layout, vals, params, par):
    e = {}
    for n, ind in layout.items():
        if ind is None:
            e[n] = vals[n][()]
        else:
            for k, i in enumerate(ind):
                e[f'{n}{i}'] = vals[n][k]
    e.update(zip(params, par))
    return e


def value(p, e):
    return p.ref([e[n] if ind is None else [e[f'{n}{i}'] for i in ind] for n, ind in p.variables], [e[s] for s in p.params])


def evaluate(res, vals, params, par):
    """Numeric value of a library polynomial, everything passed by name, plus symbolic value."""
    pos = {s: i for i, s in enumerate(params)}
    q = jnp.stack([par[pos[str(s)]] for s in res.parameters]) if len(res.parameters) else jnp.zeros((0,), complex)
    kw = {n: vals[n] for n in res.variable_names}
    out = [res(params=q, **kw), res.transform_eval()(params=q, **kw), res(*[vals[n] for n in res.variable_names], q)]
    e = {str(s): q[i] for i, s in enumerate(res.parameters)}
    for n, ind in zip(res.variable_names, res.variable_indices):
        if ind is None:
            e[n] = vals[n]
        else:
            e.update({f'{n}{i}': vals[n][k] for k, i in enumerate(ind)})
    out.append(ev(res(*res.all_symbols()), e))
    return [jnp.asarray(o, complex) for o in out]


def layout_of(res):
    return {n: None if i is None else [int(k) for k in i] for n, i in zip(res.variable_names, res.variable_indices)}


def run(ck):
    ck.bounds.append('polynomial shapes of checks/polys.py and listed pairs; scalars: integer, real, complex, 0-d arrays, '
                     'symbols that are parameters, variables, new indices and new parameters; all values')
    for (a, b), (op, f) in itertools.product(PAIRS, OPS.items()):
        binary(ck, BY[a], BY[b], op, f)
    for name in ('quadric', 'mixed', 'no parameter', 'gap indices', 'parameter powers', 'complex coefficients'):
        for op, f in OPS.items():
            scalars(ck, BY[name], op, f)
            symbols(ck, BY[name], op, f)
    chained(ck)
    derivative(ck)
    conversions(ck)
    union(ck)


def check_case(ck, name, make, layout, params, ref):
    vals, par = inputs(layout, params)
    got = {}

    def code(vals, par):
        res = make()
        got['layout'] = layout_of(res)
        got['names'] = list(map(str, res.parameters))
        if got['layout'] != layout or len(set(got['names'])) != len(got['names']):
            # still evaluate if possible so that only the layout goal fails
            return [jnp.zeros((), complex)]
        return evaluate(res, vals, params, par)

    def o(a, out):
        goals = [Holds(f'variables {got["layout"]} are each listed once in increasing order, expected {layout}', got['layout'] == layout),
                 Holds('parameters listed once', len(set(got['names'])) == len(got['names']))]
        return goals + [Eq(f'value {i}', x[()], ref(env(layout, a[0], params, a[1]))) for i, x in enumerate(out)]
    ck.case(name, code, (vals, par), o)


def binary(ck, p, q, op, f):
    ck.fresh()
    params = list(dict.fromkeys(p.params + q.params))
    check_case(ck, f'({p.name}) {op} ({q.name})', lambda: f(build(p, pm.Poly), build(q, pm.Poly)), merged(p, q), params,
               lambda e: f(value(p, e), value(q, e)))


def scalars(ck, p, op, f):
    for what, s in (('int', 3), ('float', 0.75), ('complex', 2 - 1.5j), ('numpy', np.array(2.5)), ('jax', jnp.array(1.5 + 2j)),
                    ('zero', 0)):
        ck.fresh()
        v = alg.lift(complex(np.asarray(s)))
        check_case(ck, f'({p.name}) {op} {what}', lambda: f(build(p, pm.Poly), s), dict(p.variables), p.params,
                   lambda e: f(value(p, e), v))


def symbols(ck, p, op, f):
    cands = [('new parameter', 'newpar')] + [('own parameter', s) for s in p.params[:1]]
    for n, ind in p.variables:
        if ind is None:
            cands.append(('scalar variable', n))
        else:
            cands += [('variable', f'{n}{ind[-1]}'), ('new index', f'{n}{max(ind) + 2}'), ('index in between', f'{n}{min(ind) + 1}')]
    for what, s in cands:
        ck.fresh()
        q = P('symbol', s, [], [s])
        layout = {n: (None if i is None else sorted(i)) for n, i in p.variables}
        params = list(p.params)
        from_var = False
        for n, ind in p.variables:
            if ind is not None and s.startswith(n) and s[len(n):].isdigit():
                layout[n] = sorted(set(layout[n]) | {int(s[len(n):])})
                from_var = True
            elif s == n:
                from_var = True
        if not from_var and s not in params:
            params.append(s)
        check_case(ck, f'({p.name}) {op} {what} {s}', lambda: f(build(p, pm.Poly), sympy.Symbol(s)), layout, params,
                   lambda e: f(value(p, e), e[s]))


def chained(ck):
    p, q, r = BY['quadric'], BY['cubic'], BY['mixed']
    ck.fresh()
    params = list(dict.fromkeys(p.params + q.params + r.params))
    lay = merged(P('', '', list(merged(p, q).items()), []), r)
    check_case(ck, 'p*q - r + 2', lambda: build(p, pm.Poly) * build(q, pm.Poly) - build(r, pm.Poly) + 2, lay, params,
               lambda e: value(p, e) * value(q, e) - value(r, e) + 2)
    ck.fresh()
    check_case(ck, 'derivative of a product', lambda: (build(p, pm.Poly) * build(q, pm.Poly)).diff('z1'), merged(p, q),
               list(dict.fromkeys(p.params + q.params)),
               lambda e: diff(value(p, e) * value(q, e), var_of(e['z1'])))
    ck.fresh()
    check_case(ck, 'p - p', lambda: build(p, pm.Poly) - build(p, pm.Poly), dict(p.variables), p.params, lambda e: alg.ZERO)


def derivative(ck):
    for p in POLYS:
        for n, ind in p.variables:
            for s in ([n] if ind is None else [f'{n}{i}' for i in ind]):
                for arg in (s, sympy.Symbol(s)):
                    ck.fresh()
                    check_case(ck, f'd({p.name})/d{s} as {type(arg).__name__}', lambda: build(p, pm.Poly).diff(arg),
                               dict(p.variables), p.params, lambda e: diff(value(p, e), var_of(e[s])))
    for cls, p in ((pm.DworkPoly, P('Dwork', 'z0**3+z1**3+z2**3-5*psi*z0*z1*z2', [('z', [0, 1, 2])], ['psi'])),
                   (pm.FermatPoly, P('Fermat', 'z0**3+z1**3+z2**3', [('z', [0, 1, 2])], []))):
        for s in ('z0', 'z2'):
            ck.fresh()
            check_case(ck, f'd({p.name})/d{s}', lambda: cls(3).diff(s), dict(p.variables), p.params,
                       lambda e: diff(value(p, e), var_of(e[s])))


TABLES = [
    # coeffs, powers, coeffs_params, names, indices, parameters
    ('one group', [1, -2, 3], [[[2, 0], [1, 1], [0, 3]]], [['a'], [], ['b', 'a']], ['z'], None, ['b', 'a']),
    ('default names', [2, 1], [[[1, 0], [0, 2]], [[1], [2]]], None, None, None, None),
    ('complex', [1j, 2 - 1j, 0.5], [[[2, 0], [1, 1], [0, 0]]], [['a'], ['a'], []], ['z'], None, ['a']),
    ('repeated parameters', [2, 1], [[[2, 1], [0, 1]]], [['a', 'a'], ['a', 'b', 'b']], ['z'], None, ['a', 'b']),
    ('indices', [1, 4, -1], [[[2, 0], [1, 1], [0, 3]], [[0], [1], [2]]], [['a'], [], ['b']], ['z', 'w'], [[1, 4], [2]], ['a', 'b', 'c']),
    ('same monomial twice', [1, 4], [[[2, 0], [2, 0]]], [['a'], ['b']], ['z'], None, ['a', 'b']),
    ('constant', [3], [[[0, 0]]], None, ['z'], None, None),
    ('unused variable', [3, 2], [[[0, 1], [0, 2]], [[0], [0]]], None, ['z', 'w'], None, None),
]


def table_ref(t, e):
    name, coeffs, powers, cpar, names, indices, parameters = t
    names = names or [chr(ord('a') + i) for i in range(len(powers))]
    tot = alg.ZERO
    for k, c in enumerate(coeffs):
        v = lift(c)
        for s in (cpar[k] if cpar else []):
            v = v * e[s]
        for g, n in enumerate(names):
            ind = indices[g] if indices else range(len(powers[g][0]))
            for i, m in zip(ind, powers[g][k]):
                v = v * e[f'{n}{i}'] ** m
        tot = tot + v
    return tot


def table_layout(t):
    name, coeffs, powers, cpar, names, indices, parameters = t
    names = names or [chr(ord('a') + i) for i in range(len(powers))]
    lay = {n: list(indices[g] if indices else range(len(powers[g][0]))) for g, n in enumerate(names)}
    return lay, parameters or sorted({s for l in (cpar or []) for s in l})


def conversions(ck):
    for t in TABLES:
        name, coeffs, powers, cpar, names, indices, parameters = t
        lay, params = table_layout(t)
        opts = [{}]
        if cpar and set(sum(cpar, [])) == set(params):
            opts.append({'parameters': None})
        for o in opts:
            kw = dict(coeffs_params=cpar, variable_names=names, variable_indices=indices, parameters=parameters)
            kw.update(o)

            def make():
                return pm.Poly.from_coeffs_and_powers(coeffs, powers, **kw)

            def again():
                c, cp, pw = make().to_coeffs_and_powers()
                q = make()
                return pm.Poly.from_coeffs_and_powers(c, pw, cp, list(q.variable_names), [list(i) for i in q.variable_indices], q.parameters)
            ck.fresh()
            check_case(ck, f'table {name} {o}', make, lay, params, lambda e: table_ref(t, e))
            ck.fresh()
            check_case(ck, f'table {name} {o} extracted and rebuilt', again, lay, params, lambda e: table_ref(t, e))
    for p in POLYS:
        if any(i is None for i in p.indices):
            continue
        ck.fresh()

        def make():
            q = build(p, pm.Poly)
            c, cp, pw = q.to_coeffs_and_powers()
            return pm.Poly.from_coeffs_and_powers(c, pw, cp, p.names, p.indices, p.params)
        check_case(ck, f'{p.name} extracted and rebuilt', make, dict(p.variables), p.params, lambda e: value(p, e))


def union(ck):
    """Merging two increasing index lists, for all integers."""
    hi = 4 if ck.thorough else 3
    ck.bounds.append(f'merging of index lists of length 0..{hi}, all integers')
    for n, m in itertools.product(range(hi + 1), repeat=2):
        ck.fresh()
        l, r = ivar('l', -1000, 1000, (n,)), ivar('r', -1000, 1000, (m,))
        inc = [x[i] < x[i + 1] for x in (l.val, r.val) for i in range(len(x) - 1)]

        def o(a, out):
            l, r = (list(x) for x in a)
            goals = [Holds('increasing', b) for b in (out[i] < out[i + 1] for i in range(len(out) - 1))]
            goals += [Holds('nothing lost', _any(x == y for y in out)) for x in l + r]
            goals += [Holds('nothing added', _any(x == y for y in l + r)) for x in out]
            return goals or [Holds('empty', len(out) == 0)]
        ck.host(f'merged indices {n}+{m}', lambda l, r: list(pm._union_indices(list(l), list(r))), (l, r), o, iassume=inc)


def _any(bs):
    from symjax.smt import z3
    bs = list(bs)
    if any(isinstance(b, bool) and b for b in bs):
        return True
    z = [b for b in bs if not isinstance(b, (bool, np.bool_))]
    if any(bool(b) for b in bs if isinstance(b, (bool, np.bool_))):
        return True
    return z3.Or(*z) if z else False
