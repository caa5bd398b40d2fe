"""Splitting a polynomial along one variable."""
import numpy as np
import jax.numpy as jnp
import sympy
from symjax import alg
from symjax.alg import diff, var_of
from symjax.harness import Eq, Holds, cvar
from checks.polys import P, POLYS, build, ev
from checks.c07 import HOM, THOROUGH
from cyjax import polynomial as pm

MORE = [
    P('docstring', 'z1**2*z2*x**2 + 3*shift*(1 + x**2)', [('x', None), ('z', [1, 2]), ('shift', None)], []),
    P('missing orders', 'a*z0**4*z1 + z0*z2 - 2*z1**3 + 5', [('z', [0, 1, 2])], ['a']),
    P('line', '(p0 + t*q0)**2 + a*(p0 + t*q0)*(p1 + t*q1) - 3*(p1 + t*q1)**2', [('t', None), ('p', [0, 1]), ('q', [0, 1])], ['a']),
    P('absent variable', 'a*z1 + z2**2', [('z', [0, 1, 2])], ['a'], variable_dim=[3]),
    P('only variable', 'a*x**3 - b*x + 2', [('x', None)], ['a', 'b']),
    P('only coordinate', 'a*z0**3 - b*z0 + 2', [('z', [0])], ['a', 'b']),
]


def degree(p, s):
    return int(sympy.degree(sympy.Poly(sympy.expand(sympy.parse_expr(p.text())), sympy.Symbol(s))))


def run(ck):
    ck.bounds.append('polynomial shapes of checks/polys.py, checks/c07.py and checks/c08.py, every variable; all values')
    for p in POLYS + MORE + HOM + THOROUGH:
        for n, ind in p.variables:
            for s in ([n] if ind is None else [f'{n}{i}' for i in ind]):
                for form in ('str', 'Symbol', 'array'):
                    split(ck, p, n, ind, s, form)


def split(ck, p, n, ind, s, form):
    ck.fresh()
    vs, par = p.args()
    d = degree(p, s)
    got = {}

    def code(vs, par):
        var = {'str': s, 'Symbol': sympy.Symbol(s), 'array': np.array(sympy.Symbol(s))}[form]
        cs = pm.univariate_coefficients(build(p, pm.Poly), var)
        got['n'] = len(cs)
        consts = []
        for (m, i), v in zip(p.variables, vs):
            if m != n:
                consts.append(v)
            elif i is not None and len(i) > 1:
                k = i.index(int(s[len(n):]))
                consts.append(jnp.concatenate([v[:k], v[k + 1:]]))
        out = []
        for c in cs:
            if isinstance(c, pm.Poly):
                out.append(c(*consts, par))
                e = {str(q): par[k] for k, q in enumerate(p.params)}
                for (m, i), v in zip(p.variables, vs):
                    e.update({m: v} if i is None else {f'{m}{j}': v[k] for k, j in enumerate(i)})
                e.pop(s)                       # the coefficient must not contain the variable
                out.append(ev(c(), e))
            else:
                out += [jnp.asarray(c, complex)] * 2
        return [jnp.asarray(o, complex) for o in out]

    def o(a, out):
        e = p.env(*a)
        x = e[s]
        goals = [Holds(f'{got["n"]} coefficients for degree {d}', got['n'] == d + 1)]
        for which in (0, 1):
            tot = alg.ZERO
            for k, c in enumerate(out[which::2]):
                tot = tot + c[()] * x ** (got['n'] - 1 - k)
            goals.append(Eq('sum of coefficient times power' + (' (printed form)' if which else ''), tot, p.ref(*a)))
        # each coefficient is the corresponding Taylor coefficient
        f = p.ref(*a)
        fact = 1
        for k in range(d + 1):
            if k:
                f = diff(f, var_of(x))
                fact *= k
            if got['n'] == d + 1:
                goals.append(Eq(f'order {k}', out[2 * (d - k)][()], alg.subst(f, {var_of(x): alg.ZERO}) / fact))
        return goals
    ck.case(f'{p.name} in {s} as {form}', code, (vs, par), o)
