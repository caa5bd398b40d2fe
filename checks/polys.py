"""Polynomials used by several checks, with references independent of the library."""
import numpy as np
import sympy
from symjax import alg
from symjax.harness import cvar
from symjax.alg import F, lift

ONE_I = 1j


class P:
    """A polynomial given as text plus the layout of its inputs.

    variables: [(name, indices or None)]; params: parameter names in the order they are passed.
    """

    def __init__(self, name, expr, variables, params, **build):
        self.name, self.expr, self.variables, self.params = name, expr, variables, list(params)
        self.build = build

    @property
    def names(self):
        return [v for v, _ in self.variables]

    @property
    def indices(self):
        return [i for _, i in self.variables]

    def args(self, batch=()):
        """Symbolic values of all variables and the parameters."""
        vs = [cvar(n, batch + (() if ind is None else (len(ind),))) for n, ind in self.variables]
        return vs, cvar('par', batch + (len(self.params),))

    def env(self, vals, par):
        e = {}
        for (n, ind), v in zip(self.variables, vals):
            if ind is None:
                e[n] = v[()] if isinstance(v, np.ndarray) else v
            else:
                for k, i in enumerate(ind):
                    e[f'{n}{i}'] = e[f'{n}_{i}'] = v[k]
        for p, v in zip(self.params, par if par is not None else ()):
            e[p] = v
        return e

    def ref(self, vals, par):
        """The value, by evaluating the text directly."""
        e = self.env(vals, par)
        e['I'] = lift(1j)
        e['R'] = lambda a, b: lift(a) / b
        return lift(eval(self.expr, {'__builtins__': {}}, e))

    def text(self):
        return self.expr.replace('R(', 'Rational(')

    def symbols(self, style=''):
        """Symbol arrays in the layout of the arguments."""
        out = [np.array(sympy.Symbol(n)) if ind is None else np.array([sympy.Symbol(f'{n}{style}{i}') for i in ind])
               for n, ind in self.variables]
        return out, np.array([sympy.Symbol(p) for p in self.params])


def ev(expr, env):
    """Value of a sympy expression on traced arrays."""
    expr = sympy.sympify(expr)
    if expr.is_Symbol:
        return env[str(expr)]
    if expr == sympy.I:
        return 1j
    if expr.is_Number:
        return int(expr) if expr.is_Integer else float(expr)
    if expr.is_Add:
        return sum((ev(a, env) for a in expr.args), 0)
    if expr.is_Mul:
        r = 1
        for a in expr.args:
            r = r * ev(a, env)
        return r
    if expr.is_Pow and expr.exp.is_number and float(expr.exp) == int(expr.exp):
        b = ev(expr.base, env)
        r = 1
        for _ in range(abs(int(expr.exp))):
            r = r * b
        return r if expr.exp > 0 else 1 / r
    raise ValueError(f'not a polynomial: {expr}')


POLYS = [
    P('quadric', 'a*z0**2 + b*z0*z1 - 3*z1**2', [('z', [0, 1])], ['b', 'a']),
    P('mixed', 'x**2*z1 + c*x*z0*w3 + 2*w1**3 - R(7,2)', [('x', None), ('z', [0, 1]), ('w', [1, 3])], ['c']),
    P('cubic', 'z0**3 + z1**3 + z2**3 - 3*psi*z0*z1*z2', [('z', [0, 1, 2])], ['psi']),
    P('two factors', 'c*z0**2*w1 + d*z1*z0*w0 + R(1,3)*z1**2*w1', [('z', [0, 1]), ('w', [0, 1])], ['d', 'c']),
    P('two factors reversed', 'c*z0**2*w1 + d*z1*z0*w0 + R(1,3)*z1**2*w1', [('w', [0, 1]), ('z', [0, 1])], ['c', 'd']),
    P('gaps', '2*z0*z2 + psi*z2**3', [('z', [0, 1, 2])], ['psi'], variable_dim=[3]),
    P('gap indices', '2*z0*z5 + psi*z5**3 + z5', [('z', [0, 5])], ['psi']),
    P('unsorted indices', 'a*z2**2 + z0', [('z', [2, 0])], ['a'], variable_indices=[[2, 0]]),
    P('unused parameter', 'b*z0 + z1', [('z', [0, 1])], ['a', 'b', 'c']),
    P('no parameter', '2*z0 - z1*z0', [('z', [0, 1])], []),
    P('parameter powers', 'psi**2*z0**2 + 3*psi**3*z1*z0 + (a + 2*psi)*z1', [('z', [0, 1])], ['psi', 'a']),
    P('complex coefficients', '(2 + 3*I)*z0**2 + 2*I*z1 + I*a*z0*z1', [('z', [0, 1])], ['a']),
    P('real coefficients', 'R(3,2)*z0**2 - R(1,8)*a*z1 + R(5,4)', [('z', [0, 1])], ['a']),
    P('constant term only in parameters', 'a*b + z0 - a', [('z', [0])], ['a', 'b']),
    P('factored', '(z0 + z1)**2*(a*z0 - 1)', [('z', [0, 1])], ['a']),
    P('scalar variable', 'x**4 - a*x + 1', [('x', None)], ['a']),
]


def build(poly, cls, form='str', names=True, params=True):
    """The library object for a polynomial.  form: str | expr | poly | symbols"""
    kw = dict(poly.build)
    src = poly.text()
    syms, par = poly.symbols()
    if form != 'str':
        src = sympy.parse_expr(src)
    if form == 'poly':
        flat = [s for v in syms for s in np.atleast_1d(v)]
        dom = sympy.CC[list(par)] if len(par) else sympy.CC
        src = sympy.Poly(src, *flat, domain=dom)
    if form == 'symbols':
        kw.pop('variable_dim', None)
        kw.pop('variable_indices', None)
        return cls.from_sympy(src, syms, poly.params)
    return cls.from_sympy(src, list(poly.names) if names else None, list(poly.params) if params else None, **kw)
