"""Network for the moduli dependence of the matrix."""
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from jax import tree_util as jtu
from symjax import alg, smt
from symjax.harness import Custom, Eq, Holds, eqs, cvar, rvar, keyvar
from checks.c16 import tensor
from checks.roots import tries
from cyjax import ml


def linear(x):
    return x


def square(x):
    return x * x


def run(ck):
    ck.bounds.append('batch: 1 or 2 moduli, powers up to 3, up to two hidden layers of up to 3 units, batches of up to 3, all weights and moduli, activations: '
                     'identity, square and sigmoid; features: 1 to 3 moduli; initial parameters: up to two hidden layers and 4 sections')
    nets = [(1, 1, (), (1,), linear, {}), (2, 1, (2,), (1, 2), linear, {}), (1, 2, (1,), (1,), linear, {}), (2, 1, (2, 2), (1,), square, dict(sig_suppress=False)),
            (1, 1, (1,), (1,), None, {}), (2, 2, (), (1,), linear, dict(feature_angle=False)), (1, 1, (2,), (2, 3), linear, dict(feature_abs=False)),
            (1, 2, (), (1, 2), linear, dict(feature_parts=False)), (1, 1, (2, 1), (1, 2), linear, dict(dropout_rates=[.5, None])),
            (3, 1, (2,), (1, 2), linear, {}), (1, 1, (2,), (1,), None, dict(sig_suppress=False))]
    if ck.thorough:
        nets += [(2, 2, (2,), (1,), linear, {}), (3, 2, (), (1, 2), linear, {}), (4, 1, (), (1,), linear, {})]
    for N, m, layers, powers, act, opts in nets:
        for B in ((1, 3) if len(layers) < 2 else (2,)):
            batch(ck, N, m, layers, powers, act, opts, B)
    for m, powers in [(1, (1,)), (1, (1, 2, 3)), (1, (2,)), (1, (-1, 2)), (2, (1,)), (2, (1, 2)), (3, (1,)), (2, (1, 2, 3)), (2, (3, 0, 1))] + ([(3, (2,)), (3, (1, 2)), (4, (1,))] if ck.thorough else []):
        for which in ({'abs', 'parts'}, {'angle', 'abs', 'parts'}, {'abs'}, {'parts'}):
            features(ck, m, powers, which)
    angles(ck)
    dropout(ck)
    for N in (1, 2, 3, 4) + ((5,) if ck.thorough else ()):
        for layers in ((), (2,), (2, 3)):
            for sup in (True, False):
                initial(ck, N, layers, sup)


def leaves(net, m):
    with jax.ensure_compile_time_eval():
        p = net.init({'params': jax.random.PRNGKey(0), 'dropout': jax.random.PRNGKey(1)}, jnp.ones(m) * (1 + 1j))
    flat, tree = jtu.tree_flatten(p)
    return [rvar(f'w{i}', np.shape(x)) for i, x in enumerate(flat)], tree


def batch(ck, N, m, layers, powers, act, opts, B):
    ck.fresh()
    if act is not None:
        opts = dict(opts, activation=act)
    net = ml.HNetMLP(N, layers, powers=powers, **opts)
    W, tree = leaves(net, m)
    psi = cvar('psi', (B, m))

    def code(psi, *W):
        par = jtu.tree_unflatten(tree, W)
        f = lambda x: net.apply(par, x, deterministic=True)
        return f(psi), jnp.stack([f(psi[i]) for i in range(B)]), f(psi[0, 0]) if m == 1 else f(psi[0])

    def o(a, out):
        return [Holds('shape', out[0].shape == (B, N * N) and out[1].shape == (B, N * N))] + eqs('batch is the stack of single moduli', out[0], out[1]) + \
            eqs('scalar modulus' if m == 1 else 'first', out[2], out[1][0])
    # no modulus vanishes: powers and angles are defined
    ck.case(f'{B} x {m} moduli, {N} sections, layers {layers}, powers {powers}, {getattr(act, "__name__", "sigmoid")}' + ''.join(f', {k}={v}' for k, v in opts.items() if k != 'activation'),
            code, (psi, *W), o, assume=[(x, '!=') for x in psi.val.reshape(-1)])


def dropout(ck):
    """A layer dropped altogether is the same as weights zero of the next layer."""
    ck.bounds.append('dropout: rate 1 (deterministic in its effect) or none after one to three hidden layers')
    for layers, rates in (((3,), [1.]), ((2, 3), [1., None]), ((3, 2), [None, 1.]), ((3,), [None]), ((2, 3), None), ((2, 3, 1), [None, 1., None])):
        ck.fresh()
        make = lambda **kw: ml.HNetMLP(1, layers, powers=(1,), activation=linear, sig_suppress=False, feature_angle=False, feature_parts=False, **kw)
        net, plain = make(dropout_rates=rates), make()
        W, tree = leaves(net, 1)
        psi = cvar('psi', (1, 1))
        sizes = layers + (1,)
        cut = [(n, sizes[i + 1]) for i, n in enumerate(layers) if rates is not None and rates[i] == 1.]
        assert all([w.val.shape for w in W].count(c) == 1 for c in cut)

        def code(psi, *W):
            par = jtu.tree_unflatten(tree, W)
            ref = jtu.tree_unflatten(tree, [w * 0 if w.shape in cut else w for w in W])
            return net.apply(par, psi, deterministic=False, rngs={'dropout': jax.random.PRNGKey(2)}), plain.apply(ref, psi, deterministic=True), \
                net.apply(par, psi, deterministic=True), plain.apply(par, psi, deterministic=True)

        def o(a, out):
            return eqs('training', out[0], out[1]) + eqs('evaluation ignores the rates', out[2], out[3])
        ck.case(f'dropout rates {rates} of layers {layers}', code, (psi, *W), o, assume=[(psi.val[0, 0], '!=')])


def products(psi, powers):
    """All products of the powers of the moduli, apart from the constant."""
    ps = sorted({0, *powers})
    for e in itertools.product(ps, repeat=len(psi)):
        if any(e):
            f = alg.ONE
            for x, k in zip(psi, e):
                f = f * (x ** k if k >= 0 else 1 / x ** -k)
            yield f


def documented(psi, powers, which):
    """Features as described and, as the code has them, with the angles of the moduli only."""
    fs = list(products(psi, powers))
    out = []
    if 'abs' in which:
        out += [alg.fabs(f) for f in fs]
    if 'parts' in which:
        out += [f.real for f in fs] + [f.imag for f in fs]
    if 'angle' not in which:
        return [out]
    return [out + [alg.fn_atom('atan2', x.imag, x.real) for x in xs] for xs in (fs, psi)]


def as_multiset(label, out, refs):
    """The values of out are those of one of the references in some order."""
    def matches(ref):
        left = list(ref)
        for x in out:
            for i, y in enumerate(left):
                if smt.prove_identities([(x, y)]):
                    del left[i]
                    break
            else:
                return False
        return not left

    def decide(ck, c):
        if any(matches(ref) for ref in refs):
            return True
        for vals, ints in tries(ck, 3):
            _, real = ck.run_real(c, vals, ints)
            a = np.sort(np.real(np.asarray(real)))
            bs = [np.sort([complex(alg.numval(y, vals)).real for y in ref]) for ref in refs]
            if all(len(a) != len(b) or np.max(np.abs(a - b)) > 1e-6 for b in bs):
                return vals, f'features {np.round(a, 5)}, expected {np.round(bs[0], 5)}'
        return None
    return Custom(label, decide)


def network(m, powers, which):
    """A network whose outputs are its features."""
    make = lambda N: ml.HNetMLP(N, (), powers=powers, sig_suppress=False, **{f'feature_{k}': k in which for k in ('angle', 'abs', 'parts')})

    def f(psi):
        with jax.ensure_compile_time_eval():
            F = make(1).init(jax.random.PRNGKey(0), jnp.ones(m) * (1 + 1j))['params']['final_dense']['kernel'].shape[0]
        N = int(np.ceil(np.sqrt(F)))
        par = {'params': {'final_dense': {'kernel': jnp.eye(F, N * N), 'bias': jnp.zeros(N * N)}}}
        return make(N).apply(par, psi)[:F]
    return f


def features(ck, m, powers, which):
    ck.fresh()
    psi = cvar('psi', (m,))

    def o(a, out):
        return [as_multiset('features', out, documented(a[0], powers, which))]
    ck.case(f'features of {m} moduli, powers {powers}: {", ".join(sorted(which))}', network(m, powers, which), (psi,), o, assume=[(x, '!=') for x in psi.val])


def angles(ck):
    """The description of the network: angles of all products."""
    ck.fresh()
    psi = cvar('psi', (1,))

    def o(a, out):
        return [as_multiset('angles of all products of powers', out, documented(a[0], (1, 2), {'angle'})[:1])]
    ck.case('angle features', network(1, (1, 2), {'angle'}), (psi,), o, assume=[(psi.val[0], '!=')])


def initial(ck, N, layers, sup):
    ck.fresh()
    net = ml.HNetMLP(N, layers, powers=(1, 2), sig_suppress=sup, init_fluctuation=0., activation=linear)
    psi = cvar('psi', (1,))

    def code(key, psi):
        par = net.init(key, psi)
        out = net.apply(par, psi)
        return out, ml.cholesky_from_param(out)

    def o(a, out):
        f = alg.ONE / 2 if sup else alg.ONE
        goals = eqs('same parameters for every modulus', out[0], np.array([f] * N + [alg.ZERO] * (N * N - N), object))
        return goals + eqs('multiple of the identity', out[1], tensor((N, N), lambda i, j: f * f if i == j else alg.ZERO))
    ck.case(f'initial parameters: {N} sections, layers {layers}' + ('' if sup else ', no suppression'), code, (keyvar('key'), psi), o,
            assume=[(x, '!=') for x in psi.val], symrand=True)
