"""Goals about values that contain roots of a polynomial computed by the code.

The root finder is represented by its contract: fresh unknowns r and the polynomial they satisfy.
"""
import numpy as np
from symjax import alg, interp, smt
from symjax.engine import ENGINE
from symjax.harness import Custom, full_values, _cond_num


def coefficients(num, vid):
    """Polynomial dictionary -> list of F, coefficient of each power of the variable."""
    out = {}
    for m, c in num.items():
        e = (m >> (alg.BITS * vid)) & alg.FIELD
        out.setdefault(e, {})[m & ~(alg.FIELD << (alg.BITS * vid))] = c
    return [alg.F(out.get(k, {})) for k in range(max(out, default=0) + 1)]


def owners(f):
    """(entry, index) of the root unknowns f depends on."""
    deep = alg._fdeep(f)
    return [(k, i) for k, (rs, _) in enumerate(interp.ROOTS) for i, r in enumerate(rs)
            if alg.var_of(r) in deep or alg.VARS[alg.var_of(r)].conj in deep]


def vanishes(f):
    """f is zero whenever its root unknown satisfies its polynomial."""
    own = owners(f)
    if not own:
        return smt.prove_identities([(f, alg.ZERO)])
    if len(own) > 1:
        return False
    k, i = own[0]
    rs, cp = interp.ROOTS[k]
    a = coefficients(f.num, alg.var_of(rs[i]))
    n = len(cp) - 1
    while len(a) > n:
        top = a.pop()
        for j in range(n):
            t = len(a) - n + j
            a[t] = a[t] - top * cp[j]
    return all(smt.prove_identities([(x, alg.ZERO)]) for x in a)


def tries(ck, count=6):
    """Concrete inputs, independent of the root unknowns."""
    vals, ints = None, None
    if ENGINE.ipc:
        s = smt.z3.Solver()
        s.add(*ENGINE.ipc)
        if s.check() == smt.z3.sat:
            ints = s.model()
    for v in ENGINE._points()[:count]:
        v = full_values(v)
        if all(_cond_num(f, op, v) for f, op in ENGINE.rbase):
            yield v, ints
    for v in on_path(count):
        yield v, ints


def on_path(count):
    """Inputs for which one of the roots fulfils its conditions on this path: it is chosen, then the inputs fitted to it.

    Only used to find inputs to run; the run decides.
    """
    every = [(f, op) for f, op in ENGINE.rpc if len(owners(f)) == 1]
    if not every:
        return
    import random
    from scipy.optimize import least_squares
    rng = random.Random(5)
    used = sorted({k for f, _ in every for k, _ in owners(f)})
    single = sorted({owners(f)[0] for f, _ in every})
    roots = {alg.var_of(r) for rs, _ in interp.ROOTS for r in rs}
    roots |= {alg.VARS[r].conj for r in roots}
    base = set()
    for k in used:
        for c in interp.ROOTS[k][1]:
            base |= alg._fdeep(c)
    free = [v for v in alg.VARS if v.id in base and v.id not in roots and
            (v.kind == 'cplx' or v.kind == 'real' and v.data is None and v.name != 'PI')]
    free += [alg.VARS[v.conj] for v in alg.VARS if v.kind == 'cplxc' and v.id in base and v.id not in roots and alg.VARS[v.conj] not in free]
    found = 0
    for t in range(200):
        target = [single[t % len(single)]]
        conds = [(f, op) for f, op in every if owners(f) == target]
        vals = full_values(ENGINE._points()[rng.randrange(40)])
        for k in used:
            for r in interp.ROOTS[k][0]:
                z = complex(rng.gauss(0, 1), rng.gauss(0, 1)) * 10 ** rng.uniform(-5, 5)
                vals[alg.var_of(r)], vals[alg.VARS[alg.var_of(r)].conj] = z, z.conjugate()
        try:
            if not all(_cond_num(f, op, vals) for f, op in conds):
                continue

            def put(x):
                v, j = dict(vals), 0
                for a in free:
                    if a.kind == 'real':
                        v[a.id] = abs(x[j]) if a.pos else x[j]
                        j += 1
                    else:
                        v[a.id], v[a.conj] = complex(x[j], x[j + 1]), complex(x[j], -x[j + 1])
                        j += 2
                return v

            def miss(x):
                v, out = put(x), []
                for k, i in target:
                    rs, cp = interp.ROOTS[k]
                    r = v[alg.var_of(rs[i])]
                    c = [complex(alg.numval(f, v)) for f in cp]
                    y = sum(f * r ** n for n, f in enumerate(c)) / sum(abs(f * r ** n) for n, f in enumerate(c))
                    out += [y.real, y.imag]
                return out
            x0 = []
            for a in free:
                x0 += [vals[a.id].real] if a.kind == 'real' else [vals[a.id].real, vals[a.id].imag]
            fit = least_squares(miss, x0, xtol=1e-15, ftol=1e-15, gtol=1e-15, max_nfev=60)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError):
            continue
        if fit.cost < 1e-20:
            v = put(fit.x)
            if all(_cond_num(f, op, v) for f, op in ENGINE.rbase):
                yield v
                found += 1
                if found == count:
                    return


def zero_values(label, values, numeric, tol=1e-6):
    """Every value vanishes for roots of the recorded polynomials.

    numeric(args, out) -> residuals of a run of the real code.
    """
    def decide(ck, c):
        if all(vanishes(f) for f in values):
            return True
        small = 0
        for vals, ints in tries(ck):
            args, out = ck.run_real(c, vals, ints)
            res = np.ravel(np.abs(np.asarray(numeric(args, out), complex)))
            if res.size and np.isfinite(res).all() and res.max() > tol:
                small += 1      # nearly multiple roots lose digits: a small residual counts if it is not the only one
                if res.max() > 1e-4 or small > 1:
                    return vals, f'residual {res.max():.3g} of the defining equation'
        return None
    return Custom(label, decide)


def all_roots(label, values, numeric, per=None):
    """The values depend on pairwise different roots.  numeric(args, out) -> values in a real run."""
    def decide(ck, c):
        own = [owners(f) for f in values]
        if all(len(o) == 1 for o in own) and len({o[0] for o in own}) == len(own):
            return True
        for vals, ints in tries(ck):
            args, out = ck.run_real(c, vals, ints)
            pts = np.asarray(numeric(args, out), complex)
            pts = pts.reshape(len(pts), -1)
            for i in range(len(pts)):
                for j in range(i):
                    if np.abs(pts[i] - pts[j]).max() < 1e-8:
                        return vals, f'points {j} and {i} coincide'
        return None
    return Custom(label, decide)
