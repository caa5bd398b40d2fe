"""Chart changes."""
import numpy as np
from symjax import alg
from symjax.engine import ENGINE
from symjax.harness import eqs, cvar, ivar
import cyjax


def hom(w, p):
    return list(w[:p]) + [alg.ONE] + list(w[p:])


def moved(w, p, q):
    h = hom(w, p)
    return np.array([h[i] / h[q] for i in range(len(h)) if i != q], object)


def run(ck):
    dims = (1, 2, 3, 4, 5, 6, 7) if ck.thorough else (1, 2, 3, 4, 5)
    ck.bounds.append(f'projective dimension {dims}, both patches symbolic over all pairs (equal ones included), arbitrary coordinates')
    for n in dims:
        ck.fresh()
        w, p, q = cvar('w', (n,)), ivar('p', 0, n + 1), ivar('q', 0, n + 1)

        def o(a, out):
            w, p, q = a
            p, q = ENGINE.concretize(p[()]), ENGINE.concretize(q[()])
            return eqs('same projective point', out, moved(w, p, q))
        ck.case(f'change_chart n={n}', lambda w, p, q: cyjax.change_chart(w, p, q), (w, p, q), o, defined=True)

        if n > (4 if ck.thorough else 3):
            continue
        ck.fresh()
        w, p, q = cvar('w', (n,)), ivar('p', 0, n + 1), ivar('q', 0, n + 1)
        ck.case(f'there and back n={n}',
                lambda w, p, q: cyjax.change_chart(cyjax.change_chart(w, p, q), q, p), (w, p, q),
                lambda a, out: eqs('identity', out, a[0]))

        ck.fresh()
        w, p, q, r = cvar('w', (n,)), ivar('p', 0, n + 1), ivar('q', 0, n + 1), ivar('r', 0, n + 1)

        def o3(a, out):
            w, p, q, r = a
            p, r = ENGINE.concretize(p[()]), ENGINE.concretize(r[()])
            return eqs('through intermediate patch', out, moved(w, p, r))
        ck.case(f'through intermediate n={n}',
                lambda w, p, q, r: cyjax.change_chart(cyjax.change_chart(w, p, q), q, r), (w, p, q, r), o3)

        ck.fresh()
        z, p, q = cvar('z', (n + 1,)), ivar('p', 0, n + 1), ivar('q', 0, n + 1)

        def o4(a, out):
            z, p, q = a
            q = ENGINE.concretize(q[()])
            return eqs('agrees with homogeneous conversion', out,
                       np.array([z[i] / z[q] for i in range(n + 1) if i != q], object))
        ck.case(f'from homogeneous n={n}',
                lambda z, p, q: cyjax.change_chart(cyjax.hom_to_affine(z, p), p, q), (z, p, q), o4)
