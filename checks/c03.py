"""pop / insert_1d / insert_col versus Python lists."""
import numpy as np
from symjax.engine import ENGINE
from symjax.harness import eqs, cvar, rvar, ivar
from cyjax import util


def run(ck):
    lens = (1, 2, 3, 4, 5, 6, 7, 8) if ck.thorough else (1, 2, 3, 4, 5, 6)
    ck.bounds.append(f'array lengths {lens}, inserted lengths 1..3, positions symbolic over all valid values including negative ones')
    for n in lens:
        for trail in ((), (2,)):
            ck.fresh()
            x, i = cvar('x', (n,) + trail), ivar('i', -n, n)

            def o(a, out):
                x, i = a
                i = ENGINE.concretize(i[()])
                l = list(range(n))
                k = l.pop(i)
                return eqs('popped', out[0], x[k]) + eqs('rest', out[1], x[l] if l else x[:0])
            ck.case(f'pop n={n} trailing={trail}', lambda x, i: util.pop(x, i), (x, i), o)
        for m in (None, 1, 2, 3):
            ck.fresh()
            k = 1 if m is None else m
            x = cvar('x', (n,))
            v = cvar('v', () if m is None else (m,))
            i = ivar('i', -(n + 1), n + 1)

            def o(a, out):
                x, v, i = a
                i = ENGINE.concretize(i[()])
                if i < 0:
                    i += n + 1
                v = list(np.atleast_1d(v))
                ref = list(x[:i]) + v + list(x[i:])
                return eqs('inserted', out, np.array(ref, object))
            ck.case(f'insert_1d n={n} m={m}', lambda x, v, i: util.insert_1d(x, v, i), (x, v, i), o)
        for m in (None, 1, 2, 3):
            ck.fresh()
            k = 1 if m is None else m
            x = cvar('x', (2, n))
            v = cvar('v', (2,) if m is None else (2, m))
            i = ivar('i', -(n + 1), n + 1)

            def o(a, out):
                x, v, i = a
                i = ENGINE.concretize(i[()])
                if i < 0:
                    i += n + 1
                v = v.reshape(2, -1)
                ref = np.concatenate([x[:, :i], v, x[:, i:]], axis=1)
                return eqs('inserted', out, ref)
            ck.case(f'insert_col n={n} m={m}', lambda x, v, i: util.insert_col(x, v, i), (x, v, i), o)

    # real and complex entries together, other numbers of rows
    ck.bounds.append('mixed real and complex arrays of length 3; 1 and 3 rows; entries with two trailing axes')
    n = 3
    for kx, kv in ((rvar, cvar), (cvar, rvar), (rvar, rvar)):
        tag = f'{kx.__name__[0]}{kv.__name__[0]}'
        for m in (None, 2):
            ck.fresh()
            x, v, i = kx('x', (n,)), kv('v', () if m is None else (m,)), ivar('i', -(n + 1), n + 1)

            def o(a, out):
                x, v, i = a
                i = ENGINE.concretize(i[()]) % (n + 1)
                return eqs('inserted', out, np.array(list(x[:i]) + list(np.atleast_1d(v)) + list(x[i:]), object))
            ck.case(f'insert_1d mixed {tag} m={m}', lambda x, v, i: util.insert_1d(x, v, i), (x, v, i), o)
            for rows in (1, 3):
                ck.fresh()
                x, v, i = kx('x', (rows, n)), kv('v', (rows,) if m is None else (rows, m)), ivar('i', -(n + 1), n + 1)

                def o(a, out):
                    x, v, i = a
                    i = ENGINE.concretize(i[()]) % (n + 1)
                    return eqs('inserted', out, np.concatenate([x[:, :i], v.reshape(rows, -1), x[:, i:]], axis=1))
                ck.case(f'insert_col mixed {tag} {rows} rows m={m}', lambda x, v, i: util.insert_col(x, v, i), (x, v, i), o)
    for kx in (rvar, cvar):
        ck.fresh()
        x, i = kx('x', (n, 2, 2)), ivar('i', -n, n)

        def o(a, out):
            x, i = a
            l = list(range(n))
            k = l.pop(ENGINE.concretize(i[()]))
            return eqs('popped', out[0], x[k]) + eqs('rest', out[1], x[l])
        ck.case(f'pop {kx.__name__[0]} trailing (2, 2)', lambda x, i: util.pop(x, i), (x, i), o)
