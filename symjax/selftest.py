"""Set-up check: solver present, package importable, a trivial query decided both ways."""


def main():
    from symjax import alg, smt
    x, y = alg.complex_var('x'), alg.complex_var('y')
    ok = smt.prove_identities([((x + y) ** 2, x * x + 2 * x * y + y * y)])
    bad = smt.prove_identities([((x + y) ** 2, x * x + y * y)])
    import cyjax
    print('solver', smt.z3.get_version_string(), 'cyjax', cyjax.__file__)
    return 0 if ok and not bad else 1
