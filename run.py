#!/opt/venv/bin/python
"""Run the check of one property:  run.py C01   (VERIF_TIER, VERIF_SEED from the environment)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['JAX_ENABLE_X64'] = '1'
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)


def raised_by_code(exc):
    """Whether concrete input, outside of symbolic execution, made the code under check raise."""
    import traceback
    from symjax.engine import PathLimit
    from symjax.alg import Unsupported
    from symjax.smt import Inconclusive
    if isinstance(exc, (Inconclusive, PathLimit, Unsupported, MemoryError, RecursionError)):
        return False
    files = [os.path.realpath(f.filename) for f in traceback.extract_tb(exc.__traceback__)]
    code = os.path.realpath(REPO) + '/cyjax/'
    own = os.path.realpath(HERE) + '/'
    last = max((i for i, f in enumerate(files) if f.startswith(own)), default=-1)
    return any(f.startswith(code) for f in files[last + 1:])


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        from symjax import selftest
        sys.exit(selftest.main())
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 0)
    import warnings
    warnings.filterwarnings('ignore')
    from symjax import stubs, harness
    stubs.install()
    import cyjax
    assert os.path.realpath(cyjax.__file__).startswith(os.path.realpath(REPO)), cyjax.__file__
    ck = harness.Check(pid, tier, seed)
    mod = importlib.import_module(f'checks.{pid.lower()}')
    harness.limit(850 if tier == 'quick' else 3400)
    try:
        mod.run(ck)
        harness.limit(0)
    except harness.TimeUp:
        if not ck.violations:
            ck.errors.append('time limit')
    except Exception as e:
        import traceback
        traceback.print_exc()
        if raised_by_code(e):
            ck.raw_violation('preparation of a case', 'the code runs on valid input', f'raises {type(e).__name__}: {str(e)[:300]}')
        else:
            ck.errors.append('check aborted')
    sys.stdout.flush()
    sys.exit(ck.finish())


if __name__ == '__main__':
    main()
