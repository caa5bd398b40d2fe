"""Run checks against patched scratch copies of /repo (not used by any check).

usage: try_patch.py [-j N] [-t tier] PATCH[:PROP[,PROP...]] ...
PATCH is the id of a planted bug (its own property is the default) or the path of a diff.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(work, patch, prop, tier):
    name = os.path.basename(patch).replace('.diff', '')
    d = os.path.join(work, f'{name}_{prop}')
    shutil.copytree('/repo', d + '/repo', ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence'))
    f = patch if os.path.exists(patch) and not os.path.isdir(patch) else os.path.join(HERE, 'seeded', patch, 'patch.diff')
    p = subprocess.run(['git', 'apply', os.path.abspath(f)], cwd=d + '/repo', capture_output=True, text=True)
    if p.returncode:
        return f'{name} {prop} DOES NOT APPLY {p.stderr}'
    t = time.time()
    p = subprocess.run(['/opt/venv/bin/python', 'run.py', prop, tier], cwd=d + '/verif', capture_output=True, text=True,
                       env={**os.environ, 'VERIF_REPO': d + '/repo', 'PYTHONDONTWRITEBYTECODE': '1'})
    out = [l for l in (p.stdout + p.stderr).strip().split('\n') if l]
    shutil.rmtree(d)
    show = [l for l in out if l.startswith('VIOLATION')][:1] or out[-3:]
    if p.returncode == 1:
        k = [i for i, l in enumerate(out) if l.startswith('VIOLATION')]
        show = out[max(0, k[0] - 2):k[0] + 1] if k else out[-4:]
    return f'{name} {prop} exit {p.returncode} {time.time() - t:.0f}s ' + ' | '.join(s[:200] for s in show)


def main():
    a = sys.argv[1:]
    j, tier = 4, 'quick'
    while a and a[0] in ('-j', '-t'):
        if a[0] == '-j':
            j = int(a[1])
        else:
            tier = a[1]
        a = a[2:]
    jobs = []
    for x in a:
        patch, _, props = x.partition(':')
        if not props:
            props = json.load(open(os.path.join(HERE, 'seeded', patch, 'meta.json')))['property']
        jobs += [(patch, p) for p in props.split(',')]
    work = tempfile.mkdtemp(prefix='try_')
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one, work, p, q, tier) for p, q in jobs]):
            print(f.result(), flush=True)
    shutil.rmtree(work)


main()
