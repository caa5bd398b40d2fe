"""Confirm planted bugs in a scratch copy: patch applies, stable tests pass, demo separates.

usage: confirm_seeded.py [id ...]      (not used by any check)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'JAX_PLATFORMS': 'cpu', 'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0'}


def tests(repo):
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-n', '4',
                        '--dist', 'loadscope', '--timeout=300', '-rf'],
                       cwd=repo, env={**ENV, 'PYTHONPATH': repo}, capture_output=True, text=True)
    return set(re.findall(r'^(?:FAILED|ERROR) (\S+)', p.stdout, re.M)), p.stdout.strip().split('\n')[-1]


def demo(repo, d):
    p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, env={**ENV, 'PYTHONPATH': repo},
                       capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr).strip()[-300:]


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    work = tempfile.mkdtemp(prefix='plant_')
    base = os.path.join(work, 'base')
    shutil.copytree('/repo', base, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    base_fail, line = tests(base)
    print('baseline', line)
    for i in ids:
        d = os.path.join(SEEDED, i)
        r = os.path.join(work, i)
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('__pycache__'))
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r, capture_output=True, text=True)
        if p.returncode:
            print(i, 'DOES NOT APPLY', p.stderr)
            continue
        fail, line = tests(r)
        new = fail - base_fail
        d0, o0 = demo(base, d)
        d1, o1 = demo(r, d)
        ok = not new and d0 == 0 and d1 != 0
        print(i, 'ok' if ok else 'PROBLEM', json.load(open(os.path.join(d, 'meta.json')))['property'],
              '' if ok else (new, d0, o0, d1, o1), flush=True)
        shutil.rmtree(r)
    shutil.rmtree(work)


main()
