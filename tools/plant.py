"""Write one planted bug: plant.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks,demo}"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def plant(id, prop, file, edits, needs, breaks, demo):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    p = os.path.join(w, 'r', file)
    s = open(p).read()
    for old, new in edits:
        assert s.count(old) == 1, (id, s.count(old), old)
        s = s.replace(old, new)
    open(p, 'w').write(s)
    diff = subprocess.run(['git', 'diff'], cwd=w + '/r', capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 if the behaviour is right, non-zero otherwise\n'
        'd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu JAX_ENABLE_X64=1\n'
        'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"\n')
    shutil.rmtree(w)
