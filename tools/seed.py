"""Builds /verif/seeded from tools/seed/bugs.py and confirms each bug in scratch copies.

seed.py make [ids]     write patch.diff, demo.sh, demo.py, proj.py, meta.json
seed.py confirm [ids]  patched copy: tests pass, demo fails; clean copy: demo passes; the property's quick check catches it
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools', 'seed'))
from bugs import BUGS  # noqa
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy(tag):
    d = f'/tmp/seed_{tag}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a /repo {d}')
    sh(f'git -C {d} checkout -- .')
    if os.environ.get('SEED_FROM'):
        sh(f'git -C {d} fetch -q {os.environ["SEED_FROM"]} HEAD && git -C {d} reset -q --hard FETCH_HEAD')
    return d


def make(b):
    out = os.path.join(SEEDED, b['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = copy('mk_' + b['id'])
    try:
        for rel, old, new in b['edits']:
            p = os.path.join(d, rel)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], rel, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(f'git -C {d} diff').stdout
        assert diff, b['id']
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    open(os.path.join(out, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
    shutil.copy(os.path.join(ROOT, 'tools', 'seed', 'proj.py'), out)
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write(f'#!/bin/bash\nexec {PY} -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)


def confirm(b):
    out = os.path.join(SEEDED, b['id'])
    d = copy(b['id'])
    res = {}
    try:
        r = sh(f'bash {out}/demo.sh', cwd=d)
        res['demo clean'] = r.returncode == 0 or r.stdout + r.stderr
        a = sh(f'git -C {d} apply {out}/patch.diff')
        res['applies'] = a.returncode == 0 or a.stderr
        r = sh(f'bash {out}/demo.sh', cwd=d)
        res['demo patched fails'] = r.returncode != 0
        res['demo says'] = (r.stderr.strip().splitlines() or [''])[-1][:150]
        t = sh(f'{PY} -m pytest -q -x --deselect tests/test_pipeline_manager/test_itemview.py -p no:cacheprovider 2>&1 | tail -3', cwd=d)
        t2 = sh(f'{PY} -m pytest -q -p no:cacheprovider 2>&1 | tail -1', cwd=d)
        res['tests'] = t2.stdout.strip()
        res['tests ok'] = '146 passed' in t2.stdout
        if '--nocheck' not in sys.argv:
            env = dict(os.environ, SYMEX_REPO=d)
            c = sh(f'./check.py {b["property"]} --tier quick --noevidence', cwd=ROOT, env=env)
            v = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'counterexample'))]
            res['caught'] = c.returncode == 1 and any(l.startswith('VIOLATION') for l in v)
            res['how'] = (v or c.stdout.splitlines()[-2:] or [c.stderr[-300:]])[0][:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return b['id'], res


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('--')]
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    if sys.argv[1] == 'make':
        for b in todo:
            make(b)
        print(len(todo), 'made')
    else:
        bad = 0
        for b in todo:
            i, r = confirm(b)
            ok = all(r.get(k) is True for k in ('demo clean', 'applies', 'demo patched fails', 'tests ok', 'caught'))
            bad += not ok
            print('OK ' if ok else 'BAD', i, json.dumps(r), flush=True)
        print('bad:', bad)
