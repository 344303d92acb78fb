#!/usr/bin/env python3
"""Author and try planted bugs (development tool; no check uses it).

seed.py make SPEC.py ...   write seeded/<id>/ from specs
seed.py try ID ...         tests, demo (clean and patched) and the check, in
                           scratch copies of /repo
A spec module defines ID, PROPERTY, EDITS [(file, old, new)], DEMO, NEEDS, BREAKS.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'f420a34'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(path):
    s = runpy.run_path(path)
    d = f"{HERE}/seeded/{s['ID']}"
    tmp = tempfile.mkdtemp(prefix='mkseed_')
    copy = tmp + '/repo'
    sh(f'git clone -q /repo {copy}')
    for file, old, new in s['EDITS']:
        src = open(f'{copy}/{file}').read()
        assert src.count(old) == 1, (s['ID'], file, src.count(old), old)
        open(f'{copy}/{file}', 'w').write(src.replace(old, new))
    diff = sh('git diff', cwd=copy).stdout
    assert diff
    # the lines removed must be original ones
    for file in {e[0] for e in s['EDITS']}:
        removed = []
        for line in sh(f'git diff -U0 {file}', cwd=copy).stdout.splitlines():
            if line.startswith('@@'):
                a = line.split()[1][1:].split(',')
                n = int(a[1]) if len(a) > 1 else 1
                removed += range(int(a[0]), int(a[0]) + n)
        blame = sh(f'git blame -s --abbrev=7 HEAD -- {file}', cwd='/repo').stdout.splitlines()
        anc = set(l[:7] for l in sh(f'git log --format=%h --abbrev=7 {BASE}..HEAD', cwd='/repo').stdout.split())
        mine = [r for r in removed if blame[r - 1].split()[0].lstrip('^')[:7] in anc]
        if mine:
            print(s['ID'], 'WARNING lines added by my own commits:', file, mine)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\n# cwd /repo; exit 0 on the unchanged tree, nonzero with the bug\n'
        'D=$(cd "$(dirname "$0")" && pwd)\n'
        'T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg '
        'MPLCONFIGDIR="$T" NUMBA_CACHE_DIR="$T" SCRATCH="$T"\n'
        '/opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'],
               'what_it_breaks': s['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(tmp)


def trial(sid, tests=True):
    d = f'{HERE}/seeded/{sid}'
    meta = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='seed_')
    copy = tmp + '/repo'
    out = [sid, meta['property']]
    try:
        sh(f'cp -a /repo {copy}')
        sh('git checkout -q -- .', cwd=copy)
        r = sh(f'bash {d}/demo.sh', cwd=copy)
        out.append('clean ok' if r.returncode == 0 else 'CLEAN FAILS ' + r.stderr[-600:])
        r = sh(f'git apply {d}/patch.diff', cwd=copy)
        if r.returncode:
            out.append('DOES NOT APPLY')
            print(*out, sep=' | ')
            return
        r = sh(f'bash {d}/demo.sh', cwd=copy)
        out.append('bug shown' if r.returncode else 'BUG NOT SHOWN')
        if tests:
            env = dict(os.environ, PYTHONPATH=copy, MPLBACKEND='Agg', MPLCONFIGDIR=tmp,
                       PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            r = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov '
                   f'--timeout=300 --junitxml={tmp}/j.xml -o junit_family=xunit2',
                   cwd=copy, env=env)
            sh(f'python3 /opt/vp/results.py {tmp}/o.json junit:{tmp}/j.xml')
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            got = set(json.load(open(f'{tmp}/o.json'))['passed'])
            out.append('tests pass' if base <= got else f'TESTS FAIL {len(base - got)}')
        r = sh(f'python3 {HERE}/run_check.py {meta["property"]} --no-evidence --tier quick --seed 1',
               env=dict(os.environ, VT_REPO=copy))
        out.append({1: 'CAUGHT', 0: 'MISSED'}.get(r.returncode, f'exit {r.returncode}'))
        for line in r.stdout.splitlines():
            if line.startswith('  '):
                out.append(line.strip()[:140])
                break
    finally:
        shutil.rmtree(tmp)
    print(*out, sep=' | ', flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for p in sys.argv[2:]:
            make(p)
    else:
        ids = sys.argv[2:]
        tests = '--no-tests' not in ids
        for i in [x for x in ids if x[0] != '-'] or sorted(os.listdir(HERE + '/seeded')):
            trial(i, tests)
