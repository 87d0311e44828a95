#!/usr/bin/env python3
'''
Make and confirm planted bugs: tools/seeds.py [id...]

Reads tools/seedspecs/*.py: each defines SEEDS, a list of dicts with
id, property, edits [(file, old, new)...], needs, breaks, demo (Python text).
Confirms in a scratch copy of /repo: tests pass with the change, the demonstration
passes without and fails with it.  Writes /verif/seeded/<id>/.
'''
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''\
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.getcwd())
_tmp = tempfile.mkdtemp()
os.environ['HOME'] = _tmp
from pathlib import Path
tmp = Path(_tmp)


def remove():
    for top, dirs, files in os.walk(_tmp):
        os.chmod(top, 0o700)
    shutil.rmtree(_tmp, ignore_errors=True)


import atexit
atexit.register(remove)
'''
DEMO = '''#!/bin/sh
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def baseline():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def confirm(spec):
    sid = spec['id']
    work = '/tmp/seedwork'
    shutil.rmtree(work, ignore_errors=True)
    out = f'{VERIF}/seeded/{sid}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = sh(f'cp -a /repo {work}')
    try:
        sh('git checkout -q -- . && git clean -fdq', work)
        with open(f'{out}/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(f'{out}/demo.sh', 0o755)
        with open(f'{out}/demo.py', 'w') as f:
            f.write(PRELUDE + spec['demo'])
        before = sh(f'sh {out}/demo.sh', work, timeout=300)
        if before.returncode:
            return 'demo fails on the unchanged tree: ' + (before.stdout + before.stderr)[-600:]
        for fn, old, new in spec['edits']:
            text = open(f'{work}/{fn}').read()
            if text.count(old) != 1:
                return f'{fn}: {text.count(old)} matches of {old!r}'
            open(f'{work}/{fn}', 'w').write(text.replace(old, new))
        diff = sh('git diff', work).stdout
        open(f'{out}/patch.diff', 'w').write(diff)
        json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']),
                  open(f'{out}/meta.json', 'w'), indent=1)
        after = sh(f'sh {out}/demo.sh', work, timeout=300)
        if after.returncode == 0:
            return 'demo passes with the change'
        t = sh('PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8 setpriv --inh-caps=-dac_override --bounding-set=-dac_override /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -4', work)
        if ' failed' in t.stdout or ' passed' not in t.stdout or ' error' in t.stdout:
            return 'tests: ' + t.stdout[-500:]
        return ''
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    want = sys.argv[1:]
    bad = 0
    for fn in sorted(glob.glob(f'{VERIF}/tools/seedspecs/*.py')):
        for spec in runpy.run_path(fn)['SEEDS']:
            if want and spec['id'] not in want:
                continue
            if not want and os.path.exists(f'{VERIF}/seeded/{spec["id"]}/meta.json'):
                continue
            err = confirm(spec)
            print(spec['id'], err or 'ok', flush=True)
            if err:
                bad = 1
                shutil.rmtree(f'{VERIF}/seeded/{spec["id"]}', ignore_errors=True)
    return bad


sys.exit(main())
