#!/usr/bin/env python3
'''Behaviour preserving edits: the checks should stay quiet: tools/refactors.py [id...]'''
import glob, json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(os.environ.get('JOBS', '3'))


def one(job):
    spec, prop = job
    work = f"/tmp/refac/{spec['id']}-{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs('/tmp/refac', exist_ok=True)
    try:
        subprocess.run(f'cp -a /repo {work} && cp -a {V} {work}-v', shell=True, check=True)
        for fn, old, new in spec['edits']:
            text = open(f'{work}/{fn}').read()
            if text.count(old) != 1:
                return spec['id'], prop, f'{fn}: {text.count(old)} matches of {old[:60]!r}', ''
            open(f'{work}/{fn}', 'w').write(text.replace(old, new))
        r = subprocess.run(['python3-vt', 'check.py', prop], cwd=work + '-v', env=dict(os.environ, BEAD_VERIF_REPO=work), capture_output=True, text=True)
        replay = ''
        for x in r.stdout.splitlines():
            if x.startswith('VIOLATION'):
                p = x.split('replay=')[1].split()[0]
                p = p if os.path.isabs(p) else os.path.join(work + '-v', p)
                replay = open(p).read()[:1500] if os.path.exists(p) else ''
    finally:
        for d in (work, work + '-v'):
            shutil.rmtree(d, ignore_errors=True)
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    if r.returncode == 0:
        s = 'quiet'
    elif v and 'no-failing-input-found' in v[-1]:
        s = 'PROOF FAILS'
    else:
        s = f'FALSE ALARM rc={r.returncode}'
    return spec['id'], prop, s, replay + r.stderr[-500:]


def tests(spec):
    work = f"/tmp/refac/{spec['id']}-t"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs('/tmp/refac', exist_ok=True)
    try:
        subprocess.run(f'cp -a /repo {work}', shell=True, check=True)
        for fn, old, new in spec['edits']:
            text = open(f'{work}/{fn}').read()
            assert text.count(old) == 1, (spec['id'], fn, old)
            open(f'{work}/{fn}', 'w').write(text.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=work, capture_output=True, text=True)
        return spec['id'], r.stdout.strip().splitlines()[-1]
    finally:
        shutil.rmtree(work, ignore_errors=True)


specs = [s for f in sorted(glob.glob(f'{V}/tools/refactorspecs/*.py')) for s in runpy.run_path(f)['R']]
want = set(sys.argv[1:])
if want:
    specs = [s for s in specs if s['id'] in want]
jobs = [(s, p) for s in specs for p in s['props']]
out = {}
with ThreadPoolExecutor(N) as ex:
    for sid, prop, s, detail in ex.map(one, jobs):
        print(f'{sid:28} {prop} {s}', flush=True)
        out[f'{sid}-{prop}'] = (s, detail)
json.dump(out, open('/tmp/w/refac.json', 'w'), indent=1)
