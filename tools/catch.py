#!/usr/bin/env python3
'''Which planted bugs are caught: tools/catch.py [id...] (scratch copies; writes /tmp/w/catch.json)'''
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    prop = json.load(open(f'{V}/seeded/{sid}/meta.json'))['property']
    work = f'/tmp/catch/{sid}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs('/tmp/catch', exist_ok=True)
    try:
        subprocess.run(f'cp -a /repo {work} && cp -a {V} {work}-v && cd {work} && git apply {V}/seeded/{sid}/patch.diff', shell=True, check=True, capture_output=True)
        r = subprocess.run(['python3-vt', 'check.py', prop], cwd=work + '-v', env=dict(os.environ, BEAD_VERIF_REPO=work), capture_output=True, text=True)
    except subprocess.CalledProcessError as e:
        return sid, dict(rc=-1, line=e.stderr.decode()[-300:])
    finally:
        for d in (work, work + '-v'):
            shutil.rmtree(d, ignore_errors=True)
    lines = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    obl = [x for x in r.stdout.splitlines() if 'obligation' in x.lower() or 'refuted' in x or 'undecided' in x]
    return sid, dict(prop=prop, rc=r.returncode, line=(lines or [r.stdout[-300:] + r.stderr[-300:]])[-1], driver=bool(lines) and 'no-failing-input-found' not in lines[-1], detail=r.stdout[-1500:])


ids = sys.argv[1:] or sorted(os.listdir(f'{V}/seeded'))
res = {}
with ThreadPoolExecutor(3) as ex:
    for sid, r in ex.map(one, ids):
        res[sid] = r
        print(f"{sid:24} rc={r['rc']} {'input' if r.get('driver') else 'proof only' if r['rc'] == 1 else 'MISSED'} {'' if r['rc'] == 1 else r['line'][:300]}", flush=True)
json.dump(res, open('/tmp/w/catch.json', 'w'), indent=1)
summary = os.path.join(V, 'tools', 'catch.json')
known = json.load(open(summary)) if os.path.exists(summary) else {}
known.update({k: dict(rc=v['rc'], driver=v['driver']) for k, v in res.items()})
json.dump(known, open(summary, 'w'), indent=1, sort_keys=True)
