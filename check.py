#!/usr/bin/env python3
'''
check.py <property> [--tier quick|thorough]

Decides a property: every contract unit of contracts/<property>.py is verified
against the current source in /repo (nothing is cached between runs), and the
run-time contract checker drivers/<property>.py looks for a failing input on the
real code (it alone decides nothing but a violation).

exit 0: all obligations discharged
exit 1: VIOLATION line; the replay file names the failed obligations, has the
        verifier's output and the failing input, when there is one
'''
import argparse
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BEAD_VERIF_REPO', '/repo')
REPO_PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'
WORKERS = max(2, min(8, os.cpu_count() or 2))


def load(prop):
    sys.path.insert(0, HERE)
    return importlib.import_module('contracts.' + prop)


# ------------------------------------------------------------ one unit (sub process)

def unit_main(prop, name, out, thorough):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(12000)
    m = load(prop)
    from pyded.unit import run_unit
    u = [u for u in m.UNITS if u.name == name][0]
    r = run_unit(u, REPO, quick=not thorough)
    with open(out, 'w') as f:
        json.dump(r.as_dict(), f, default=str)


class Procs:
    '''Sub processes with a hard time limit.'''
    def __init__(self):
        self.live = set()

    def run(self, cmd, timeout, env=None):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                             start_new_session=True, cwd=HERE)
        self.live.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, _ = p.communicate()
            return None, out
        finally:
            self.live.discard(p)

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def kill_all(self):
        for p in list(self.live):
            self.kill(p)


PROCS = Procs()


def run_unit_proc(prop, name, tmp, thorough, timeout):
    out = os.path.join(tmp, re.sub(r'\W', '_', name) + ('-t' if thorough else '-q') + '.json')
    cmd = [sys.executable, os.path.join(HERE, 'check.py'), prop, '--unit', name, '--out', out]
    if thorough:
        cmd.append('--long')
    t0 = time.monotonic()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    rc, log = PROCS.run(cmd, timeout, env)
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        why = 'time limit of %ds' % timeout if rc is None else f'verifier process ended with {rc}: {(log or "")[-800:]}'
        r = dict(name=name, status='undecided', obligations={}, reason=why, functions=[], stubs=[], ext=[], paths=0,
                 time=time.monotonic() - t0, solver_time=0.0, queries=0)
    return r


# ------------------------------------------------------------ driver

def run_driver(prop, tmp, seconds, seed, tier, hints, tag):
    path = os.path.join(HERE, 'drivers', prop + '.py')
    if not os.path.exists(path):
        return None
    out = os.path.join(tmp, f'driver-{tag}.json')
    scratch = os.path.join(tmp, f'scratch-{tag}')
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(seed % 1000), TMPDIR=scratch,
               HOME=scratch, XDG_CONFIG_HOME=os.path.join(scratch, 'cfg'), BEAD_VERIF_REPO=REPO, VERIF_TIER=tier)
    cmd = [REPO_PYTHON, path, '--out', out, '--seconds', str(seconds), '--seed', str(seed), '--hints', json.dumps(hints[:60])]
    rc, log = PROCS.run(cmd, seconds + 60, env)
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        r = dict(violation=None, evaluations=0, notes=[f'driver ended with {rc}: {(log or "")[-1200:]}'], samples=[])
    subprocess.run(['chmod', '-R', 'u+rwX', scratch], capture_output=True)
    shutil.rmtree(scratch, ignore_errors=True)
    return r


def run_drivers(prop, tmp, seconds, seeds, tier, hints, tag):
    '''The driver with more than one seed at the same time'''
    with ThreadPoolExecutor(len(seeds)) as ex:
        all_ = list(ex.map(lambda s: run_driver(prop, tmp, seconds, s, tier, hints, f'{tag}{s}'), seeds))
    return merged([r for r in all_ if r])


def merged(runs):
    '''One result of more runs of the driver'''
    if not runs:
        return None
    out = dict(next((r for r in runs if r.get('violation')), runs[0]))
    out['evaluations'] = sum(r.get('evaluations', 0) for r in runs)
    out['notes'] = list(dict.fromkeys(n for r in runs for n in r.get('notes', [])))
    return out


def hints_from(results):
    '''Values of the verifier's counterexamples: inputs to try on the real code.'''
    out = []
    for r in results:
        for o in r['obligations'].values():
            for f in o['failures']:
                out += re.findall(r'"((?:[^"\\]|\\.)*)"', str(f[1]))[:20]
                out += re.findall(r'-> (-?\d+)', str(f[1]))[:20]
    seen = []
    for x in out:
        if x not in seen and len(x) < 200:
            seen.append(x)
    return seen


def known_findings(prop):
    known = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return known


# ------------------------------------------------------------ the check

def check(prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    m = load(prop)
    tmp = tempfile.mkdtemp(prefix=f'bead-verif-{prop}-')
    os.chmod(tmp, 0o711)     # drivers run as another user
    known = known_findings(prop)
    try:
        units = m.UNITS
        unit_time = 1200 if thorough else 170
        budget = getattr(m, 'DRIVER_SECONDS', 25) * (12 if thorough else 1)
        with ThreadPoolExecutor(WORKERS) as ex:
            dfut = ex.submit(run_driver, prop, tmp, budget, seed, tier, [], 'a')
            order = sorted(units, key=lambda u: -u.budget)
            futs = {u.name: ex.submit(run_unit_proc, prop, u.name, tmp, thorough, unit_time) for u in order}
            results = [futs[u.name].result() for u in units]
            # the processors are free now: other seeds
            left = budget - (time.monotonic() - t0)
            more = None
            if not (dfut.done() and (dfut.result() or {}).get('violation')):
                more = run_drivers(prop, tmp, max(budget / 3, left), [seed + 1000 * k for k in range(1, WORKERS - 2)] or [seed + 1000], tier, [], 'm')
            driver = merged([r for r in (dfut.result(), more) if r])
            # a time limit of the solver is not a refutation: once more, with more time
            again = [r for r in results if r['status'] in ('undecided', 'failed') and not thorough and retry(r)]
            if again and time.monotonic() - t0 < 330 and not (driver or {}).get('violation'):
                futs = {r['name']: ex.submit(run_unit_proc, prop, r['name'], tmp, True, 200) for r in again}
                for i, r in enumerate(results):
                    if r['name'] in futs:
                        r2 = futs[r['name']].result()
                        if r2['status'] == 'proved' or (r2['status'] == 'failed' and r['status'] == 'undecided'):
                            results[i] = r2
        bad = [r for r in results if r['status'] not in ('proved', 'skipped')]
        if bad and not (driver or {}).get('violation'):
            more = run_drivers(prop, tmp, (60 if not thorough else 300), [seed + 7919 * k for k in range(1, WORKERS - 1)], tier, hints_from(bad), 'b')
            driver = merged([r for r in (more, driver) if r])
        return report(prop, tier, seed, m, results, bad, driver, known, t0)
    finally:
        PROCS.kill_all()
        subprocess.run(['chmod', '-R', 'u+rwX', tmp], capture_output=True)
        shutil.rmtree(tmp, ignore_errors=True)


def retry(r):
    if r['status'] == 'undecided':
        return 'outside of the verifier' not in r['reason'] and 'not found' not in r['reason'] \
            and 'verifier error' not in r['reason']
    return any(f[0] == 'undecided' for o in r['obligations'].values() for f in o['failures'])


def tool_versions():
    import z3
    out = ['z3 ' + z3.get_version_string() + ' (python bindings)']
    try:
        p = subprocess.run(['cvc5', '--version'], capture_output=True, text=True)
        out.append(p.stdout.splitlines()[0])
    except (OSError, IndexError):
        pass
    return out


def report(prop, tier, seed, m, results, bad, driver, known, t0):
    obligations = discharged = 0
    backends = {}
    functions, stubs, ext = set(), set(), set()
    units = []
    for r in results:
        n = sum(o['count'] for o in r['obligations'].values())
        p = sum(o['proved'] for o in r['obligations'].values())
        if r['status'] not in ('proved', 'skipped') and n == p:
            n += 1      # the unit itself is an obligation that failed
        obligations += n
        discharged += p
        for o in r['obligations'].values():
            for b, c in o['backends'].items():
                backends[b] = backends.get(b, 0) + c
        functions |= set(r['functions'])
        stubs |= set(r['stubs'])
        ext |= set(r['ext'])
        units.append(dict(unit=r['name'], status=r['status'], paths=r['paths'], seconds=round(r['time'], 2),
                          solver_seconds=round(r['solver_time'], 2), reason=r['reason'][:1500],
                          obligations={k: [o['proved'], o['count']] for k, o in r['obligations'].items()}))
    if not obligations:
        bad = bad or [dict(name='(none)', status='undecided', reason='no obligations were generated', obligations={})]
    level = getattr(m, 'LEVEL', 'proof')
    driver = driver or dict(violation=None, evaluations=0, notes=['no driver'], samples=[])
    violation = driver.get('violation')
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f'python3-vt check.py {prop} --tier {tier}',
        trusted_base=[
            'pyded: the symbolic interpreter of python in /verif/pyded (compared with CPython by selftest/cpython.py)',
            *tool_versions(),
            'specification and models of external functions in contracts/' + prop + '.py and contracts/common*.py',
            *getattr(m, 'TRUSTED', [])],
        functions_under_contract=sorted(functions),
        contracts_used_instead_of_bodies=sorted(stubs),
        external_functions_modelled=sorted(ext),
        proved_by_back_end=backends,
        solver_seconds=round(sum(r['solver_time'] for r in results), 2),
        solver_queries=sum(r['queries'] for r in results),
        units=units,
        not_covered_by_proof=list(getattr(m, 'NOT_COVERED', [])),
        bounded_stand_ins=list(getattr(m, 'BOUNDED', [])),
        evaluations=driver.get('evaluations', 0),
        rule='run-time checks of the same contracts on the real code; bounded, never counted as proved: '
             + driver.get('rule', ''),
        samples=driver.get('samples', [])[:5],
        driver_notes=driver.get('notes', [])[:10],
    )
    reported = None
    lines = []
    if violation:
        hit = [k for k in known if k[0] == violation.get('key')]
        if hit:
            violation = None
    if violation or bad:
        reported = True
    for key, what in known:
        lines.append(f'KNOWN-FINDING: property={prop} {what}')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])), wall_s=round(time.monotonic() - t0, 2),
              violations=1 if reported else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: {discharged}/{obligations} obligations discharged in {len([r for r in results if r["status"] != "skipped"])}'
          f' units, {len(functions)} functions, {driver.get("evaluations", 0)} driver runs, {ev["wall_s"]} s')
    for n in driver.get('notes', [])[:5]:
        print('  driver note:', n[:600])
    for line in lines:
        print(line)
    if not reported:
        return 0
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay', f'{prop}-{tier}.json')
    failed = []
    for r in bad:
        obs = [dict(obligation=k, verifier=o['failures']) for k, o in r['obligations'].items() if o['failures']]
        failed.append(dict(unit=r['name'], status=r['status'], reason=r['reason'], failed_obligations=obs))
        print(f'  unit {r["name"]}: {r["status"]} {r["reason"][:300]}')
        for o in obs:
            print(f'    obligation: {o["obligation"]}: {o["verifier"][0][0]}')
    doc = dict(property=prop, failed=failed, failing_input=violation)
    if violation:
        doc['replay_cmd'] = (f'cd /verif && PYTHONPATH={REPO} {REPO_PYTHON} drivers/{prop}.py '
                             f'--case {violation.get("case")} --case-seed {violation.get("case_seed")}')
        print('  failing input:', json.dumps(violation, default=str)[:1500])
    with open(replay, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    end = '' if violation else ' no-failing-input-found'
    print(f'VIOLATION property={prop} replay={replay}{end}')
    return 1


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    p.add_argument('--unit')
    p.add_argument('--out')
    p.add_argument('--long', action='store_true')
    a = p.parse_args()
    if a.unit:
        unit_main(a.property, a.unit, a.out, a.long)
        return 0
    try:
        return check(a.property, a.tier)
    except BaseException as e:
        # never a silent pass
        import traceback
        traceback.print_exc()
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', 'replay', f'{a.property}-{a.tier}.json')
        with open(replay, 'w') as f:
            json.dump(dict(property=a.property, error=f'{type(e).__name__}: {e}'), f)
        print(f'VIOLATION property={a.property} replay={replay} no-failing-input-found')
        return 1


if __name__ == '__main__':
    sys.exit(main())
