'''
Run-time contract checkers: the property contracts evaluated on concrete inputs
against the real code (imported from the tree given by BEAD_VERIF_REPO).

Bounded; used to find the failing input of a failed obligation.
All effects stay under the scratch directory in TMPDIR.
'''
import argparse
import ast
import atexit
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('BEAD_VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, what, key=None, **data):
        super().__init__(what)
        self.what = what
        self.key = key
        self.data = data


class Skip(Exception):
    '''The case does not apply (to this tree).'''


def show(x, depth=0):
    s = repr(x)
    return s if len(s) < 1500 else s[:1500] + '...'


def expect(cond, what, key=None, **data):
    if not cond:
        raise Violation(what, key, **{k: show(v) for k, v in data.items()})


CASES = []
CASE_SECONDS = 60


def case(weight=10, fixed=False):
    def deco(f):
        CASES.append((f.__name__, f, weight, fixed))
        return f
    return deco


class D:
    '''What a case gets.'''
    def __init__(self, rng, hints, literals, thorough):
        self.rng = rng
        self.hints = hints
        self.literals = literals
        self.thorough = thorough
        self._tmp = None
        self.nontrivial = True

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case-')
        return self._tmp

    def cleanup(self):
        if self._tmp:
            for top, dirs, files in os.walk(self._tmp):
                for d in dirs:
                    p = os.path.join(top, d)
                    if not os.path.islink(p):
                        os.chmod(p, 0o700)
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # values
    def name(self, extra=()):
        r = self.rng
        pool = ['a', 'b', 'ab', 'abc', 'x', 'bead', 'bead-1', 'b_2', 'a.b', 'A', 'é', 'nam', 'name', 'name2', 'x y'] + list(extra)
        if self.literals and r.random() < .2:
            return r.choice(self.literals)
        if self.hints and r.random() < .3:
            return r.choice(self.hints)
        return r.choice(pool)


def harvest():
    '''Short string literals of the current source.'''
    out = set()
    for pkg in ('bead', 'bead_cli'):
        for top, dirs, files in os.walk(os.path.join(REPO, pkg)):
            for f in files:
                if f.endswith('.py') and not f.startswith('test_'):
                    try:
                        tree = ast.parse(open(os.path.join(top, f), encoding='utf-8').read())
                    except (SyntaxError, OSError):
                        continue
                    for n in ast.walk(tree):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 30:
                            out.add(n.value)
    return sorted(out)


def repo_frame(tb):
    '''Deepest frame is in the code under test?'''
    last_repo = None
    last = None
    for fr in traceback.extract_tb(tb):
        last = fr.filename
        if os.path.abspath(fr.filename).startswith(REPO.rstrip('/') + '/'):
            last_repo = fr
    return last_repo


def run_case(f, seed, hints, literals, thorough):
    d = D(random.Random(seed), hints, literals, thorough)
    cwd = os.getcwd()

    def hang(*_):
        raise Violation(f'{f.__name__}: no answer in {CASE_SECONDS} s')
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(CASE_SECONDS)
    try:
        f(d)
        return None, None, d.nontrivial
    except Violation as e:
        return dict(what=e.what, key=e.key, **e.data), None, True
    except Skip as e:
        return None, f'{f.__name__}: skipped: {e}', False
    except Exception as e:
        text = ''.join(traceback.format_exception(e))[-2000:]
        fr = repo_frame(e.__traceback__)
        interface = isinstance(e, (ImportError, NameError)) or (fr is None and isinstance(e, (AttributeError, TypeError)))
        if fr is not None and not interface:
            return dict(what=f'unexpected exception {type(e).__name__}: {e}', key=None, traceback=text), None, True
        return None, f'{f.__name__}: not applicable: {text[-700:]}', False
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        d.cleanup()


def unprivileged():
    '''Permissions count only for other users than root, and an escaped effect has nothing to damage.'''
    if os.geteuid() != 0:
        return
    tmp = tempfile.mkdtemp(prefix='driver-')
    try:
        os.chown(tmp, 65534, 65534)
        os.chmod(tmp, 0o755)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass
    os.environ['TMPDIR'] = os.environ['HOME'] = tmp
    os.environ['XDG_CONFIG_HOME'] = os.path.join(tmp, 'config')
    tempfile.tempdir = tmp
    os.chdir(tmp)
    atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))


def main(rule=''):
    p = argparse.ArgumentParser()
    p.add_argument('--out')
    p.add_argument('--seconds', type=float, default=20)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--hints', default='[]')
    p.add_argument('--case')
    p.add_argument('--case-seed', type=int, default=0)
    a = p.parse_args()
    import bead
    assert os.path.abspath(bead.__file__).startswith(REPO.rstrip('/') + '/'), bead.__file__
    out_file = open(a.out, 'w') if a.out else None
    unprivileged()
    hints = [h for h in json.loads(a.hints) if isinstance(h, str)]
    literals = harvest()
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    sys.stdout.flush()
    devnull = open(os.devnull, 'w')
    out0, err0 = sys.stdout, sys.stderr
    if a.case:
        f = [c for c in CASES if c[0] == a.case][0][1]
        v, note, _ = run_case(f, a.case_seed, hints, literals, thorough)
        print(json.dumps(dict(violation=v, note=note), indent=1, default=str))
        sys.exit(1 if v else 0)
    t0 = time.monotonic()
    rng = random.Random(a.seed)
    n = nontrivial = 0
    notes = {}
    violation = None
    counts = {}
    dead = {}

    def one(name, f, seed):
        nonlocal n, nontrivial, violation
        sys.stdout, sys.stderr = devnull, devnull
        try:
            v, note, nt = run_case(f, seed, hints, literals, thorough)
        finally:
            sys.stdout, sys.stderr = out0, err0
        n += 1
        nontrivial += bool(nt)
        counts[name] = counts.get(name, 0) + 1
        if note:
            dead[name] = dead.get(name, 0) + 1
            notes.setdefault(note[:200], note)
        if v:
            violation = dict(v, case=name, case_seed=seed)
        return v
    for name, f, w, fixed in CASES:
        if fixed and not violation:
            one(name, f, a.seed)
    rand = [c for c in CASES if not c[3]]
    # every kind of case a few times first, then by weight
    for k in range(3):
        for name, f, w, fixed in rand:
            if violation:
                break
            one(name, f, rng.randrange(1 << 40))
    while rand and not violation and time.monotonic() - t0 < a.seconds:
        name, f, w, fixed = rng.choices(rand, [c[2] for c in rand])[0]
        if dead.get(name, 0) > 20 and dead[name] == counts[name]:
            if all(dead.get(c[0], 0) > 20 for c in rand):
                break
            continue
        one(name, f, rng.randrange(1 << 40))
    res = dict(violation=violation, evaluations=n, distinct_nontrivial=nontrivial, rule=rule,
               notes=list(notes.values())[:10], samples=[dict(case=k, runs=c) for k, c in counts.items()])
    if a.out:
        with out_file as f:
            json.dump(res, f, default=str)
    else:
        print(json.dumps(res, indent=1, default=str))
