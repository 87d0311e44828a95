'''Discharging obligations: z3 in several configurations, then cvc5.'''
import hashlib
import time
import z3


def _flat(t, out):
    if z3.is_and(t):
        for c in t.children():
            _flat(c, out)
    else:
        out.append(t)


def is_heavy(f):
    return z3.is_quantifier(f) and f.qid().startswith('heavy')


class Prover:
    def __init__(self, quick=True, use_cvc5=True):
        self.use_cvc5 = use_cvc5
        self.scale = 1 if quick else 4
        self.cross_check = not quick
        self.queries = 0
        self.time = 0.0
        self.disagreements = []
        self.cache = {}

    def configs(self):
        s = self.scale
        em = {'mbqi': False, 'auto_config': False}
        return [
            ('z3-ematch', 2500 * s, em),
            ('z3', 3000 * s, {}),
            ('z3-seed7', 4000 * s, dict(em, random_seed=7, case_split=3)),
            ('z3-relevancy', 3000 * s, dict(em, relevancy=0)),
            ('z3-seed11', 4000 * s, dict(em, random_seed=11, **{'qi.eager_threshold': 50.0})),
        ]

    def prove(self, facts, goal, short=False):
        self.queries += 1
        t0 = time.monotonic()
        try:
            return self._prove(facts, goal, short)
        finally:
            self.time += time.monotonic() - t0

    def _prove(self, facts, goal, short=False):
        if z3.is_true(z3.simplify(goal)):
            return 'proved', 'simplify', ''
        gs = []
        _flat(goal, gs)
        if len(gs) > 1:
            back = None
            for g in gs:
                r = self._prove(facts, g, short)
                if r[0] != 'proved':
                    return r
                back = r[1]
            return 'proved', back, ''
        last = ''
        sat_model = None
        # a[i:=x][j] in terms of a[j], which is what there are other terms about
        goal = z3.simplify(goal, expand_select_store=True)
        if z3.is_true(goal):
            return 'proved', 'simplify', ''
        # facts on the order of elements are many, and seldom needed
        light = [f for f in facts if not is_heavy(f)]
        configs = [(n, t, p, facts) for n, t, p in self.configs()]
        if len(light) < len(facts):
            lights = [(n + '-light', t, p, light) for n, t, p in self.configs()]
            configs = [lights[0], configs[0], lights[1], lights[2], configs[1], configs[2], configs[3]]
        if short:
            configs = configs[:3]
        r = None
        for k, (name, timeout, params, use) in enumerate(configs):
            if k == 2 and self.use_cvc5 and not short:
                r = self.cvc5(facts, goal)
                if r == 'unsat':
                    return 'proved', 'cvc5', ''
                last = f'cvc5: {r}'
            s = z3.SimpleSolver()
            s.set('timeout', timeout)
            for k, v in params.items():
                s.set(k, v)
            for f in use:
                s.add(f)
            s.add(z3.Not(goal))
            try:
                r = s.check()
            except z3.Z3Exception as e:
                last = f'{name}: {e}'
                continue
            if r == z3.unsat:
                return 'proved', name, ''
            if r == z3.sat and use is not facts:
                last = f'{name}: sat'
                continue
            if r == z3.sat:
                try:
                    sat_model = str(s.model())[:3000]
                except z3.Z3Exception:
                    sat_model = '?'
                return 'refuted', name, sat_model
            last = f'{name}: {s.reason_unknown()}'
        return 'undecided', 'all', last

    def cvc5(self, facts, goal, timeout_s=5):
        import subprocess
        import tempfile
        s = z3.Solver()
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        text = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
            f.write(text)
            f.flush()
            try:
                p = subprocess.run(['cvc5', '--strings-exp', f'--tlimit={int(timeout_s * 1000 * self.scale)}', f.name],
                                   capture_output=True, text=True, timeout=timeout_s * self.scale + 5)
            except subprocess.TimeoutExpired:
                return 'timeout'
            except FileNotFoundError:
                return 'not installed'
        out = p.stdout.strip().splitlines()
        return out[0] if out else (p.stderr.strip()[:200] or 'no answer')

    def contradictory(self, facts, timeout=1500):
        '''Can the solver derive false from the facts? (vacuity guard)'''
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in facts:
            s.add(f)
        return s.check() == z3.unsat
