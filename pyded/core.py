'''
Path exploration, state, obligations.

A path is one run of a python callable (interpreting repo code); decisions are
taken by an oracle and the other alternatives are run later, from the same
state. Everything mutable lives in ctx.heap / ctx.pc, so that it can be
snapshot.
'''
import time
import z3

from .terms import Unsupported, World


class PathEnd(Exception):
    '''The path is infeasible or finished on purpose.'''


class Signal(Exception):
    pass


class PyRaise(Signal):
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Signal):
    def __init__(self, value):
        self.value = value


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class ConsumerSig(Signal):
    '''A signal of the consumer of a generator, passing through the generator.'''
    def __init__(self, token, inner):
        self.token = token
        self.inner = inner


class NotSummarizable(Exception):
    pass


class Oracle:
    def __init__(self, prefix, memo, worklist):
        self.prefix = prefix
        self.taken = []
        self.memo = memo
        self.worklist = worklist
        self.nested = 0

    @property
    def replaying(self):
        return len(self.taken) < len(self.prefix)


class Path:
    '''Result of one explored path.'''
    def __init__(self, state, pc, outcome, value, extra):
        self.state = state
        self.pc = pc            # facts added on the path
        self.outcome = outcome  # 'ok' or a Signal
        self.value = value
        self.extra = extra


class FailFast(Exception):
    '''One obligation failed, that is enough.'''


class Obligation:
    def __init__(self, label):
        self.label = label
        self.count = 0
        self.proved = 0
        self.failures = []      # (status, text)
        self.backends = {}
        self.time = 0.0


def has_quantifier(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


class Ctx:
    MAX_PATHS = 4000

    def __init__(self, prover, budget_s=300):
        self.prover = prover
        self.heap = {}
        self.pc = []
        self.lemmas = []
        self.static = {}        # initial content of objects made by module level code
        self.nid = 1000
        self.nfresh = 0
        self.fresh_log = []     # (index, const or function)
        self.oracle = None
        self.loops = []         # loop frames (summarization, recording)
        self.obligations = {}
        self.npaths = 0
        self.npaths_ended = 0
        self.nfeas = 0
        self.deadline = time.monotonic() + budget_s
        self.axioms = []
        self.qcache = {}
        self.trace = []
        self.checks_enabled = True
        self.fail_fast = False

    # ---------------------------------------------------------- state
    def snapshot(self):
        return (dict(self.heap), list(self.pc), self.nid, self.nfresh, len(self.fresh_log), list(self.fresh_log),
                [f.snapshot() for f in self.loops], list(self.trace))

    def restore(self, s):
        self.heap = dict(s[0])
        self.pc = list(s[1])
        self.nid = s[2]
        self.nfresh = s[3]
        self.fresh_log = list(s[5])
        for f, fs in zip(self.loops, s[6]):
            f.restore(fs)
        self.trace = list(s[7])

    def fresh(self, name, sort):
        self.nfresh += 1
        c = z3.Const(f'{name}!{self.nfresh}', sort)
        self.fresh_log.append((self.nfresh, c))
        return c

    def fresh_fun(self, name, *sorts):
        self.nfresh += 1
        f = z3.Function(f'{name}!{self.nfresh}', *sorts)
        self.fresh_log.append((self.nfresh, f))
        return f

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathEnd
            return
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd
        self.pc.append(t)

    # ---------------------------------------------------------- decisions
    def isquant(self, t):
        i = t.get_id()
        if i not in self.qcache:
            self.qcache[i] = (has_quantifier(t), t)
        return self.qcache[i][0]

    def feasible(self, *extra):
        self.nfeas += 1
        if time.monotonic() > self.deadline:
            raise Unsupported('time budget of the unit is used up')
        s = z3.Solver()
        s.set('timeout', 400)
        for a in World.axioms() + self.pc + list(extra):
            if not self.isquant(a):
                s.add(a)
        return s.check() != z3.unsat

    def choose(self, n, label='', feas=None):
        '''Pick one of n alternatives; the others are explored on other paths.'''
        o = self.oracle
        pos = len(o.taken)
        if pos < len(o.prefix):
            c = o.prefix[pos]
            o.taken.append(c)
        else:
            alts = list(range(n)) if feas is None else [i for i in range(n) if feas(i)]
            if not alts:
                raise PathEnd
            c = alts[0]
            for a in reversed(alts[1:]):
                o.worklist.append(o.taken + [a])
            o.taken.append(c)
        if label:
            self.trace.append((label, c))
        return c

    def branch(self, t, label=''):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        nt = z3.Not(t)
        c = self.choose(2, label or str(t)[:50], lambda i: self.feasible(t if i == 0 else nt))
        self.assume(t if c == 0 else nt)
        return c == 0

    # ---------------------------------------------------------- exploration
    def explore(self, fn, signals=True):
        '''
        Run fn on all of its paths from the current state; returns the paths.
        The state afterwards is as before (except for the fresh counter).
        '''
        outer = self.oracle
        key = None
        if outer is not None:
            key = (tuple(outer.taken), outer.nested)
            outer.nested += 1
            if key in outer.memo:
                paths, nid, nfresh, flog = outer.memo[key]
                self.nid, self.nfresh = nid, nfresh
                self.fresh_log = list(flog)
                return paths
        base = self.snapshot()
        nbase = len(self.pc)
        paths = []
        worklist = [[]]
        memo = {}
        maxid, maxfresh = self.nid, self.nfresh
        logs = {}
        try:
            while worklist:
                prefix = worklist.pop()
                self.restore(base)
                self.oracle = Oracle(prefix, memo, worklist)
                self.npaths += 1
                if self.npaths > self.MAX_PATHS:
                    raise Unsupported('too many paths')
                outcome, value, extra = 'ok', None, None
                try:
                    value = fn()
                except PathEnd:
                    outcome = 'end'
                    self.npaths_ended += 1
                except Signal as s:
                    if not signals:
                        raise
                    outcome = s
                maxid, maxfresh = max(maxid, self.nid), max(maxfresh, self.nfresh)
                for k, c in self.fresh_log:
                    logs[(k, str(c))] = (k, c)
                if outcome != 'end':
                    paths.append(Path(self.snapshot(), self.pc[nbase:], outcome, value,
                                      [f.snapshot() for f in self.loops]))
        finally:
            self.oracle = outer
            self.restore(base)
        self.nid, self.nfresh = maxid, maxfresh
        self.fresh_log = [logs[k] for k in sorted(logs)]
        if outer is not None:
            outer.memo[key] = (paths, maxid, maxfresh, list(self.fresh_log))
        return paths

    # ---------------------------------------------------------- obligations
    def check(self, label, goal, keep=True, using=None):
        '''Obligation: goal holds here (and may be used later on, with keep).'''
        if not self.checks_enabled:
            return
        if self.oracle is not None and self.oracle.replaying:
            if keep:
                self.assume_goal(goal)
            else:
                self.lemmas.append(goal)
            return
        ob = self.obligations.setdefault(label, Obligation(label))
        ob.count += 1
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if time.monotonic() > self.deadline:
            ob.failures.append(('undecided', 'time budget of the unit is used up', list(self.trace), None))
            return
        t0 = time.monotonic()
        status = 'undecided'
        if using is not None:
            # from a few facts only: each one is known or has been an obligation
            known = {f.get_id() for f in self.pc} | {f.get_id() for f in self.lemmas}
            assert all(f.get_id() in known for f in using), 'unknown fact'
            status, backend, info = self.prover.prove(World.axioms() + self.axioms + list(using), goal, short=True)
        if status != 'proved':
            status, backend, info = self.prover.prove(World.axioms() + self.axioms + self.pc, goal)
        ob.time += time.monotonic() - t0
        if status == 'proved':
            ob.proved += 1
            ob.backends[backend] = ob.backends.get(backend, 0) + 1
        else:
            ob.failures.append((status, info, list(self.trace), goal))
            if self.fail_fast:
                raise FailFast
        if keep:
            self.assume_goal(goal)
        else:
            self.lemmas.append(goal)

    def provable(self, goal):
        status, _, _ = self.prover.prove(World.axioms() + self.axioms + self.pc, goal, short=True)
        return status == 'proved'

    def hint(self, goal):
        '''Use goal from here on, if it can be proved easily. No obligation.'''
        ok = self.provable(goal)
        if ok:
            self.assume_goal(goal)
        return ok

    def assume_goal(self, goal):
        # proved (or reported) - may be used later on the path
        if isinstance(goal, bool):
            if not goal:
                raise PathEnd
            return
        if z3.is_false(z3.simplify(goal)):
            raise PathEnd
        self.pc.append(goal)
