'''C15: the cache of open archives.'''
import z3
from pyded.unit import *
from pyded.terms import *
from pyded.values import *

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
M = 'bead.zipopener'
CACHE = M + ':OpenZipLRUCache'

ASSUMPTIONS = [
    'ZipFile(name) gives a new open handle of that file or raises an exception; only close() closes it',
    'the cache is made for at least one archive',
    'archives are known by the name they are opened with (no change of directory or file in between)',
]


class W:
    '''a cache in an arbitrary state'''

    def __init__(w, v):
        w.v = v
        if not hasattr(v, 'ZIP'):
            v.ZIP = Abs('ZipFile', attrs=dict(filename=STR))
        w.ZIP = v.ZIP
        w.OPEN = DictOf(STR, w.ZIP)
        w.TIMES = DictOf(STR, INT)
        w.SET = SetOf(w.ZIP)
        w.closed = v.I.alloc(HSym(w.SET, v.t(v.const('closed', w.SET), w.SET)))
        w.files, w.times = v.const('open_zip_files', w.OPEN), v.const('access_times', w.TIMES)
        w.count, w.size = v.const('access_count', INT), v.const('max_size', INT)
        w.ZIP.methods['close'] = w.close
        v.ext('zipfile.ZipFile', w.new)
        w.cache = v.new(CACHE, max_size=w.size, open_zip_files=w.files, access_times=w.times, access_count=w.count)

    def close(w, I, s, a, k):
        I.mutate(w.closed, 'add', s)
        return None

    def is_closed(w, z):
        return w.SET.has(w.v.t(w.closed, w.SET), z)

    def new(w, I, a, k):
        v = w.v
        if v.choose(2, 'ZipFile') == 1:
            I.raise_(OSError)
        z = v.const('zip', w.ZIP)
        n = v.t(a[0], STR)
        v.assume(w.ZIP.acc('filename')(z.t) == n)
        v.assume(Not(w.is_closed(z.t)))
        return z

    def state(w):
        v = w.v
        g = lambda n: v.getattr(w.cache, n)
        return v.t(g('open_zip_files'), w.OPEN), v.t(g('access_times'), w.TIMES), v.t(g('access_count'), INT), v.t(g('max_size'), INT)

    def inv(w):
        v = w.v
        F, A, c, size = w.state()
        has, hat = lambda n: w.OPEN.has(F, n), lambda n: w.TIMES.has(A, n)
        t = lambda n: w.TIMES.get(A, n)
        z = lambda n: w.OPEN.get(F, n)
        return [
            ('open archives have access times', v.forall(STR, lambda n: has(n) == hat(n), patterns=lambda n: [has(n), hat(n)])),
            ('handles are of the named file and not closed', v.forall(STR, lambda n: Implies(has(n), And(
                w.ZIP.acc('filename')(z(n)) == n, Not(w.is_closed(z(n))))), patterns=lambda n: [has(n), z(n)])),
            ('access times are in the past', v.forall(STR, lambda n: Implies(hat(n), t(n) < c), patterns=lambda n: [hat(n), t(n)])),
            ('access times are different', v.forall([STR, STR], lambda n, m: Implies(And(hat(n), hat(m), n != m), t(n) != t(m)),
                                                    patterns=lambda n, m: [z3.MultiPattern(t(n), t(m))])),
            ('the cache is bounded', And(size >= 1, w.OPEN.n(F) <= size, w.OPEN.n(F) == w.TIMES.n(A))),
        ]

    def assume(w):
        for label, f in w.inv():
            w.v.assume(f)

    def check(w):
        for label, f in w.inv():
            w.v.check(label, f, keep=False)


def open_unit(v):
    w = W(v)
    w.assume()
    F0, A0, c0, size0 = w.state()
    closed0 = v.t(w.closed, w.SET)
    name = v.const('filename', STR)
    o = v.attempt(lambda: v.method(w.cache, 'open', name))
    F, A, c, size = w.state()
    closed = v.t(w.closed, w.SET)
    n = name.t
    has0, has = lambda x: w.OPEN.has(F0, x), lambda x: w.OPEN.has(F, x)
    lru = lambda x: And(has0(x), v.forall(STR, lambda y: Implies(has0(y), w.TIMES.get(A0, x) <= w.TIMES.get(A0, y))))
    w.check()
    full = w.OPEN.n(F0) == size0
    dropped = lambda x: And(has0(x), Not(has(x)))
    if o.ok:
        z = v.t(o.value, w.ZIP)
        v.check('the handle is of the requested file', w.ZIP.acc('filename')(z) == n, keep=False)
        v.check('the handle is not closed', Not(w.is_closed(z)), keep=False)
        v.check('the requested file is in the cache with the handle', And(has(n), w.OPEN.get(F, n) == z), keep=False)
        v.check('it is the most recently requested one', v.forall(STR, lambda x: Implies(
            And(has(x), x != n), w.TIMES.get(A, x) < w.TIMES.get(A, n))), keep=False)
        v.check('requests of others stay as they were', v.forall(STR, lambda x: Implies(
            And(has(x), x != n), And(has0(x), w.TIMES.get(A, x) == w.TIMES.get(A0, x), w.OPEN.get(F, x) == w.OPEN.get(F0, x)))), keep=False)
    else:
        v.check('fails only for a file that was not open', Not(has0(n)), keep=False)
        v.check('the failed one is not in the cache', Not(has(n)), keep=False)
    v.check('nothing is dropped unless room is needed', v.forall(STR, lambda x: Implies(dropped(x), And(full, Not(has0(n))))), keep=False)
    v.check('only the least recently requested one is dropped', v.forall(STR, lambda x: Implies(dropped(x), lru(x))), keep=False)
    v.check('only what is dropped is closed', v.forall(w.ZIP, lambda z: Implies(
        And(w.SET.has(closed, z), Not(w.SET.has(closed0, z))), v.exists(STR, lambda x: And(dropped(x), w.OPEN.get(F0, x) == z)))), keep=False)
    v.check('what is dropped is closed', v.forall(STR, lambda x: Implies(dropped(x), w.SET.has(closed, w.OPEN.get(F0, x)))), keep=False)


def close_all_unit(v):
    w = W(v)
    w.assume()
    F0, A0, c0, size0 = w.state()
    closed0 = v.t(w.closed, w.SET)

    def inv(L):
        F, A, c, size = w.state()
        closed = v.t(w.closed, w.SET)
        has0, has = lambda x: w.OPEN.has(F0, x), lambda x: w.OPEN.has(F, x)
        if L.view is None:      # while there are any
            return w.inv() + [
                ('no new ones', v.forall(STR, lambda x: Implies(has(x), And(has0(x), w.OPEN.get(F, x) == w.OPEN.get(F0, x))), patterns=lambda x: [has(x)])),
                ('what is dropped is closed', v.forall(STR, lambda x: Implies(And(has0(x), Not(has(x))), w.SET.has(closed, w.OPEN.get(F0, x))),
                                                       patterns=lambda x: [has0(x)])),
            ]
        at = L.view.at
        done = lambda x: v.exists(INT, lambda j: And(0 <= j, j < L.i, at(j) == x))
        return w.inv() + [
            ('what was done is dropped', v.forall(INT, lambda j: Implies(And(0 <= j, j < L.n), has(at(j)) == (j >= L.i)), patterns=lambda j: [at(j)])),
            ('no new ones', v.forall(STR, lambda x: Implies(has(x), And(has0(x), w.OPEN.get(F, x) == w.OPEN.get(F0, x))), patterns=lambda x: [has(x)])),
            ('what was done is closed', v.forall(INT, lambda j: Implies(And(0 <= j, j < L.i), w.SET.has(closed, w.OPEN.get(F0, at(j)))),
                                                 patterns=lambda j: [at(j)])),
        ]
    v.loop(M + ':*', inv)
    o = v.attempt(lambda: v.method(w.cache, 'close_all'))
    v.check('no error', z3.BoolVal(o.ok))
    F, A, c, size = w.state()
    v.check('no archive is in the cache', v.forall(STR, lambda x: Not(w.OPEN.has(F, x))), keep=False)
    v.check('all archives are closed', v.forall(STR, lambda x: Implies(w.OPEN.has(F0, x), w.is_closed(w.OPEN.get(F0, x)))), keep=False)
    w.check()


def new_unit(v):
    size = v.const('max_size', INT)
    c = v.call(CACHE, size)
    v.check('the size is as asked', v.t(v.getattr(c, 'max_size'), INT) == size.t)
    v.check('it is empty', z3.BoolVal(v.items(v.getattr(c, 'open_zip_files')) in ((), []) and v.items(v.getattr(c, 'access_times')) in ((), [])))


UNITS = [
    Unit('OpenZipLRUCache', new_unit, mode='abstract'),
    Unit('open', open_unit, mode='abstract'),
    Unit('close_all', close_all_unit, mode='abstract'),
]
