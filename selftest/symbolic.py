'''Contracts of the sample functions that hold are proved, others are not.'''
import sys
import os
import z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyded import interp
from pyded.unit import *
from pyded.terms import *
from pyded.values import *
here = os.path.dirname(os.path.abspath(__file__))
interp.REPO_TOP = interp.REPO_TOP + ('sample',)
LI = ListOf(INT)
units = []


def unit(expect, mode='theory'):
    def d(f):
        units.append((expect, Unit(f.__name__, f, mode=mode, budget=60)))
        return f
    return d


def mk(v, ty, name='xs'):
    o = v.const(name, ty)
    return o, v.t(o, ty)


@unit('proved')
def filter_ok(v):
    xs, t = mk(v, LI)
    lim = v.const('lim', INT)
    r = v.t(v.call('sample:s_filter', xs, lim), LI)
    v.check('only', v.forall(INT, lambda x: z3.Implies(LI.has(r, x), z3.And(LI.has(t, x), x > lim.t))))
    v.check('all', v.forall(INT, lambda x: z3.Implies(z3.And(LI.has(t, x), x > lim.t), LI.has(r, x))))


@unit('failed')
def filter_bad(v):
    xs, t = mk(v, LI)
    lim = v.const('lim', INT)
    r = v.t(v.call('sample:s_filter', xs, lim), LI)
    v.check('all', v.forall(INT, lambda x: z3.Implies(z3.And(LI.has(t, x), x >= lim.t), LI.has(r, x))))


@unit('proved')
def map_ok(v):
    xs, t = mk(v, LI)
    r = v.t(v.call('sample:s_map', xs), LI)
    v.check('n', LI.n(r) == LI.n(t))
    v.check('at', v.forall(INT, lambda i: z3.Implies(z3.And(0 <= i, i < LI.n(t)), LI.get(r, i) == LI.get(t, i) + 1)))


@unit('failed')
def map_bad(v):
    xs, t = mk(v, LI)
    r = v.t(v.call('sample:s_map', xs), LI)
    v.check('at', v.forall(INT, lambda i: z3.Implies(z3.And(0 <= i, i < LI.n(t)), LI.get(r, i) == LI.get(t, i) + 2)))


@unit('proved')
def find_ok(v):
    xs, t = mk(v, LI)
    y = v.const('y', INT)
    r = v.call('sample:s_find', xs, y)
    v.check('iff', v.truth(r) == LI.has(t, y.t))


@unit('proved')
def all_ok(v):
    xs, t = mk(v, LI)
    y = v.const('y', INT)
    r = v.call('sample:s_all', xs, y)
    v.check('iff', v.truth(r) == v.forall(INT, lambda x: z3.Implies(LI.has(t, x), x < y.t)))


@unit('failed')
def all_bad(v):
    xs, t = mk(v, LI)
    y = v.const('y', INT)
    r = v.call('sample:s_all', xs, y)
    v.check('iff', v.truth(r) == v.forall(INT, lambda x: z3.Implies(LI.has(t, x), x <= y.t)))


@unit('proved')
def set_ok(v):
    xs, t = mk(v, LI)
    ys, u = mk(v, SetOf(INT), 'ys')
    S = SetOf(INT)
    r = v.t(v.call('sample:s_set', xs, ys), S)
    v.check('iff', v.forall(INT, lambda x: S.has(r, x) == z3.Or(S.has(u, x), LI.has(t, x))))


@unit('proved')
def dict_ok(v):
    P = TupOf(INT, STR)
    L = ListOf(P)
    xs, t = mk(v, L)
    D = DictOf(INT, STR)
    r = v.t(v.call('sample:s_dict', xs), D)
    v.check('dom', v.forall(INT, lambda k: D.has(r, k) == z3.Exists([z3.Int('i')], z3.And(
        0 <= z3.Int('i'), z3.Int('i') < L.n(t), P.item(0, L.get(t, z3.Int('i'))) == k))))
    v.check('last', z3.Implies(L.n(t) > 0, D.get(r, P.item(0, L.get(t, L.n(t) - 1))) == P.item(1, L.get(t, L.n(t) - 1))))


@unit('failed')
def dict_bad(v):
    P = TupOf(INT, STR)
    L = ListOf(P)
    xs, t = mk(v, L)
    D = DictOf(INT, STR)
    r = v.t(v.call('sample:s_dict', xs), D)
    v.check('first', z3.Implies(L.n(t) > 0, D.get(r, P.item(0, L.get(t, 0))) == P.item(1, L.get(t, 0))))


@unit('proved')
def group_ok(v):
    P = TupOf(INT, STR)
    L = ListOf(P)
    xs, t = mk(v, L)
    LS = ListOf(STR)
    D = DictOf(INT, LS)
    r = v.t(v.call('sample:s_group', xs), D)
    v.check('in', v.forall([INT, STR], lambda k, s: LS.has(D.get(r, k), s) == L.has(t, P.mk(k, s))))


@unit('proved')
def flat_ok(v):
    LL = ListOf(LI)
    xs, t = mk(v, LL)
    r = v.t(v.call('sample:s_flat', xs), LI)
    i = z3.Int('i')
    v.check('to', v.forall([INT, INT], lambda i, x: z3.Implies(
        z3.And(0 <= i, i < LL.n(t), LI.has(LL.get(t, i), x)), LI.has(r, x))))
    v.check('from', v.forall([INT], lambda x: z3.Implies(LI.has(r, x), z3.Exists([i], z3.And(
        0 <= i, i < LL.n(t), LI.has(LL.get(t, i), x))))))


@unit('proved')
def gen_ok(v):
    xs, t = mk(v, LI)
    o = v.attempt('sample:s_gen_use', xs)
    if o.ok:
        v.check('in', z3.And(LI.has(t, v.t(o.value)), v.t(o.value) > 10))
    else:
        v.check('exc', o.exc_name == 'KeyError')
        v.check('none', v.forall(INT, lambda x: z3.Implies(LI.has(t, x), x <= 10)))


@unit('proved')
def max_ok(v):
    xs, t = mk(v, LI)
    v.assume(LI.n(t) > 0)
    r = v.call('sample:s_max', xs)
    v.check('min', v.forall(INT, lambda x: z3.Implies(LI.has(t, x), x >= r.t)))
    v.check('in', LI.has(t, r.t))


@unit('proved')
def sorted_ok(v):
    xs, t = mk(v, LI)
    v.assume(LI.n(t) > 0)
    r = v.t(v.call('sample:s_sorted', xs), LI)
    v.check('one', LI.n(r) == 1)
    v.check('max', v.forall(INT, lambda x: z3.Implies(LI.has(t, x), x <= LI.get(r, 0))))


@unit('proved')
def last_ok(v):
    xs, t = mk(v, LI)
    r = v.t(v.call('sample:s_last', xs), INT)
    v.check('last', z3.Implies(z3.And(LI.n(t) > 0, LI.get(t, LI.n(t) - 1) > 5), r == LI.get(t, LI.n(t) - 1)))
    v.check('in', z3.Or(r == 0, LI.has(t, r)))


@unit('failed')
def last_bad(v):
    xs, t = mk(v, LI)
    r = v.t(v.call('sample:s_last', xs), INT)
    v.check('last', z3.Implies(z3.And(LI.n(t) > 0, LI.get(t, 0) > 5), r == LI.get(t, 0)))


@unit('proved')
def uniq_ok(v):
    xs, t = mk(v, LI)
    S = SetOf(INT)

    def inv(L):
        seen, out = v.t(L.var('seen'), S), v.t(L.var('out'), LI)
        i = z3.Int('ui')
        j = z3.Int('uj')
        x = z3.Int('ux')
        return [('seen', z3.ForAll([x], S.has(seen, x) == z3.Exists([i], z3.And(0 <= i, i < L.i, LI.get(t, i) == x)))),
                ('out', z3.ForAll([x], LI.has(out, x) == S.has(seen, x))),
                ('distinct', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LI.n(out)),
                                                         LI.get(out, i) != LI.get(out, j))))]
    v.loop('sample:s_uniq', inv, types={'seen': S, 'out': LI})
    r = v.t(v.call('sample:s_uniq', xs), LI)
    i, j = z3.Ints('i j')
    v.check('mem', v.forall(INT, lambda x: LI.has(r, x) == LI.has(t, x)))
    v.check('distinct', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < LI.n(r)), LI.get(r, i) != LI.get(r, j))))


@unit('proved')
def sum_ok(v):
    n = v.const('n', INT)
    v.assume(n.t >= 0)

    def inv(L):
        i, s = v.t(L.var('i'), INT), v.t(L.var('s'), INT)
        return [('bounds', z3.And(0 <= i, i <= n.t)), ('sum', 2 * s == i * (i + 1))]
    v.loop('sample:s_sum', inv)
    r = v.t(v.call('sample:s_sum', n))
    v.check('gauss', 2 * r == n.t * (n.t + 1))


@unit('failed')
def sum_bad(v):
    n = v.const('n', INT)
    v.assume(n.t >= 0)

    def inv(L):
        i, s = v.t(L.var('i'), INT), v.t(L.var('s'), INT)
        return [('bounds', z3.And(0 <= i, i <= n.t)), ('sum', 2 * s == i * (i - 1))]
    v.loop('sample:s_sum', inv)
    r = v.t(v.call('sample:s_sum', n))
    v.check('gauss', 2 * r == n.t * (n.t - 1))


def main():
    bad = 0
    only = sys.argv[1:]
    for expect, u in units:
        if only and u.name not in only:
            continue
        r = run_unit(u, here)
        ok = r.status == expect
        bad += not ok
        print('ok  ' if ok else 'BAD ', u.name, r.status, f'{r.time:.1f}s', r.reason[-900:] if not ok else '')
        if not ok or only:
            for l, o in r.obligations.items():
                print('     ', l, o['count'], o['proved'], o['backends'], o['time'], [f[:3] for f in o['failures']])
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
