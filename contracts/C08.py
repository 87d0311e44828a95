'''C08: newest, oldest, n-th, first and unique select the right bead across boxes.'''
from contracts.fsmodel import *
from contracts.C03 import spec_types
from contracts.C07 import cond_types
from pyded import pybuiltins as PB

BX = 'bead.box'
BEAD = 'bead.bead:Bead'
ASSUMPTIONS = [
    'Box.get_beads returns the beads of the box that match (C07, C09), all with a readable freeze time, or raises',
    'sorted() sorts: of the element at position i of n sorted ones at most i are smaller, and more than i are not greater',
    'instants are totally ordered (C11)',
]
NOT_COVERED = ['negative positions', 'which one of the beads with equal times is returned', 'the order of all()']


class W:
    def __init__(w, v):
        w.v, I = v, v.I
        cond_types(v)
        if not hasattr(v, 'BEADREC'):
            v.BEADREC = Rec('Bead', dict(name=STR, kind=STR, content_id=STR, freeze_time_str=STR, box_name=STR, inputs=v.INSPECS), cls=BEAD)
            v.BEADS = ListOf(v.BEADREC)
            v.time_of = z3.Function('time_of', STR.sort, INSTANT.sort)
            v.BOX = Abs('Box', cls=BX + ':Box')
            v.BOXES = ListOf(v.BOX)
            v.found = z3.Function('found', v.BOX.sort, v.BEADS.sort)
            v.broken = z3.Function('broken', v.BOX.sort, BOOL.sort)
            i, n = z3.IntSort(), None
            v.less, v.upto, v.more, v.from_ = (z3.Function(n, v.BEADS.sort, INSTANT.sort, i) for n in ('n_older', 'n_not_newer', 'n_newer', 'n_not_older'))
        I.records[BEAD] = v.BEADREC
        v.stub(BEAD + '.freeze_time', lambda I, f, a, k: INSTANT.wrap(I, v.time_of(v.t(v.getattr(a[0], 'freeze_time_str'), STR))))

    def tm(w, b):
        return w.v.time_of(w.v.BEADREC.f('freeze_time_str', b))

    def cid(w, b):
        return w.v.BEADREC.f('content_id', b)

    def list(w, name='beads'):
        v = w.v
        L = v.const(name, v.BEADS)
        return L, v.t(L, v.BEADS)


def search_of(v, w, unique):
    '''A search of one box or of many'''
    name = v.const('conditions', v.CONDS)
    if v.choose(2, 'kind of search') == 0:
        return v.new(BX + ':BoxSearch', box=v.const('box', v.BOX), conditions=name, _unique_filter=unique)
    return v.new(BX + ':MultiBoxSearch', boxes=v.const('boxes', v.BOXES), conditions=name, _unique_filter=unique)


def matching(v, w):
    '''_get_beads by its contract'''
    L, Lt = w.list('matching')
    v.assume(v.BEADS.n(Lt) >= 0)
    # a list of its own: it can be changed by the caller
    for c in ('BoxSearch', 'MultiBoxSearch'):
        v.stub(f'{BX}:{c}._get_beads', lambda I, f, a, k: I.alloc(HSym(v.BEADS, Lt)))
    return Lt


def sorted_contract(v, w, L):
    def counted(I, o, reverse):
        S = v.t(o, v.BEADS)
        n = v.BEADS.n(S)
        at = lambda i: w.tm(v.BEADS.get(S, i))
        lo, hi = (v.more, v.from_) if reverse else (v.less, v.upto)
        same = v.forall(v.BEADREC, lambda b: v.BEADS.has(S, b) == v.BEADS.has(L, b))
        v.assume(Implies(And(same, n == v.BEADS.n(L)), v.forall(INT, lambda i: Implies(And(0 <= i, i < n), And(lo(L, at(i)) <= i, i < hi(L, at(i)))),
                         patterns=lambda i: [v.BEADS.get(S, i)])))

    def sorted_(I, a, k):
        reverse = k.get('reverse', False)
        if reverse is not True and reverse is not False:
            reverse = I.branch(I.truth(reverse), 'reverse')
            k = dict(k, reverse=reverse)
        if 'key' not in k:
            raise Unsupported('sorted without key')
        o = PB.b_sorted(I, a[0], k['key'], reverse)
        if isinstance(o, Obj) and I.type_of(o) is v.BEADS:
            S = v.t(o, v.BEADS)
            at = v.BEADS.get
            up = v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < v.BEADS.n(S)), w.tm(at(S, i)) <= w.tm(at(S, j))))
            down = v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < v.BEADS.n(S)), w.tm(at(S, i)) >= w.tm(at(S, j))))
            # what is counted is the time: it has to be what was sorted by
            v.check('lemma: sorted by time', down if reverse else up, keep=False)
            counted(I, o, reverse)
        return o
    v.ext('builtins.sorted', sorted_)
    T = INSTANT
    v.assume(v.forall(T, lambda t: And(v.more(L, t) == v.BEADS.n(L) - v.upto(L, t), v.from_(L, t) == v.BEADS.n(L) - v.less(L, t))))


def position_unit(v):
    w = W(v)
    L = matching(v, w)
    s = search_of(v, w, False)
    sorted_contract(v, w, L)
    n = v.const('n', INT)
    k = v.t(n, INT)
    v.assume(k >= 0)
    which = ['newer', 'older'][v.choose(2, 'method')]
    lo, hi = (v.less, v.upto) if which == 'newer' else (v.more, v.from_)
    r = v.attempt(lambda: v.method(s, which, n))
    if not r.ok:
        v.check('not found is a LookupError', v.is_exc(r, LookupError), keep=False)
        v.check('not found exactly if there are not enough beads', k >= v.BEADS.n(L), keep=False)
        return
    b = v.t(r.value, v.BEADREC)
    v.check('there are enough beads', k < v.BEADS.n(L), keep=False)
    v.check('a matching bead', v.BEADS.has(L, b), keep=False)
    v.check('the bead at that position in the order of time', And(lo(L, w.tm(b)) <= k, k < hi(L, w.tm(b))), keep=False)


def extreme_unit(v):
    w = W(v)
    L = matching(v, w)
    s = search_of(v, w, v.branch(v.t(v.const('unique', BOOL), BOOL)))
    which = ['newest', 'oldest', 'all'][v.choose(3, 'method')]

    def inv(L_):
        # the best one so far
        best = L_.roles('best', [which], lambda x: x is None or v.I.type_of(x) is v.BEADREC)[0]
        if best is None:
            return [('nothing was seen', L_.i == 0)]
        t, at = v.t(best, v.BEADREC), L_.view.at
        worse = (lambda x: w.tm(x) <= w.tm(t)) if which == 'newest' else (lambda x: w.tm(x) >= w.tm(t))
        return [
            ('the best is one of them', v.BEADS.has(L, t)),
            ('not worse than those before', v.forall(INT, lambda j: Implies(And(0 <= j, j < L_.i), worse(at(j))), patterns=lambda j: [at(j)])),
            ('not worse than the first', worse(v.BEADS.get(L, 0))),
        ]
    v.loop(BX + ':*', inv, prefer=True)
    r = v.attempt(lambda: v.method(s, which))
    n = v.BEADS.n(L)
    if not r.ok:
        v.check('not found is a LookupError', v.is_exc(r, LookupError), keep=False)
        v.check('not found exactly if nothing matches', And(n == 0, z3.BoolVal(which != 'all')), keep=False)
        return
    if which == 'all':
        v.check('all of them are returned', v.I.eq(r.value, v.I.alloc(HSym(v.BEADS, L))), keep=False)
        return
    if r.value is None:
        v.check('a bead is returned', z3.BoolVal(False), keep=False)
        return
    b = v.t(r.value, v.BEADREC)
    v.check('something matches', n > 0, keep=False)
    v.check('a matching bead', v.BEADS.has(L, b), keep=False)
    better = (lambda x: w.tm(x) > w.tm(b)) if which == 'newest' else (lambda x: w.tm(x) < w.tm(b))
    v.check('no matching bead is better', v.forall(v.BEADREC, lambda x: Implies(v.BEADS.has(L, x), Not(better(x)))), keep=False)


def first_of(v, w, L):
    '''position of the first bead with the content id'''
    F = z3.Function('first_position', v.BEADS.sort, STR.sort, z3.IntSort())
    n, at = v.BEADS.n(L), lambda i: v.BEADS.get(L, i)
    v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < n), And(F(L, w.cid(at(i))) <= i, 0 <= F(L, w.cid(at(i))),
                                                                 w.cid(at(F(L, w.cid(at(i))))) == w.cid(at(i)))), patterns=lambda i: [at(i)]))
    return lambda c: F(L, c)


def unique_spec(v, w, L, first, n, U):
    '''U: the first ones for a content id of the first n of L'''
    at = lambda i: v.BEADS.get(L, i)
    B, S = v.BEADS, v.BEADREC
    return [
        ('the first bead of each content id is kept', v.forall(INT, lambda i: Implies(And(0 <= i, i < n), B.has(U, at(first(w.cid(at(i)))))),
                                                              patterns=lambda i: [at(i)])),
        ('only first ones are kept', v.forall(S, lambda b: Implies(B.has(U, b), And(
            0 <= first(w.cid(b)), first(w.cid(b)) < n, at(first(w.cid(b))) == b)), patterns=lambda b: [B.has(U, b)])),
        ('each once', v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < B.n(U)), w.cid(B.get(U, i)) != w.cid(B.get(U, j))),
                               patterns=lambda i, j: [z3.MultiPattern(B.get(U, i), B.get(U, j))])),
        ('the first bead is kept first', Implies(n > 0, And(B.n(U) > 0, B.get(U, 0) == at(0)))),
    ]


def unique_unit(v):
    w = W(v)
    beads, L = w.list('beads')
    first = first_of(v, w, L)
    B = v.BEADS
    CIDS = SetOf(STR)
    s = v.new(BX + ':BoxSearch', box=v.const('box', v.BOX), conditions=v.const('conditions', v.CONDS), _unique_filter=v.const('unique', BOOL))
    flag = v.t(v.getattr(s, '_unique_filter'), BOOL)

    def inv(L_):
        seen = L_.roles('seen', ['seen_content_ids'], L_.is_container('set'))[0]
        out = L_.roles('out', ['unique_beads'], L_.is_container('list'))[0]
        S, U = v.t(seen, CIDS), v.t(out, B)
        return unique_spec(v, w, L, first, L_.i, U) + [
            ('what was seen', v.forall(INT, lambda i: Implies(And(0 <= i, i < L_.i), CIDS.has(S, w.cid(B.get(L, i)))), patterns=lambda i: [B.get(L, i)])),
            ('only that', v.forall(STR, lambda c: Implies(CIDS.has(S, c), And(0 <= first(c), first(c) < L_.i, w.cid(B.get(L, first(c))) == c)), patterns=lambda c: [CIDS.has(S, c)])),
        ]
    v.loop(BX + ':*', inv)
    r = v.t(v.method(s, '_apply_unique_filter', beads), B)
    if v.branch(flag):
        for label, t in unique_spec(v, w, L, first, B.n(L), r):
            v.check(label, t, keep=False)
    else:
        v.check('without unique all beads are kept', v.I.eq(v.I.alloc(HSym(B, r)), v.I.alloc(HSym(B, L))), keep=False)


def boxes_model(v, w, C, breaks):
    '''Box.get_beads by contract'''
    I = v.I

    def get_beads(I, f, a, k):
        v.check('boxes are searched for the conditions', v.t(a[1], v.CONDS) == C, keep=False)
        b = v.t(a[0], v.BOX)
        if breaks and v.branch(v.broken(b)):
            I.raise_([v.get('bead.exceptions:InvalidArchive'), OSError][v.choose(2, 'error')])
        return I.alloc(HSym(v.BEADS, v.found(b)))
    v.stub(BX + ':Box.get_beads', get_beads)
    v.assume(v.forall(v.BOX, lambda b: v.BEADS.n(v.found(b)) >= 0))
    for a in v.BEADS.wf(I, v.found(z3.Const('abox', v.BOX.sort))):
        v.assume(v.forall(v.BOX, lambda b: z3.substitute(a, (z3.Const('abox', v.BOX.sort), b)), patterns=lambda b: [v.found(b)]))


def filtered(v):
    '''_apply_unique_filter by its contract: an unknown function of the list'''
    Ufn = z3.Function('unique_filtered', v.BEADS.sort, v.BEADS.sort)
    seen = []

    def stub(I, f, a, k):
        t = v.t(a[1], v.BEADS)
        seen.append(t)
        return I.alloc(HSym(v.BEADS, Ufn(t)))
    v.stub(BX + ':BaseSearch._apply_unique_filter', stub)
    return Ufn, seen


def get_beads_unit(v):
    w = W(v)
    B = v.BEADS
    conds = v.const('conditions', v.CONDS)
    C = v.t(conds, v.CONDS)
    boxes_model(v, w, C, False)
    Ufn, seen = filtered(v)
    if v.choose(2, 'kind of search') == 0:
        box = v.const('box', v.BOX)
        s = v.new(BX + ':BoxSearch', box=box, conditions=conds, _unique_filter=v.const('unique', BOOL))
        r = v.t(v.method(s, '_get_beads'), B)
        v.check('the beads of the box are filtered', r == Ufn(v.found(v.t(box, v.BOX))), keep=False)
        return
    boxes = v.const('boxes', v.BOXES)
    X = v.t(boxes, v.BOXES)
    s = v.new(BX + ':MultiBoxSearch', boxes=boxes, conditions=conds, _unique_filter=v.const('unique', BOOL))
    r = v.t(v.method(s, '_get_beads'), B)
    v.check('what is returned went through the filter', z3.BoolVal(len(seen) == 1), keep=False)
    v.check('it is returned', r == Ufn(seen[0]), keep=False)
    v.check('the beads of all the boxes', v.forall([v.BOX, v.BEADREC], lambda x, b: Implies(And(v.BOXES.has(X, x), B.has(v.found(x), b)), B.has(seen[0], b))), keep=False)
    v.check('only beads of the boxes', v.forall(v.BEADREC, lambda b: Implies(B.has(seen[0], b), v.exists(v.BOX, lambda x: And(v.BOXES.has(X, x), B.has(v.found(x), b))))), keep=False)


def first_unit(v):
    w = W(v)
    B = v.BEADS
    conds = v.const('conditions', v.CONDS)
    C = v.t(conds, v.CONDS)
    if v.choose(2, 'kind of search') == 0:
        L = matching(v, w)
        s = v.new(BX + ':BoxSearch', box=v.const('box', v.BOX), conditions=conds, _unique_filter=v.const('unique', BOOL))
        r = v.attempt(lambda: v.method(s, 'first'))
        if r.ok:
            v.check('the first bead of the box', And(B.n(L) > 0, v.t(r.value, v.BEADREC) == B.get(L, 0)), keep=False)
        else:
            v.check('no bead of the box matches', And(v.is_exc(r, LookupError), B.n(L) == 0), keep=False)
        return
    boxes_model(v, w, C, True)
    filtered(v)
    boxes = v.const('boxes', v.BOXES)
    X = v.t(boxes, v.BOXES)
    s = v.new(BX + ':MultiBoxSearch', boxes=boxes, conditions=conds, _unique_filter=v.const('unique', BOOL))
    r = v.attempt(lambda: v.method(s, 'first'))
    usable = lambda x: And(Not(v.broken(x)), B.n(v.found(x)) > 0)
    at, n = lambda i: v.BOXES.get(X, i), v.BOXES.n(X)
    if r.ok:
        b = v.t(r.value, v.BEADREC)
        v.check('the first matching bead of the first box that has one', v.exists(INT, lambda i: And(
            0 <= i, i < n, usable(at(i)), B.get(v.found(at(i)), 0) == b,
            v.forall(INT, lambda j: Implies(And(0 <= j, j < i), Not(usable(at(j))))))), keep=False)
    else:
        v.check('not found is a LookupError', v.is_exc(r, LookupError), keep=False)
        v.check('no box has one', v.forall(INT, lambda i: Implies(And(0 <= i, i < n), Not(usable(at(i)))), patterns=lambda i: [at(i)]), keep=False)


UNITS = [
    Unit('newest, oldest, all', extreme_unit, mode='abstract'),
    Unit('newer and older', position_unit, mode='abstract'),
    Unit('unique filter', unique_unit, mode='abstract'),
    Unit('beads of the boxes', get_beads_unit, mode='abstract'),
    Unit('first', first_unit, mode='abstract'),
]
