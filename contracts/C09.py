'''C09: an indexed box answers queries exactly like a plain box.'''
from contracts.fsmodel import *
from contracts.C03 import spec_types
from contracts.sqlmodel import Sql

BI = 'bead.box_index'
IX = BI + ':BoxIndex'
BEAD = 'bead.bead:Bead'
ASSUMPTIONS = [
    'sqlite: SELECT gives the rows that satisfy the WHERE clause, each as often as the table has it; texts are compared for equality by their characters, integers as numbers (contracts/sqlmodel.py)',
    'the rows of the index are those of the valid archives of the box, with freeze_time_unix made by timestamp_to_unix_utc_microseconds (C10)',
    'the values of conditions are texts for names, kinds and content ids, and aware datetimes for times (C07)',
    'time_from_timestamp gives the instant of a freeze time (C11)',
    'an opened database is not changed by others during the query',
]
NOT_COVERED = ['the order of the returned beads', 'a bead stored twice in a box is found once, not twice', 'databases that can not be opened (BoxIndexError)']


class W(Paths):
    def __init__(w, v, **kw):
        super().__init__(v)
        I = v.I
        spec_types(v)
        w.q = Sql(v, **kw)
        w.ROW, w.IROW = w.q.row('beads'), w.q.row('inputs')
        if not hasattr(v, 'c09'):
            v.c09 = True
            v.TAG = I.enum_ty(v.get('bead.box_query:QueryCondition'))
            v.COND = TupOf(v.TAG, v.VALUE)
            v.CONDS = ListOf(v.COND)
            v.BEADREC = Rec('Bead', dict(name=STR, kind=STR, content_id=STR, freeze_time_str=STR, box_name=STR, inputs=v.INSPECS), cls=BEAD)
            v.BEADS = ListOf(v.BEADREC)
        I.records[BEAD] = v.BEADREC
        w.us = z3.Function('microseconds', v.VALUE.sort, z3.IntSort())
        w.matches = z3.Function('matches', v.CONDS.sort, w.ROW.sort, z3.BoolSort())
        w.spec_inputs = z3.Function('inputs_of', w.q.tables['inputs'][2].sort, STR.sort, STR.sort, v.INSPECS.sort)

    def holds(w, c, r):
        '''the documented meaning of a condition, for a row that describes a bead'''
        v, f = w.v, w.ROW.f
        tag, x = v.COND.item(0, c), v.COND.item(1, c)
        T = lambda n: tag == v.t(v.getattr(v.get('bead.box_query:QueryCondition'), n), v.TAG)
        at = f('freeze_time_unix', r)
        return And(Implies(T('BEAD_NAME'), v.of_text(f('name', r)) == x),
                   Implies(T('KIND'), v.of_text(f('kind', r)) == x),
                   Implies(T('CONTENT_ID'), v.of_text(f('content_id', r)) == x),
                   Implies(T('AT_TIME'), at == w.us(x)),
                   Implies(T('NEWER_THAN'), at > w.us(x)),
                   Implies(T('OLDER_THAN'), at < w.us(x)),
                   Implies(T('AT_OR_NEWER'), at >= w.us(x)),
                   Implies(T('AT_OR_OLDER'), at <= w.us(x)))

    def bead(w, r, box):
        '''what is found for a row'''
        v, f = w.v, w.ROW.f
        b = w.q.bag('inputs')
        vals = dict(name=f('name', r), kind=f('kind', r), content_id=f('content_id', r), freeze_time_str=f('freeze_time_str', r), box_name=box,
                    inputs=w.spec_inputs(b, f('name', r), f('content_id', r)))
        return v.BEADREC.mk(*[vals[n] for n in v.BEADREC.fields])


def conditions_of(v, w):
    conds = v.const('conditions', v.CONDS)
    return conds, v.t(conds, v.CONDS)


def where_unit(v):
    w = W(v)
    I = v.I
    conds, C = conditions_of(v, w)
    v.stub(BI + ':timestamp_to_unix_utc_microseconds', lambda I, f, a, k: v.VALUE.wrap(I, v.of_int(w.us(v.t(a[0], v.VALUE)))))
    w.q.clauses(w.ROW)
    sat = w.q.sat(w.ROW)
    r = v.const('row', w.ROW)
    r = v.t(r, w.ROW)
    out = v.call(BI + ':build_where_clause', conds)
    parts, params = v.items(out)
    P, X = v.t(parts, v.PARTS), v.t(params, v.VALUES)
    at, val = (lambda i: v.PARTS.get(P, i)), (lambda i: v.VALUES.get(X, i))
    v.check('every condition has its parameter', And(v.PARTS.n(P) == v.VALUES.n(X), v.PARTS.n(P) == v.CONDS.n(C)), keep=False)
    v.check('no part of it is empty', v.forall(INT, lambda i: Implies(And(0 <= i, i < v.PARTS.n(P)), at(i) != v.t('', STR))), keep=False)
    v.check('the WHERE clause is satisfied exactly if every condition is',
            v.forall(INT, lambda i: Implies(And(0 <= i, i < v.CONDS.n(C)), sat(at(i), val(i), r) == w.holds(v.CONDS.get(C, i), r))), keep=False)


def query_unit(v):
    w = W(v)
    I, q = v.I, w.q
    conds, C = conditions_of(v, w)

    def where(I, f, a, k):
        # contract: all are satisfied exactly if the conditions are (the unit above)
        parts, params = v.const('where_parts', v.PARTS), v.const('parameters', v.VALUES)
        P, X = v.t(parts, v.PARTS), v.t(params, v.VALUES)
        v.check('lemma: for the conditions of the query', v.I.eq(a[0], conds), keep=False)
        v.assume(And(v.PARTS.n(P) == v.VALUES.n(X), v.PARTS.n(P) == v.CONDS.n(C)))
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < v.PARTS.n(P)), v.PARTS.get(P, i) != v.t('', STR)), patterns=lambda i: [v.PARTS.get(P, i)]))
        v.assume(v.forall(w.ROW, lambda r: q.all_sat(P, X, r) == w.matches(C, r), patterns=lambda r: [q.all_sat(P, X, r)]))
        v.assume(v.forall(w.ROW, lambda r: Implies(v.CONDS.n(C) == 0, w.matches(C, r)), patterns=lambda r: [w.matches(C, r)]))
        return (parts, params)
    v.stub(BI + ':build_where_clause', where)
    v.stub(BI + ':load_bead_inputs', lambda I, f, a, k: v.INSPECS.wrap(I, w.spec_inputs(q.bag('inputs', a[0]), v.t(a[1], STR), v.t(a[2], STR))))
    conn = q.connect(I, [], {})
    box = v.const('box_name', STR)
    bags = q.snapshot()
    r = v.call(BI + ':query_beads', conn, conds, box)
    R = v.t(r, v.BEADS)
    hit = lambda x: And(q.count('beads', x) > 0, w.matches(C, x))
    b = lambda x: w.bead(x, v.t(box, STR))
    v.check('every bead that satisfies the conditions is found, as it is indexed', v.forall(w.ROW, lambda x: Implies(hit(x), v.BEADS.has(R, b(x)))), keep=False)
    v.check('only those are found', v.forall(INT, lambda i: Implies(And(0 <= i, i < v.BEADS.n(R)), v.exists(w.ROW, lambda x: And(hit(x), v.BEADS.get(R, i) == b(x))))), keep=False)
    if hasattr(q, 'selected'):
        s = q.selected
        v.check('each is found once', v.BEADS.n(R) == s['L'].n(s['t']), keep=False)
    v.check('the index is as before', And(*[q.bag(n) == x for n, x in bags.items()]), keep=False)


def inputs_unit(v):
    w = W(v)
    I, q = v.I, w.q
    conn = q.connect(I, [], {})
    name, cid = v.const('name', STR), v.const('content_id', STR)
    wellformed = z3.Function('wellformed', STR.sort, z3.BoolSort())
    for n in ('BeadName', 'InputName'):
        v.stub(f'bead.meta:{n}.is_wellformed', lambda I, f, a, k: BOOL.wrap(I, wellformed(v.t(a[-1], STR))))
    # they were the names of inputs when they were indexed
    v.assume(v.forall(w.IROW, lambda x: Implies(q.count('inputs', x) > 0, wellformed(w.IROW.f('input_name', x))), patterns=lambda x: [q.count('inputs', x)]))
    r = v.call(BI + ':load_bead_inputs', conn, name, cid)
    R = v.t(r, v.INSPECS)
    f = v.INSPEC.f
    row = lambda s: w.IROW.mk(*[dict(bead_name=v.t(name, STR), bead_content_id=v.t(cid, STR), input_name=f('name', s), input_kind=f('kind', s),
                                     input_content_id=f('content_id', s), input_freeze_time_str=f('freeze_time_str', s))[c] for c in w.IROW.fields])
    v.check('every recorded input of the bead is read', v.forall(v.INSPEC, lambda s: Implies(q.count('inputs', row(s)) > 0, v.INSPECS.has(R, s))), keep=False)
    v.check('only those are read', v.forall(INT, lambda i: Implies(And(0 <= i, i < v.INSPECS.n(R)), q.count('inputs', row(v.INSPECS.get(R, i))) > 0)), keep=False)
    s = q.selected
    v.check('each is read once', v.INSPECS.n(R) == s['L'].n(s['t']), keep=False)


def lookup_unit(v):
    w = W(v)
    I, q = v.I, w.q
    d = v.const('directory', v.PATH)
    o = v.new(IX, box_directory=d, index_path=v.const('index', v.PATH))
    v.stub(BI + ':create_query_connection', lambda I, f, a, k: I.call(v.get('contextlib:closing') if False else v.get(BI + ':closing'), [q.connect(I, [], {})], {}))
    name, cid = v.const('name', STR), v.const('content_id', STR)
    r = v.attempt(lambda: v.method(o, 'get_file_path', name, cid))
    f = w.ROW.f
    is_it = lambda x: And(q.count('beads', x) > 0, f('name', x) == v.t(name, STR), f('content_id', x) == v.t(cid, STR))
    if not r.ok:
        v.check('not found is a LookupError', v.is_exc(r, LookupError), keep=False)
        v.check('not found only if it is not indexed', v.forall(w.ROW, lambda x: Not(is_it(x))), keep=False)
        return
    v.check('the file is that of the bead', v.exists(w.ROW, lambda x: And(is_it(x), w.t(r.value) == w.join(v.t(d, v.PATH), f('file_path', x)))), keep=False)


def get_beads_unit(v):
    w = W(v)
    I, q = v.I, w.q
    o = v.new(IX, box_directory=v.const('directory', v.PATH), index_path=v.const('index', v.PATH))
    conds, C = conditions_of(v, w)
    box = v.const('box_name', STR)
    fails = v.const('fails', BOOL)
    found = v.const('found', v.BEADS)
    connected = []

    def connect(I, f, a, k):
        v.check('the index is opened', v.I.eq(a[0], v.getattr(o, 'index_path')), keep=False)
        if I.branch(fails.t, 'fails'):
            I.raise_(OSError)
        connected.append(q.connect(I, [], {}))
        return I.call(v.get(BI + ':closing'), connected[-1:], {})
    v.stub(BI + ':create_query_connection', connect)

    def query(I, f, a, k):
        v.check('for the given conditions and box', And(v.t(v.I.eq(a[1], conds), BOOL), v.t(a[2], STR) == v.t(box, STR)), keep=False)
        return found
    v.stub(BI + ':query_beads', query)
    r = v.attempt(lambda: v.method(o, 'get_beads', conds, box))
    if not r.ok:
        v.check('a failure is a BoxIndexError', v.is_exc(r, 'bead.exceptions:BoxIndexError'), keep=False)
        v.check('only when the index can not be read', fails.t, keep=False)
        return
    v.check('what the query finds is returned', v.t(r.value, v.BEADS) == v.t(found, v.BEADS), keep=False)


class Times:
    '''aware datetimes by their instant in microseconds'''
    def __init__(w, v):
        w.v = v
        if not hasattr(v, 'DT'):
            v.DT, v.TD = Rec('datetime', dict(us=INT)), Rec('timedelta', dict(us=INT))
            v.seconds = z3.Function('as_float', z3.IntSort(), z3.RealSort())
            v.zcls = ExtClass('zone', {})
        DT, TD = v.DT, v.TD

        def as_float(I, a, k):
            raise Unsupported('times as floating point numbers')
        part = lambda d, m=None: lambda I, s: INT.wrap(I, TD.f('us', v.t(s, TD)) / d if m is None else TD.f('us', v.t(s, TD)) / d % m)
        TD.attrs.update(days=part(86400 * 10 ** 6), seconds=part(10 ** 6, 86400), microseconds=part(1, 10 ** 6),
                        total_seconds=lambda I, s: ExtFn('total_seconds', as_float))
        DT.attrs['timestamp'] = lambda I, s: ExtFn('timestamp', as_float)
        v.ext('datetime.timezone.utc', v.I.alloc(HInst(v.zcls, {})))
        US = dict(days=86400 * 10 ** 6, seconds=10 ** 6, microseconds=1, milliseconds=1000, minutes=60 * 10 ** 6, hours=3600 * 10 ** 6, weeks=7 * 86400 * 10 ** 6)

        def timedelta(I, a, k):
            us = z3.IntVal(0)
            for n, x in dict(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a), **k).items():
                us = us + v.t(x, INT) * US[n]
            return TD.wrap(I, TD.mk(z3.simplify(us)))
        v.ext('datetime.timedelta', timedelta)

        def datetime(I, a, k):
            if not all(isinstance(x, int) for x in a) or 'tzinfo' not in k:
                raise Unsupported('datetime')
            import datetime as D
            t = D.datetime(*a, tzinfo=D.timezone.utc) - D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)
            return DT.wrap(I, DT.mk(z3.IntVal(t // D.timedelta(microseconds=1))))
        v.ext('datetime.datetime', datetime)
        v.ext('datetime.-', lambda I, a, k: TD.wrap(I, TD.mk(DT.f('us', v.t(a[0], DT)) - DT.f('us', v.t(a[1], DT)))))
        v.ext('timedelta.//', lambda I, a, k: w.floor(a))

    def floor(w, a):
        v = w.v
        x, y = v.t(a[0], v.TD), v.t(a[1], v.TD)
        u = z3.simplify(v.TD.f('us', y))
        if not z3.is_int_value(u) or u.as_long() <= 0:
            raise Unsupported('division of times')
        return INT.wrap(v.I, v.TD.f('us', x) / u)


def time_unit(v):
    w = Times(v)
    DT = v.DT
    instant = z3.Function('instant_of', STR.sort, DT.sort)
    v.stub('bead.tech.timestamp:time_from_timestamp', lambda I, f, a, k: DT.wrap(I, instant(v.t(a[0], STR))))
    x, y, s = v.const('x', DT), v.const('y', DT), v.const('freeze_time', STR)
    call = lambda a: v.t(v.call(BI + ':' + 'timestamp_to_unix_utc_microseconds', a), INT)
    rx, ry, rs = call(x), call(y), call(s)
    ux, uy = (DT.f('us', v.t(a, DT)) for a in (x, y))
    v.check('later instants have greater numbers', (rx < ry) == (ux < uy), keep=False)
    v.check('the number of a freeze time is that of its instant', Implies(instant(v.t(s, STR)) == v.t(x, DT), rs == rx), keep=False)
    if v.has(BI + ':normalize_timestamp_value'):
        v.check('conditions use the same numbers', v.t(v.call(BI + ':normalize_timestamp_value', x), INT) == rx, keep=False)


UNITS = [
    Unit('timestamp_to_unix_utc_microseconds', time_unit, mode='abstract'),
    Unit('build_where_clause', where_unit, mode='abstract'),
    Unit('query_beads', query_unit, mode='abstract'),
    Unit('load_bead_inputs', inputs_unit, mode='abstract'),
    Unit('get_file_path', lookup_unit, mode='abstract'),
    Unit('get_beads', get_beads_unit, mode='abstract'),
]


def agree_unit(v):
    '''what the plain box finds (C07) is what the index finds, when it holds a row for each valid archive (C10)'''
    from contracts.C07 import holds as plain
    w = W(v)
    f = w.ROW.f
    S = STR.sort
    # an archive of the box, and its row
    a = {n: v.t(v.const('archive_' + n, STR), STR) for n in ('name', 'kind', 'content_id', 'freeze_time_str')}
    time = z3.Function('time_of', S, S)
    us = z3.Function('us_of', S, z3.IntSort())
    rank = World.strings.rank
    row = v.t(v.const('row', w.ROW), w.ROW)
    v.assume(And(*[f(n, row) == a[n] for n in a], f('freeze_time_unix', row) == us(time(a['freeze_time_str']))))
    v.assume(v.forall([STR, STR], lambda x, y: And((us(x) < us(y)) == (rank(x) < rank(y)), (us(x) == us(y)) == (x == y)), patterns=lambda x, y: [z3.MultiPattern(us(x), us(y))]))
    # a condition, as the two get it
    tag = v.t(v.const('tag', v.TAG), v.TAG)
    x, y = v.t(v.const('value', STR), STR), v.t(v.const('value', v.VALUE), v.VALUE)
    T = lambda n: tag == v.t(v.getattr(v.get('bead.box_query:QueryCondition'), n), v.TAG)
    by_text = Or(T('BEAD_NAME'), T('KIND'), T('CONTENT_ID'))
    v.assume(If(by_text, y == v.of_text(x), w.us(y) == us(x)))
    b = dict(name=a['name'], kind=a['kind'], content_id=a['content_id'], freeze_time=time(a['freeze_time_str']))
    v.check('a condition means the same for both', w.holds(v.COND.mk(tag, y), row) == plain(v, tag, x, b), keep=False)


UNITS.append(Unit('both answer the same', agree_unit, mode='abstract'))
