'''C07: searching a plain box returns exactly the matching beads.'''
from contracts.fsmodel import *
from contracts.C03 import spec_types

RF, ZC = 'bead.box_rawfs', 'bead.ziparchive:ZipArchive'
RES = RF + ':RawFilesystemResolver'
BEAD = 'bead.bead:Bead'
ASSUMPTIONS = [
    "glob('*.zip') yields every file of the box directory whose name ends in .zip, hidden ones included, and nothing else; "
    'a saved bead is stored under such a name (C12)',
    'the metadata of an archive is the same whenever it is read during one search (the box does not change meanwhile)',
    'the values of the conditions and of the metadata are from one totally ordered sort (names, kinds and content ids '
    'are only compared for equality, freeze times also by their order: C11)',
    'ZipArchive(path) either raises InvalidArchive or gives an archive whose attributes are those of that path, or whose '
    'reading raises an arbitrary exception',
    'the name of an archive is a prefix of the name of its file (C12 proves this of bead_name_from_file_path)',
]
NOT_COVERED = ['the order of the returned beads']
PARTS = ('name', 'kind', 'content_id', 'freeze_time')


def cond_types(v):
    I = v.I
    spec_types(v)
    if not hasattr(v, 'COND'):
        v.TAG = I.enum_ty(v.get('bead.box_query:QueryCondition'))
        v.COND = TupOf(v.TAG, STR)
        v.CONDS = ListOf(v.COND)


def holds(v, tag, x, b):
    '''the documented meaning of a condition'''
    T = lambda n: tag == v.t(v.getattr(v.get('bead.box_query:QueryCondition'), n), v.TAG)
    r = World.strings.rank
    at = b['freeze_time']
    return And(Implies(T('BEAD_NAME'), b['name'] == x),
               Implies(T('KIND'), b['kind'] == x),
               Implies(T('CONTENT_ID'), b['content_id'] == x),
               Implies(T('AT_TIME'), at == x),
               Implies(T('NEWER_THAN'), r(at) > r(x)),
               Implies(T('OLDER_THAN'), r(at) < r(x)),
               Implies(T('AT_OR_NEWER'), r(at) >= r(x)),
               Implies(T('AT_OR_OLDER'), r(at) <= r(x)))


def compile_unit(v):
    cond_types(v)
    I = v.I
    if not hasattr(v, 'B'):
        v.B = Abs('SomeBead')
        v.f = {n: z3.Function('bead_' + n, v.B.sort, STR.sort) for n in PARTS}
        v.B.attrs.update({n: (lambda I, s, n=n: STR.wrap(I, v.f[n](s.t))) for n in PARTS})
    conds = v.const('conditions', v.CONDS)
    C = v.t(conds, v.CONDS)
    match = v.call(RF + ':compile_conditions', conds)
    bead = v.const('bead', v.B)
    b = {n: v.f[n](v.t(bead, v.B)) for n in PARTS}
    r = v.call(match, bead)
    spec = v.forall(v.COND, lambda c: Implies(v.CONDS.has(C, c), holds(v, v.COND.item(0, c), v.COND.item(1, c), b)))
    v.check('a bead matches exactly if it satisfies every condition', v.t(r, BOOL) == spec)


class W(Paths):
    '''A box directory with files, that are readable archives or not.'''
    def __init__(w, v):
        super().__init__(v)
        cond_types(v)
        I, P = v.I, v.PATH
        if not hasattr(v, 'BEADREC'):
            v.BEADREC = Rec('Bead', dict(name=STR, kind=STR, content_id=STR, freeze_time_str=STR, box_name=STR, inputs=v.INSPECS), cls=BEAD)
            v.BEADS, v.PATHS = ListOf(v.BEADREC), ListOf(P)
            S, B = STR.sort, BOOL.sort
            v.a = {n: z3.Function('archive_' + n, P.sort, S) for n in ('name', 'kind', 'content_id', 'freeze_time_str')}
            v.a['inputs'] = z3.Function('archive_inputs', P.sort, v.INSPECS.sort)
            v.opens = z3.Function('opens', P.sort, B)
            v.reads = {n: z3.Function('reads_' + n, P.sort, B) for n in v.a if n != 'name'}
            v.time_ok, v.time_of = z3.Function('is_time', S, B), z3.Function('time_of', S, S)
            v.usable, v.rec = z3.Function('usable', P.sort, B), z3.Function('bead_of', P.sort, S, v.BEADREC.sort)
            v.M = z3.Function('matches', S, S, S, S, B)
            v.bad = z3.Function('failing_condition', S, S, S, S, v.COND.sort)
        I.records[BEAD] = v.BEADREC
        v.assume(v.forall(P, lambda p: v.usable(p) == And(v.opens(p), v.time_ok(v.a['freeze_time_str'](p)), *[r(p) for r in v.reads.values()]),
                          patterns=lambda p: [v.usable(p)]))
        v.assume(v.forall([P, STR], lambda p, x: v.rec(p, x) == v.BEADREC.mk(*[x if n == 'box_name' else v.a[n](p) for n in v.BEADREC.fields]),
                          patterns=lambda p, x: [v.rec(p, x)]))
        v.assume(v.forall(P, lambda p: Implies(v.usable(p), World.strings.f_prefix(v.a['name'](p), w.pname(p))), patterns=lambda p: [v.a['name'](p)]))
        w.dir = v.const('directory', P)
        w.files = v.const('files', v.PATHS)
        P.methods['glob'] = w.glob
        v.stub(ZC + '.__init__', w.open)
        v.stub(ZC + '.location', lambda I, f, a, k: 'location')
        for n in v.reads:
            v.stub(f'{ZC}.{n}', lambda I, f, a, k, n=n: w.read(a[0], n))
        v.stub(BEAD + '.freeze_time', lambda I, f, a, k: w.time(a[0]))
        v.stub(RES + '._cache_bead_and_path', lambda I, f, a, k: None)

    def glob(w, I, s, a, k):
        v = w.v
        v.check('the box is searched', s.t == v.t(w.dir, v.PATH), keep=False)
        if a[0] != '*.zip':
            raise Unsupported(f'glob of {a[0]!r}')
        return w.files

    def open(w, I, f, a, k):
        v = w.v
        p = v.t(a[1], v.PATH)
        if not v.branch(v.opens(p)):
            I.raise_(v.get('bead.exceptions:InvalidArchive'))
        for n, x in dict(archive_filename=a[1], box_name=a[2] if len(a) > 2 else k.get('box_name', ''), name=STR.wrap(I, v.a['name'](p))).items():
            v.setattr(a[0], n, x)

    def read(w, o, n):
        v = w.v
        p = v.t(v.getattr(o, 'archive_filename'), v.PATH)
        if not v.branch(v.reads[n](p)):
            from pyded.interp import PyRaise
            raise PyRaise(v.I.any_exc())
        return (v.INSPECS if n == 'inputs' else STR).wrap(v.I, v.a[n](p))

    def time(w, o):
        v = w.v
        s = v.t(v.getattr(o, 'freeze_time_str'), STR)
        if not v.branch(v.time_ok(s)):
            v.I.raise_(ValueError)
        return STR.wrap(v.I, v.time_of(s))

    def values(w, p):
        v = w.v
        return dict(name=v.a['name'](p), kind=v.a['kind'](p), content_id=v.a['content_id'](p), freeze_time=v.time_of(v.a['freeze_time_str'](p)))

    def compiled(w, C):
        '''contract of compile_conditions'''
        v = w.v
        v.assume(v.forall([STR] * 4 + [v.COND], lambda n, k, c, t, x: Implies(And(v.M(n, k, c, t), v.CONDS.has(C, x)),
                          holds(v, v.COND.item(0, x), v.COND.item(1, x), dict(name=n, kind=k, content_id=c, freeze_time=t))),
                          patterns=lambda n, k, c, t, x: [z3.MultiPattern(v.M(n, k, c, t), v.CONDS.has(C, x))]))
        v.assume(v.forall([STR] * 4, lambda n, k, c, t: Or(v.M(n, k, c, t), And(v.CONDS.has(C, v.bad(n, k, c, t)), Not(
            holds(v, v.COND.item(0, v.bad(n, k, c, t)), v.COND.item(1, v.bad(n, k, c, t)), dict(name=n, kind=k, content_id=c, freeze_time=t))))),
            patterns=lambda n, k, c, t: [v.M(n, k, c, t)]))

        def stub(I, f, a, k):
            v.check('all the conditions are compiled, and only those', v.forall(v.COND, lambda c: v.CONDS.has(v.t(a[0], v.CONDS), c) == v.CONDS.has(C, c)), keep=False)
            return ExtFn('match', lambda I, a, k: BOOL.wrap(I, v.M(*[v.t(v.getattr(a[0], n), STR) for n in PARTS])))
        v.stub(RF + ':compile_conditions', stub)


def get_beads_unit(v):
    w = W(v)
    I = v.I
    conds = v.const('conditions', v.CONDS)
    C = v.t(conds, v.CONDS)
    w.compiled(C)
    box_name = v.const('box_name', STR)
    o = v.new(RES, box_directory=w.dir, _bead_cache=v.dict(), _path_cache=v.dict())
    F = v.t(w.files, v.PATHS)
    r = v.method(o, 'get_beads', conds, box_name)
    R = v.t(r, v.BEADS)
    x = v.t(box_name, STR)
    hit = lambda p: And(v.PATHS.has(F, p), v.usable(p), v.M(*w.values(p).values()))
    v.check('every readable archive that satisfies the conditions is found, with its metadata', v.forall(v.PATH, lambda p: Implies(hit(p), v.BEADS.has(R, v.rec(p, x)))), keep=False)
    v.check('only those are found', v.forall(v.BEADREC, lambda b: Implies(v.BEADS.has(R, b), v.exists(v.PATH, lambda p: And(hit(p), v.rec(p, x) == b)))), keep=False)


METHODS = dict(by_name='BEAD_NAME', by_kind='KIND', by_content_id='CONTENT_ID', at_time='AT_TIME', newer_than='NEWER_THAN',
               older_than='OLDER_THAN', at_or_newer='AT_OR_NEWER', at_or_older='AT_OR_OLDER')


def builder_unit(v):
    cond_types(v)
    I = v.I
    which = list(METHODS)[v.choose(len(METHODS), 'method')]
    tag = v.t(v.getattr(v.get('bead.box_query:QueryCondition'), METHODS[which]), v.TAG)
    instant = z3.Function('instant_of', STR.sort, STR.sort)
    timed = not which.startswith('by_')
    v.stub('bead.tech.timestamp:time_from_timestamp', lambda I, f, a, k: STR.wrap(I, instant(v.t(a[0], STR))))
    box = v.new('bead.box:Box', name=v.const('box', STR))
    o = v.new('bead.box:BoxSearch', box=box, conditions=v.const('conditions', v.CONDS), _unique_filter=False)
    C0 = v.t(v.getattr(o, 'conditions'), v.CONDS)
    x = v.const('value', STR)
    out = v.attempt(lambda: v.method(o, which, x))
    if not out.ok:
        v.check('only an empty name, kind or content id is refused', And(z3.BoolVal(not timed), v.t(x, STR) == v.t('', STR)), keep=False)
        return
    v.check('the search can be continued', v.I.eq(out.value, o), keep=False)
    C1 = v.t(v.getattr(o, 'conditions'), v.CONDS)
    new = v.COND.mk(tag, instant(v.t(x, STR)) if timed else v.t(x, STR))
    v.check('the condition is added to the conditions', v.forall(v.COND, lambda c: v.CONDS.has(C1, c) == Or(v.CONDS.has(C0, c), c == new)), keep=False)


def box_unit(v):
    w = W(v)
    conds = v.const('conditions', v.CONDS)
    P = v.PATH
    indexed = z3.Function('has_index', P.sort, BOOL.sort)
    v.stub('bead.box_index:index_path_exists', lambda I, f, a, k: BOOL.wrap(I, indexed(w.t(a[0]))))
    for n in ('bead.box_index:can_read_index', 'bead.box_index:can_write_index'):
        if v.I.try_resolve(n) if hasattr(v.I, 'try_resolve') else True:
            v.stub(n, lambda I, f, a, k, n=n: v.const(n.split(':')[1], BOOL))
    calls = []

    def get_beads(I, f, a, k):
        calls.append((a[0], a[1], a[2] if len(a) > 2 else k['box_name']))
        r = v.const('beads', v.BEADS)
        calls.append(r)
        return r
    v.stub(RES + '.get_beads', get_beads)
    v.stub(RES + '.__init__', lambda I, f, a, k: v.setattr(a[0], 'box_directory', a[1]))
    v.assume(Not(indexed(v.t(w.dir, P))))
    name = v.const('box_name', STR)
    box = v.call('bead.box:Box', name, w.dir)
    r = v.method(box, 'get_beads', conds)
    v.check('a box without index is scanned', z3.BoolVal(len(calls) == 2), keep=False)
    (o, c, n), found = calls
    v.check('for the conditions', v.t(c, v.CONDS) == v.t(conds, v.CONDS), keep=False)
    v.check('as that box', v.t(n, STR) == v.t(name, STR), keep=False)
    v.check('in the directory of the box', v.t(v.getattr(o, 'box_directory'), P) == v.t(w.dir, P), keep=False)
    v.check('all that is found is returned', v.t(r, v.BEADS) == v.t(found, v.BEADS), keep=False)


UNITS = [
    Unit('compile_conditions', compile_unit, mode='abstract'),
    Unit('get_beads', get_beads_unit, mode='abstract'),
    Unit('conditions of a search', builder_unit, mode='abstract'),
    Unit('Box.get_beads', box_unit, mode='abstract'),
]
