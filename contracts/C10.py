'''C10: index maintenance keeps the index equal to the valid archives on disk.'''
from contracts.fsmodel import *
from contracts.C09 import W as Index, IX, BI
import ast
from pyded import pybuiltins as PB
from pyded.interp import PyRaise

ZC = 'bead.ziparchive:ZipArchive'
ASSUMPTIONS = [
    'sqlite: statements do what contracts/sqlmodel.py says, a transaction that is not committed changes nothing, a failing statement or commit raises an exception, the constraint PRIMARY KEY is kept',
    'ZipArchive(path) either fails or gives an archive whose attributes are those of that path; validate() fails exactly for an archive that is not valid (C02), reading an attribute can fail',
    'the names of the inputs of an archive are distinct (they are keys of a JSON object)',
    'glob("*.zip") gives each of the archive files of the box once; the name of a file in the box is its path relative to the box',
    'for rebuild and sync: the database can be read and written, no two valid archives are of the same bead (same name and content id)',
    'an index that does not exist is empty, and so is one that has just been deleted',
]
NOT_COVERED = ['an archive that is replaced in place while the same process has it open (zipopener keeps the handle)', 'two processes that change the same index at the same time', 'a file whose content was replaced is not "new" for sync',
               'sync and rebuild when the database fails in the middle (each step is all or nothing)']


class W(Index):
    def __init__(w, v, **kw):
        super().__init__(v, **kw)
        I, P, q = v.I, v.PATH, w.q
        S, B = STR.sort, z3.BoolSort()
        if not hasattr(v, 'c10'):
            v.c10 = True
            v.PATHS = ListOf(P)
            v.SSET = SetOf(STR)
            v.opens, v.valid = z3.Function('opens', P.sort, B), z3.Function('is_valid', P.sort, B)
            v.a = {n: z3.Function('archive_' + n, P.sort, S) for n in ('name', 'kind', 'content_id', 'freeze_time_str')}
            v.a['inputs'] = z3.Function('archive_inputs', P.sort, v.INSPECS.sort)
            v.reads = {n: z3.Function('reads_' + n, P.sort, B) for n in v.a if n != 'name'}
            v.time_ok, v.us = z3.Function('is_time', S, B), z3.Function('us_of', S, z3.IntSort())
            v.usable, v.row = z3.Function('usable', P.sort, B), z3.Function('row_of', P.sort, w.ROW.sort)
            v.has_input = z3.Function('has_input', P.sort, w.IROW.sort, B)
            v.rel = z3.Function('relative_to', P.sort, P.sort, P.sort)
        v.assume(v.forall(P, lambda p: v.usable(p) == And(v.opens(p), v.valid(p), v.time_ok(v.a['freeze_time_str'](p)), *[r(p) for r in v.reads.values()]),
                          patterns=lambda p: [v.usable(p)]))
        vals = lambda p: dict(name=v.a['name'](p), kind=v.a['kind'](p), content_id=v.a['content_id'](p), freeze_time_str=v.a['freeze_time_str'](p),
                              freeze_time_unix=v.us(v.a['freeze_time_str'](p)), file_path=w.file(p))
        v.keyed = []
        w.dir = v.const('directory', P)
        v.assume(v.forall(P, lambda p: v.row(p) == w.ROW.mk(*[vals(p)[n] for n in w.ROW.fields]), patterns=lambda p: [v.row(p)]))
        P.attrs['suffix'] = lambda I, s: '.zip'
        P.methods.update(
            relative_to=lambda I, s, a, k: w.wrap(v.rel(s.t, w.t(a[0]))),
            absolute=lambda I, s, a, k: s,
            resolve=lambda I, s, a, k: s,
            as_uri=lambda I, s, a, k: STR.wrap(I, v.t(v.const('uri', STR), STR)),
            glob=w.glob)
        d = w.t(w.dir)
        # files of the box
        v.assume(v.forall(STR, lambda s: And(w.as_posix(v.rel(w.join_(d, s), d)) == s, w.pname(w.join_(d, s)) == s), patterns=lambda s: [w.join_(d, s)]))
        w.index = w.join_(d, v.t('.index.sqlite', STR))
        v.stub(ZC + '.__init__', w.open)
        v.stub(ZC + '.location', lambda I, f, a, k: 'location')
        v.stub(ZC + '.validate', w.validate)
        for n in v.reads:
            v.stub(f'{ZC}.{n}', lambda I, f, a, k, n=n: w.read(a[0], n))
        v.stub(BI + ':timestamp_to_unix_utc_microseconds', w.time)
        w.o = v.new(IX, box_directory=w.dir, index_path=w.wrap(w.index))

    def file(w, p):
        v = w.v
        return w.as_posix(v.rel(p, w.t(w.dir)))

    def in_box(w, p):
        d = w.t(w.dir)
        return And(w.join_(d, w.file(p)) == p, w.pname(p) == w.file(p), w.parent(p) == d)

    def archive(w, o):
        return w.v.t(w.v.getattr(o, 'archive_filename'), w.v.PATH)

    def open(w, I, f, a, k):
        v = w.v
        p = w.t(a[1])
        if not v.branch(v.opens(p)):
            I.raise_(v.get('bead.exceptions:InvalidArchive'))
        for n, x in dict(archive_filename=a[1], box_name=a[2] if len(a) > 2 else k.get('box_name', ''), name=STR.wrap(I, v.a['name'](p))).items():
            v.setattr(a[0], n, x)

    def fail(w):
        raise PyRaise(w.v.I.any_exc())

    def validate(w, I, f, a, k):
        if not w.v.branch(w.v.valid(w.archive(a[0]))):
            w.fail()

    def read(w, o, n):
        v = w.v
        p = w.archive(o)
        if not v.branch(v.reads[n](p)):
            w.fail()
        return (v.INSPECS if n == 'inputs' else STR).wrap(v.I, v.a[n](p))

    def time(w, I, f, a, k):
        v = w.v
        s = v.t(a[0], STR)
        if not v.branch(v.time_ok(s)):
            I.raise_(ValueError)
        return INT.wrap(I, v.us(s))

    # ------------------------------------------------------------ rows
    def irow(w, p, s):
        '''row for an input of an archive'''
        v, f = w.v, w.v.INSPEC.f
        vals = dict(bead_name=v.a['name'](p), bead_content_id=v.a['content_id'](p), input_name=f('name', s), input_kind=f('kind', s),
                    input_content_id=f('content_id', s), input_freeze_time_str=f('freeze_time_str', s))
        return w.IROW.mk(*[vals[n] for n in w.IROW.fields])

    def same(w, r, p):
        '''a row of the bead that is in a file'''
        v, f = w.v, w.ROW.f
        return And(f('name', r) == v.a['name'](p), f('content_id', r) == v.a['content_id'](p))

    def isame(w, x, p):
        v, f = w.v, w.IROW.f
        return And(f('bead_name', x) == v.a['name'](p), f('bead_content_id', x) == v.a['content_id'](p))

    def added(w, bags, p):
        '''counts of rows after an archive is indexed'''
        v, q = w.v, w.q
        use = v.usable(p)
        return (lambda r: If(And(use, w.same(r, p)), If(r == v.row(p), 1, 0), q.count('beads', r, bag=bags['beads'])),
                lambda x: If(And(use, w.isame(x, p)), If(v.has_input(p, x), 1, 0), q.count('inputs', x, bag=bags['inputs'])))

    def row_for(w, bag):
        '''the row with a key in a table: there is at most one'''
        v, q, f = w.v, w.q, w.ROW.f
        F = z3.Function('row_with_key', bag.sort(), STR.sort, STR.sort, w.ROW.sort)
        v.assume(v.forall(w.ROW, lambda r: Implies(q.count('beads', r, bag=bag) > 0, F(bag, f('name', r), f('content_id', r)) == r), patterns=lambda r: [q.count('beads', r, bag=bag)]))
        # (only to find the rows of the earlier tables in this one)
        for other in v.__dict__.setdefault('keyed', []):
            if not z3.eq(other, bag):
                v.assume(v.forall([STR, STR], lambda n, c: q.count('beads', F(other, n, c), bag=bag) >= 0, patterns=lambda n, c: [F(bag, n, c)]))
        v.keyed.append(bag)
        return lambda n, c: F(bag, n, c)

    def dropped(w, bags, gone):
        '''counts of rows after files that are gone(name) are dropped'''
        v, q, f, g = w.v, w.q, w.ROW.f, w.IROW.f
        row = w.row_for(bags['beads'])
        b, n = lambda r: q.count('beads', r, bag=bags['beads']), lambda x: q.count('inputs', x, bag=bags['inputs'])

        def inputs(x):
            k = g('bead_name', x), g('bead_content_id', x)
            r = row(*k)
            return If(And(b(r) > 0, f('name', r) == k[0], f('content_id', r) == k[1], gone(f('file_path', r))), 0, n(x))
        return (lambda r: If(gone(f('file_path', r)), 0, b(r))), inputs

    def check(w, prefix, counts, bags=None):
        v, q = w.v, w.q
        for n, ty, f in zip(('beads', 'inputs'), (w.ROW, w.IROW), counts):
            v.check(f'{prefix}: {n}', v.forall(ty, lambda r: q.count(n, r, bag=bags and bags[n]) == f(r)), keep=False)

    def facts(w, prefix, counts, of=None):
        v, q = w.v, w.q
        return [(f'{prefix}: {n}', v.forall(ty, lambda r: q.count(n, r, of=of) == f(r), patterns=lambda r: [q.count(n, r, of=of)]))
                for n, ty, f in zip(('beads', 'inputs'), (w.ROW, w.IROW), counts)]

    def become(w, counts):
        '''the effect of a function by its contract'''
        for n, f in zip(('beads', 'inputs'), counts):
            w.q.set(n, w.q.db, f)

    def inputs_so_far(w, p, bags):
        """invariant for a loop over the inputs of an archive"""
        v, q = w.v, w.q
        L = v.a['inputs'](p)
        at = lambda i: v.INSPECS.get(L, i)
        # the names are distinct
        pos = z3.Function('position_of_input', w.IROW.sort, z3.IntSort())
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < v.INSPECS.n(L)), pos(w.irow(p, at(i))) == i), patterns=lambda i: [at(i)]))
        before = lambda x, i: And(0 <= pos(x), pos(x) < i, w.irow(p, at(pos(x))) == x)
        v.assume(v.forall(w.IROW, lambda x: v.has_input(p, x) == before(x, v.INSPECS.n(L)), patterns=lambda x: [v.has_input(p, x)]))

        def inv(L):
            c = q.connection
            return [('inputs so far', v.forall(w.IROW, lambda x: q.count('inputs', x, of=c) == If(w.isame(x, p), If(before(x, L.i), 1, 0), q.count('inputs', x, bag=bags['inputs'])),
                                               patterns=lambda x: [q.count('inputs', x, of=c)]))]
        return inv

    def unchanged(w, label, bags):
        w.v.check(label, And(*[w.q.bag(n) == x for n, x in bags.items()]), keep=False)

    def glob(w, I, s, a, k):
        v = w.v
        v.check('the box is searched', s.t == w.t(w.dir), keep=False)
        if a[0] != '*.zip':
            raise Unsupported(f'glob of {a[0]!r}')
        return w.files()

    def files(w):
        '''the archive files of the box, each once'''
        v = w.v
        w.order = getattr(w, 'order', -1) + 1
        v.listed = z3.Function(f'position_of_file{w.order or ""}', STR.sort, z3.IntSort())
        l = v.const('files', v.PATHS)
        F = w.F = v.t(l, v.PATHS)
        w.at = lambda i: v.PATHS.get(F, i)
        w.n = v.PATHS.n(F)
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < w.n), And(w.in_box(w.at(i)), v.listed(w.file(w.at(i))) == i)), patterns=lambda i: [w.at(i)]))
        return l

    def sorted_files(w):
        '''sorting the files gives them in another order'''
        v = w.v

        def sorted_(I, a, k):
            x = a[0].src if isinstance(a[0], IterVal) else a[0]
            if not hasattr(w, 'F') or k or not isinstance(x, (Obj, Sym)) or I.type_of(x) is not v.PATHS or not v.t(x, v.PATHS).eq(w.F):
                return PB.b_sorted(I, a[0], **k)
            F = w.F
            l = W.files(w)
            v.assume(v.PATHS.n(F) == w.n)
            v.assume(v.forall(v.PATH, lambda p: v.PATHS.has(F, p) == v.PATHS.has(w.F, p), patterns=lambda p: [v.PATHS.has(w.F, p)]))
            v.assume(v.forall(v.PATH, lambda p: v.PATHS.has(F, p) == v.PATHS.has(w.F, p), patterns=lambda p: [v.PATHS.has(F, p)]))
            return l
        v.ext('builtins.sorted', sorted_)

    def by_key(w, ok):
        '''the only one of the files that are ok with a bead'''
        v, f, g = w.v, w.ROW.f, w.IROW.f
        K = z3.Function(f'file_of_bead{w.order or ""}', STR.sort, STR.sort, z3.IntSort())
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < w.n, ok(w.at(i))), K(v.a['name'](w.at(i)), v.a['content_id'](w.at(i))) == i), patterns=lambda i: [w.at(i)]))
        return (lambda r: K(f('name', r), f('content_id', r))), (lambda x: K(g('bead_name', x), g('bead_content_id', x)))

    def all_added(w, bags, i, ok):
        '''counts of rows after the files before i that are ok'''
        return w.some_added(bags, lambda j: j < i, ok)

    def some_added(w, bags, done, ok):
        '''counts of rows after those of the files that are done that are ok'''
        v, q = w.v, w.q
        k, ik = w.by_key(ok)
        b, n = lambda r: q.count('beads', r, bag=bags['beads']), lambda x: q.count('inputs', x, bag=bags['inputs'])
        hit = lambda j, same: And(0 <= j, j < w.n, done(j), ok(w.at(j)), same(w.at(j)))
        return (lambda r: If(hit(k(r), lambda p: w.same(r, p)), If(v.row(w.at(k(r))) == r, 1, 0), b(r)),
                lambda x: If(hit(ik(x), lambda p: w.isame(x, p)), If(v.has_input(w.at(ik(x)), x), 1, 0), n(x)))


def outcome(v, w, bags, counts, what):
    if not w.q.fails:
        w.check(what, counts)
    elif w.q.committed:
        w.check('all or nothing', counts)
    else:
        w.unchanged('all or nothing', bags)


def add_unit(fails):
    def unit(v):
        w = W(v, fails=fails)
        q = w.q
        p = v.const('archive_path', v.PATH)
        p_ = w.t(p)
        v.assume(w.in_box(p_))
        bags = q.snapshot()
        inv = w.inputs_so_far(p_, bags)
        v.loop(BI + ':*', inv, prefer=True, over=lambda view: view.ty is v.INSPEC)
        o = v.attempt(lambda: v.method(w.o, 'index_archive_file', p))
        v.check('no error', z3.BoolVal(o.ok))
        outcome(v, w, bags, w.added(bags, p_), 'the index has exactly what the archive has, others are as before')
    return unit


def remove_unit(fails):
    def unit(v):
        w = W(v, fails=fails)
        p = v.const('archive_path', v.PATH)
        v.assume(w.in_box(w.t(p)))
        bags = w.q.snapshot()
        s = w.file(w.t(p))
        o = v.attempt(lambda: v.method(w.o, 'unindex_archive_file', p))
        v.check('no error', z3.BoolVal(o.ok))
        outcome(v, w, bags, w.dropped(bags, lambda x: x == s), 'exactly the bead of the file is dropped')
    return unit


def steps(v, w):
    def add(I, f, a, k):
        p = w.t(a[1])
        v.check('lemma: a file of the box is added', w.in_box(p), keep=False)
        w.become(w.added(w.q.snapshot(), p))
    v.stub(IX + '.index_archive_file', add)

    def remove(I, f, a, k):
        p = w.t(a[1])
        v.check('lemma: a file of the box is removed', w.join_(w.t(w.dir), w.file(p)) == p, keep=False)
        s = w.file(p)
        w.become(w.dropped(w.q.snapshot(), lambda x: x == s))
    v.stub(IX + '.unindex_archive_file', remove)


def rebuild_unit(v):
    w = W(v)
    w.sorted_files()
    q = w.q
    steps(v, w)
    there = v.const('exists', BOOL)
    v.PATH.methods['exists'] = lambda I, s, a, k: there
    none = lambda b: And(*[v.forall(ty, lambda r: q.count(n, r, bag=b[n]) == 0, patterns=lambda r: [q.count(n, r, bag=b[n])]) for n, ty in (('beads', w.ROW), ('inputs', w.IROW))])
    v.assume(Implies(Not(there.t), none(q.snapshot())))

    def unlink(I, s, a, k):
        v.check('only the index is deleted', s.t == w.index, keep=False)
        if not k.get('missing_ok') and not I.branch(there.t):
            I.raise_(FileNotFoundError)
        w.become((lambda r: z3.IntVal(0), lambda x: z3.IntVal(0)))
    v.PATH.methods['unlink'] = unlink
    w.start = None

    def inv(L):
        if w.start is None:
            w.start = q.snapshot()
        return w.facts('the files so far', w.all_added(w.start, L.i, v.usable))
    v.loop(BI + ':*', inv, prefer=True, over=lambda view: view.ty is v.PATH)
    o = v.attempt(lambda: v.method(w.o, 'rebuild'))
    v.check('no error', z3.BoolVal(o.ok))
    k, ik = w.by_key(v.usable)
    hit = lambda j: And(0 <= j, j < w.n, v.usable(w.at(j)))
    v.check('an indexed bead is that of a valid archive of the box', v.forall(w.ROW, lambda r: Implies(q.count('beads', r) > 0, And(hit(k(r)), v.row(w.at(k(r))) == r))), keep=False)
    v.check('every valid archive of the box is indexed', v.forall(INT, lambda i: Implies(hit(i), q.count('beads', v.row(w.at(i))) == 1)), keep=False)
    v.check('with its inputs', v.forall([INT, w.IROW], lambda i, x: Implies(And(hit(i), w.isame(x, w.at(i))), q.count('inputs', x) == If(v.has_input(w.at(i), x), 1, 0))), keep=False)
    v.check('an indexed input is that of a valid archive of the box', v.forall(w.IROW, lambda x: Implies(q.count('inputs', x) > 0, And(hit(ik(x)), v.has_input(w.at(ik(x)), x)))), keep=False)


def sync_unit(v):
    w = W(v)
    w.sorted_files()
    q, f = w.q, w.ROW.f
    steps(v, w)
    w.files()
    files = w.F
    w.files = lambda: v.PATHS.wrap(v.I, files)
    v.PATH.methods['glob'] = w.glob
    bags = q.snapshot()
    b0 = lambda r: q.count('beads', r, bag=bags['beads'])
    known = z3.Function('known_file', STR.sort, z3.BoolSort())
    witness = z3.Function('row_with_file', STR.sort, w.ROW.sort)
    v.assume(v.forall(w.ROW, lambda r: Implies(b0(r) > 0, known(f('file_path', r))), patterns=lambda r: [b0(r)]))
    v.assume(v.forall(STR, lambda s: Implies(known(s), And(b0(witness(s)) > 0, f('file_path', witness(s)) == s)), patterns=lambda s: [known(s)]))
    new = lambda p: And(v.usable(p), Not(known(w.file(p))))
    on_disk = lambda s, n: And(0 <= v.listed(s), v.listed(s) < n, w.file(w.at(v.listed(s))) == s)
    state = {}

    def inv(L):
        # a loop over files or names of files either adds them or drops them
        calls = [n.func for n in ast.walk(L.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)]
        adds = 'index_archive_file' in [c.attr for c in calls]
        own = any(isinstance(c.value, ast.Name) and c.value.id == 'self' for c in calls)
        if hasattr(L.view, 'index') and z3.is_int_value(L.i):
            has = L.view.has
            for t in ([v.forall(STR, lambda s: Implies(has(s), on_disk(s, w.n)), patterns=lambda s: [has(s)]),
                       v.forall(INT, lambda i: Implies(And(0 <= i, i < w.n, Not(known(w.file(w.at(i))))), has(w.file(w.at(i)))), patterns=lambda i: [w.at(i)])] if adds else
                      [v.forall(STR, lambda s: Implies(has(s), Not(on_disk(s, w.n))), patterns=lambda s: [has(s)]),
                       v.forall(STR, lambda s: Implies(And(known(s), Not(on_disk(s, w.n))), has(s)), patterns=lambda s: [known(s)])]):
                v.hint(t)
        before = state.setdefault(id(L.node), q.snapshot()) if L.view.ty is v.PATH or hasattr(L.view, 'index') else None
        if L.view.ty is v.PATH:
            out = w.facts('the files so far', w.all_added(before, L.i, new)) if adds or own else []
            cur = current(L)
            if cur is not None:
                c = v.t(cur, v.SSET)
                out.append(('the names of the files so far', v.forall(STR, lambda s: v.SSET.has(c, s) == on_disk(s, L.i), patterns=lambda s: [v.SSET.has(c, s)])))
            return out
        if L.view.ty is STR and hasattr(L.view, 'index'):
            past = lambda s: And(L.view.has(s), L.view.index(s) < L.i)
            if adds:
                return w.facts('the files so far', w.some_added(before, lambda j: past(w.file(w.at(j))), new))
            return w.facts('what is gone so far', w.dropped(before, lambda s: And(past(s), Not(on_disk(s, w.n)))))
        raise Unsupported('loop')

    def current(L):
        # the set of names that starts as empty
        if v.I.building:
            return v.I.building[-1] if v.kind(v.I.building[-1]) == 'set' else None
        for fr in L.frames():
            for k, x in v.I.h(fr.env).fields.items():
                if isinstance(x, Obj) and v.kind(x) == 'set' and (x.id in state.setdefault('cur', set()) or v.items(x) in ((), [], set())):
                    state['cur'].add(x.id)
                    return x
        return None
    v.loop(BI + ':*', inv, prefer=True, over=lambda view: view.ty is v.PATH or hasattr(view, 'index'))
    o = v.attempt(lambda: v.method(w.o, 'sync'))
    v.check('no error', z3.BoolVal(o.ok))
    n = w.n
    k, ik = w.by_key(new)
    is_new = lambda j, same: And(0 <= j, j < n, new(w.at(j)), same(w.at(j)))
    b1 = lambda r: q.count('beads', r)
    v.check('the new valid archives are added', v.forall(INT, lambda i: Implies(And(0 <= i, i < n, new(w.at(i))), b1(v.row(w.at(i))) == 1)), keep=False)
    v.check('beads whose file is gone are dropped', v.forall(w.ROW, lambda r: Implies(And(b0(r) > 0, Not(on_disk(f('file_path', r), n))), b1(r) == 0)), keep=False)
    v.check('other beads stay', v.forall(w.ROW, lambda r: Implies(And(b0(r) > 0, on_disk(f('file_path', r), n), Not(is_new(k(r), lambda p: w.same(r, p)))), b1(r) == b0(r))), keep=False)
    v.check('nothing else is indexed', v.forall(w.ROW, lambda r: Implies(b1(r) > 0, Or(b0(r) > 0, And(is_new(k(r), lambda p: w.same(r, p)), v.row(w.at(k(r))) == r)))), keep=False)
    v.check('new beads have their inputs', v.forall([INT, w.IROW], lambda i, x: Implies(And(0 <= i, i < n, new(w.at(i)), w.isame(x, w.at(i))),
                                                                                        q.count('inputs', x) == If(v.has_input(w.at(i), x), 1, 0))), keep=False)
    row = w.row_for(bags['beads'])
    g = w.IROW.f
    stays = lambda x, r: And(b0(r) > 0, f('name', r) == g('bead_name', x), f('content_id', r) == g('bead_content_id', x), on_disk(f('file_path', r), n))
    v.check('beads that stay keep their inputs', v.forall([w.ROW, w.IROW], lambda r, x: Implies(And(stays(x, r), Not(is_new(ik(x), lambda p: w.isame(x, p)))),
                                                                                               q.count('inputs', x) == q.count('inputs', x, bag=bags['inputs']))), keep=False)


def again_unit(v):
    '''by the contracts, repeating any of these changes nothing'''
    w = W(v)
    q = w.q
    p = w.t(v.const('path', v.PATH))
    which = v.choose(2)
    op = (lambda b: w.added(b, p)) if which == 0 else (lambda b: w.dropped(b, lambda x: x == w.file(p)))
    w.become(op(q.snapshot()))
    once = q.snapshot()
    w.become(op(once))
    for n, ty in (('beads', w.ROW), ('inputs', w.IROW)):
        v.check(f'repeated {"adding" if which == 0 else "removal"} changes no {n}', v.forall(ty, lambda r: q.count(n, r) == q.count(n, r, bag=once[n])), keep=False)


def new_unit(v):
    w = W(v)
    q = w.q
    bags = q.snapshot()
    o = v.call(IX, w.dir)
    v.check('it is the index of the box', And(w.t(v.getattr(o, 'box_directory')) == w.t(w.dir), w.t(v.getattr(o, 'index_path')) == w.index), keep=False)
    v.check('the index is created', z3.BoolVal(hasattr(q, 'connection')), keep=False)
    w.unchanged('indexed beads are as before', bags)


CL = 'bead_cli.box'


def command_unit(v):
    """the commands maintain the index of the given box"""
    names = [n for n in ('reindex', 'index', 'reindex_directory', 'index_directory') if v.has(f'{CL}:{n}')]
    name = names[v.choose(len(names), 'command')]
    v.PATH = Abs('Path')
    v.PATH.ordered = True
    calls = []
    fails = v.const('fails', BOOL)

    def init(I, f, a, k):
        v.setattr(a[0], 'given', a[1])
    v.stub(IX + '.__init__', init)
    for n in ('rebuild', 'sync'):
        def stub(I, f, a, k, n=n):
            calls.append((n, v.getattr(a[0], 'given')))
            if I.branch(fails.t):
                I.raise_(OSError)
        v.stub(f'{IX}.{n}', stub)
    v.ext('builtins.print', lambda I, a, k: None)
    location = v.const('location', v.PATH)
    arg = location if name.endswith('directory') else v.new('bead.box:Box', name=v.const('name', STR), location=location)
    o = v.attempt(lambda: v.call(f'{CL}:{name}', arg))
    v.check('the index is maintained once', z3.BoolVal(len(calls) == 1), keep=False)
    if len(calls) == 1:
        v.check('as asked', z3.BoolVal(calls[0][0] == ('rebuild' if name.startswith('re') else 'sync')), keep=False)
        v.check('that of the box', v.eq(calls[0][1], location), keep=False)


class Asked:
    '''the arguments of index and reindex: at most one of box, directory and all is given'''
    def __init__(c, v, op):
        c.v = v
        Paths(v)
        I, P = v.I, v.PATH
        if not hasattr(v, 'c10a'):
            v.c10a = True
            v.BOX = Rec('Box', dict(name=STR, location=P), cls='bead.box:Box')
            v.BOXES = ListOf(v.BOX)
            v.PSET = SetOf(P)
        I.records['bead.box:Box'] = v.BOX
        c.is_dir = z3.Function('is_existing_directory', P.sort, BOOL.sort)
        c.fails = z3.Function('indexing_fails', P.sort, BOOL.sort)
        P.methods.update(is_dir=lambda I, s, a, k: BOOL.wrap(I, c.is_dir(s.t)))
        P.methods['__bool__'] = lambda I, s, a, k: True
        v.ext('os.path.isdir', lambda I, a, k: BOOL.wrap(I, c.is_dir(v.t(a[0], P))))
        c.done, c.other = (c.ghost(n) for n in ('maintained', 'otherwise'))
        v.stub(IX + '.__init__', lambda I, f, a, k: v.setattr(a[0], 'box_directory', a[1]))
        for n in ('rebuild', 'sync'):
            v.stub(f'{IX}.{n}', lambda I, f, a, k, n=n: c.maintain(n == op, v.getattr(a[0], 'box_directory')))
        v.ext('builtins.print', lambda I, a, k: None)
        c.boxes = v.t(v.const('boxes', v.BOXES), v.BOXES)
        c.n = v.BOXES.n(c.boxes)
        c.loc = lambda i: v.BOX.f('location', v.BOXES.get(c.boxes, i))
        c.known, c.of_name = z3.Function('is_known', STR.sort, BOOL.sort), z3.Function('box_of_name', STR.sort, v.BOX.sort)
        known = lambda a: c.known(v.t(a, STR))
        cls = ExtClass('Environment', {})
        cls.methods.update(
            get_boxes=lambda I, o, a, k: v.BOXES.wrap(I, c.boxes),
            is_known_box=lambda I, o, a, k: BOOL.wrap(I, known(a[0])),
            get_box=lambda I, o, a, k: v.BOX.wrap(I, c.of_name(v.t(a[0], STR))) if I.branch(known(a[0]), 'known') else None)
        c.env = I.alloc(HInst(cls, {}))

    def ghost(c, name):
        v = c.v
        g = v.I.alloc(HSym(v.PSET, v.t(v.const(name, v.PSET), v.PSET)))
        G = v.t(g, v.PSET)
        v.assume(v.forall(v.PATH, lambda p: Not(v.PSET.has(G, p)), patterns=lambda p: [v.PSET.has(G, p)]))
        return g

    def maintain(c, as_asked, d):
        v, I = c.v, c.v.I
        I.mutate(c.done if as_asked else c.other, 'add', d)
        if I.branch(c.fails(v.t(d, v.PATH)), 'it fails'):
            I.raise_(OSError)


def all_unit(op, cls):
    def unit(v):
        """the folders whose index is maintained are those asked for"""
        c = Asked(v, op)
        given = v.choose(4, 'given')
        box, d = v.const('box_name', STR), v.const('directory', v.PATH)
        args = dict(box=box if given == 1 else None, dir=d if given == 2 else None, all=given == 3)
        has, D, O = v.PSET.has, lambda: v.t(c.done, v.PSET), lambda: v.t(c.other, v.PSET)

        def inv(L):
            return [('the boxes so far', v.forall(INT, lambda j: Implies(And(0 <= j, j < L.i), has(D(), c.loc(j))), patterns=lambda j: [v.BOXES.get(c.boxes, j)])),
                    ('no other folder', v.forall(v.PATH, lambda p: Implies(has(D(), p), v.exists(INT, lambda j: And(0 <= j, j < L.i, c.loc(j) == p))), patterns=lambda p: [has(D(), p)])),
                    ('only as asked', v.forall(v.PATH, lambda p: Not(has(O(), p)), patterns=lambda p: [has(O(), p)]))]
        v.loop(CL + ':*', inv, prefer=True)
        o = v.attempt(lambda: v.method(v.new(f'{CL}:{cls}'), 'run', v.I.alloc(HInst(ExtClass('Namespace', {}), args)), c.env))
        v.check('no error', z3.BoolVal(o.ok))
        one = lambda p: And(c.n == 1, p == c.loc(z3.IntVal(0)))
        asked = [
            one,
            lambda p: z3.If(Not(v.truth(box)), one(p), And(c.known(box.t), p == v.BOX.f('location', c.of_name(box.t)))),
            lambda p: And(c.is_dir(d.t), p == d.t),
            lambda p: v.exists(INT, lambda j: And(0 <= j, j < c.n, c.loc(j) == p))][given]
        v.check('the index of each folder asked for is maintained', v.forall(v.PATH, lambda p: Implies(asked(p), has(D(), p))), keep=False)
        v.check('the index of no other folder is changed', v.forall(v.PATH, lambda p: Implies(has(D(), p), asked(p))), keep=False)
        v.check('no index is changed in another way', v.forall(v.PATH, lambda p: Not(has(O(), p))), keep=False)
    return unit


UNITS = [
    Unit('BoxIndex', new_unit, mode='abstract'),
    Unit('reindex, index', command_unit, mode='abstract'),
    Unit('index_archive_file', add_unit(False), mode='abstract'),
    Unit('index_archive_file, failing', add_unit(True), mode='abstract'),
    Unit('unindex_archive_file', remove_unit(False), mode='abstract'),
    Unit('unindex_archive_file, failing', remove_unit(True), mode='abstract'),
    Unit('rebuild', rebuild_unit, mode='abstract'),
    Unit('sync', sync_unit, mode='abstract'),
    Unit('repetition', again_unit, mode='abstract'),
    Unit('CmdIndex.run', all_unit('sync', 'CmdIndex'), mode='abstract'),
    Unit('CmdReindex.run', all_unit('rebuild', 'CmdReindex'), mode='abstract'),
]
