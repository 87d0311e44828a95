'''C12: a saved bead is found again under its name, and only the right archive resolves.'''
from contracts.fsmodel import *
from contracts.C07 import W as BoxW, cond_types
from pyded import regex
from pyded.regex import C as RC

ASSUMPTIONS = [
    'freeze times are texts like 20200101T010203000004+0100 (what timestamp() makes, C11)',
    'os.path.splitext, os.path.basename and the end-anchored re.sub of the file name are modelled over all strings '
    '(pyded/regex.py translates the pattern of the current source to a regular expression of the solver)',
    'pathlib: directory / name is the file of that name in the directory, when the name has no /',
    'Workspace.pack writes the archive (C03, C23), ZipArchive reads its attributes from the file it is given',
    'a resolver answers with any path or raises LookupError or BoxIndexError in the unit of Box.resolve; that of boxes without index is verified here, that of the index in C09',
]
NOT_COVERED = ['files that change between the moment Box.resolve reads them and their later use']
BX, ZC, ZA = 'bead.box', 'bead.ziparchive:ZipArchive', 'bead.ziparchive'
RES = 'bead.box_rawfs:RawFilesystemResolver'
BEAD = 'bead.bead:Bead'


def words(text):
    return regex.to_re(regex.parse(text)[0])


def files_model(v):
    '''paths that are a directory and the name of a file in it'''
    I = v.I
    if not hasattr(v, 'fcls'):
        v.dcls, v.fcls = ExtClass('Path', {}), ExtClass('Path', {})
        yes = lambda I, o, a, k: v.const('is', BOOL)
        v.dcls.methods.update({'exists': yes, 'is_dir': yes, '/': lambda I, o, a, k: I.alloc(HInst(v.fcls, {'dir': o, 'name': a[0]}))})
        v.fcls.attrs.update(name=lambda I, o: base(o), parent=lambda I, o: I.get_field(o, 'dir'))
        v.fcls.methods.update({'exists': yes})

    def base(o):
        # what is after the last /
        t = v.t(I.get_field(o, 'name'), STR)
        if not I.branch(z3.Contains(t, z3.StringVal('/')), 'file name has /'):
            return I.get_field(o, 'name')
        a, b = v.const('upto', STR), v.const('base', STR)
        v.assume(And(t == z3.Concat(a.t, z3.StringVal('/'), b.t), Not(z3.Contains(b.t, z3.StringVal('/')))))
        return b
    v.ext('os.path.basename', lambda I, a, k: base(a[0]))
    v.ext('pathlib.Path', lambda I, a, k: a[0])
    regex.model(v)
    regex.splitext(v)
    return I.alloc(HInst(v.dcls, {}))


def store_unit(v):
    I = v.I
    d = files_model(v)
    name = v.const('workspace_name', STR)
    ts = v.const('freeze_time', STR)
    v.assume(z3.InRe(v.t(ts, STR), words(r'[0-9]{8}T[0-9]{12}[-+][0-9]{4}')))
    wcls = ExtClass('Workspace', {})
    packed, indexed = [], []
    wcls.methods['pack'] = lambda I, o, a, k: packed.append((a, k))
    ws = I.alloc(HInst(wcls, {'name': name}))
    rcls = ExtClass('Resolver', {})
    rcls.methods['index_archive_file'] = lambda I, o, a, k: indexed.append(a[0])
    box = v.new(BX + ':Box', name=v.const('box', STR), location=d, resolver=I.alloc(HInst(rcls, {})))
    r = v.attempt(lambda: v.method(box, 'store', ws, ts))
    if not r.ok:
        v.check('a refusal is a BoxError', v.is_exc(r, 'bead.exceptions:BoxError'), keep=False)
        v.check('nothing is stored when it is refused', z3.BoolVal(not packed and not indexed), keep=False)
        return
    v.check('one archive is packed', z3.BoolVal(len(packed) == 1), keep=False)
    (a, k), = packed
    path = a[0] if a else k['zipfilename']
    v.check('with the given freeze time', v.t(a[1] if len(a) > 1 else k['freeze_time'], STR) == v.t(ts, STR), keep=False)
    v.check('in the directory of the box', v.I.eq(I.get_field(path, 'dir'), d), keep=False)
    fname = v.t(I.get_field(path, 'name'), STR)
    v.check('it is a file of that directory', Not(z3.Contains(fname, z3.StringVal('/'))), keep=False)
    v.check('it is found by the scan of the box', z3.SuffixOf(z3.StringVal('.zip'), fname), keep=False)
    v.check('the file is offered to the index', z3.BoolVal(len(indexed) == 1) if not indexed else v.I.eq(indexed[0], path), keep=False)
    v.check('its path is returned', v.I.eq(r.value, path), keep=False)
    back = v.attempt(lambda: v.call(ZA + ':bead_name_from_file_path', path))
    v.check('the name can be read back from the file', z3.BoolVal(back.ok), keep=False)
    if back.ok:
        v.check('the name read back is the name of the workspace', v.t(back.value, STR) == v.t(name, STR), keep=False)


def name_unit(v):
    I = v.I
    d = files_model(v)
    fname = v.const('file_name', STR)
    f = v.t(fname, STR)
    v.assume(And(Not(z3.Contains(f, z3.StringVal('/'))), z3.Length(f) > 0))
    path = I.alloc(HInst(v.fcls, {'dir': d, 'name': fname}))
    r = v.attempt(lambda: v.call(ZA + ':bead_name_from_file_path', path))
    if r.ok:
        n = v.t(r.value, STR)
        v.check('the name of a bead is a prefix of the name of its file', z3.PrefixOf(n, f), keep=False)
        v.check('the name is well formed', And(z3.Length(n) > 0, Not(z3.Contains(n, z3.StringVal('/'))), n != '.', n != '..'), keep=False)
    else:
        v.check('what is not a bead name is a ValueError', v.is_exc(r, ValueError), keep=False)


def caches(v, w):
    '''the caches of a resolver: what is in them was right when it was put there'''
    if not hasattr(v, 'KEY'):
        v.KEY = TupOf(STR, STR)
        v.PCACHE, v.BCACHE = DictOf(v.KEY, v.PATH), DictOf(v.KEY, v.BEADREC)
    return v.const('path_cache', v.PCACHE), v.const('bead_cache', v.BCACHE)


def right(v, w, D):
    key = lambda p: v.KEY.mk(v.a['name'](p), v.a['content_id'](p))
    return v.forall(v.KEY, lambda k: Implies(v.PCACHE.has(D, k), key(v.PCACHE.get(D, k)) == k), patterns=lambda k: [v.PCACHE.has(D, k)])


def lookup_unit(v):
    w = BoxW(v)
    v.I.stubs.pop(RES + '._cache_bead_and_path', None)
    pc, bc = caches(v, w)
    v.assume(right(v, w, v.t(pc, v.PCACHE)))
    o = v.new(RES, box_directory=w.dir, _bead_cache=bc, _path_cache=pc)
    name, cid = v.const('name', STR), v.const('content_id', STR)
    n, c = v.t(name, STR), v.t(cid, STR)
    F = v.t(w.files, v.PATHS)
    r = v.attempt(lambda: v.method(o, 'get_file_path', name, cid))
    v.check('the caches stay right', right(v, w, v.t(v.getattr(o, '_path_cache'), v.PCACHE)), keep=False)
    if r.ok:
        p = v.t(r.value, v.PATH)
        v.check('the file is an archive of the bead', And(v.a['name'](p) == n, v.a['content_id'](p) == c), keep=False)
    else:
        v.check('not found is a LookupError', v.is_exc(r, LookupError), keep=False)
        v.check('no file of the box is an archive of the bead', v.forall(v.PATH, lambda p: Implies(And(
            v.PATHS.has(F, p), v.usable(p)), Not(And(v.a['name'](p) == n, v.a['content_id'](p) == c)))), keep=False)


def cache_unit(v):
    w = BoxW(v)
    v.I.stubs.pop(RES + '._cache_bead_and_path', None)
    pc, bc = caches(v, w)
    v.assume(right(v, w, v.t(pc, v.PCACHE)))
    o = v.new(RES, box_directory=w.dir, _bead_cache=bc, _path_cache=pc)
    P0 = v.t(pc, v.PCACHE)
    p = v.const('archive_path', v.PATH)
    v.method(o, 'index_archive_file', p)
    P1 = v.t(v.getattr(o, '_path_cache'), v.PCACHE)
    v.check('the caches stay right', right(v, w, P1), keep=False)
    v.check('nothing is forgotten', v.forall(v.KEY, lambda k: Implies(v.PCACHE.has(P0, k), v.PCACHE.has(P1, k))), keep=False)


class Resolve:
    '''Box.resolve and what it uses, by contract'''
    def __init__(w, v):
        w.v, I = v, v.I
        if not hasattr(v, 'FILE'):
            v.FILE = Abs('File')
            S = STR.sort
            v.fa = {n: z3.Function('file_' + n, v.FILE.sort, S) for n in ('name', 'content_id')}
            v.exists_ = z3.Function('file_exists', v.FILE.sort, BOOL.sort)
            v.opens_ = z3.Function('file_opens', v.FILE.sort, BOOL.sort)
            v.FILE.methods['exists'] = lambda I, s, a, k: BOOL.wrap(I, v.exists_(s.t))
            v.FILE.methods['__str__'] = lambda I, s, a, k: v.const('text', STR)
            v.FILE.methods['__fspath__'] = lambda I, s, a, k: v.const('text', STR)
            v.rcls = ExtClass('Resolver', {})
            v.rcls.methods['get_file_path'] = w.get_file_path

        def init(I, f, a, k):
            p = v.t(a[1], v.FILE)
            if not v.branch(v.opens_(p)):
                I.raise_(v.get('bead.exceptions:InvalidArchive'))
            for n, x in dict(archive_filename=a[1], box_name=a[2] if len(a) > 2 else k.get('box_name', ''), name=STR.wrap(I, v.fa['name'](p))).items():
                v.setattr(a[0], n, x)
        v.stub(ZC + '.__init__', init)

        def content_id(I, f, a, k):
            if v.choose(2, 'the content id can be read'):
                I.raise_(OSError)
            return STR.wrap(I, v.fa['content_id'](v.t(v.getattr(a[0], 'archive_filename'), v.FILE)))
        v.stub(ZC + '.content_id', content_id)

    def get_file_path(w, I, o, a, k):
        v = w.v
        v.check('the bead is looked up', And(v.t(a[0], STR) == w.name, v.t(a[1], STR) == w.cid), keep=False)
        c = v.choose(3, 'lookup')
        if c:
            I.raise_([LookupError, v.get('bead.exceptions:BoxIndexError')][c - 1])
        return v.const('file', v.FILE)

    def bead(w):
        v = w.v
        b = v.new(BEAD, name=v.const('name', STR), content_id=v.const('content_id', STR), box_name=v.const('bead_box', STR), kind=v.const('kind', STR))
        w.name, w.cid, w.box = (v.t(v.getattr(b, n), STR) for n in ('name', 'content_id', 'box_name'))
        return b


def resolve_unit(v):
    w = Resolve(v)
    bead = w.bead()
    bname = v.const('box', STR)
    box = v.new(BX + ':Box', name=bname, location=v.const('location', STR), resolver=v.I.alloc(HInst(v.rcls, {})))
    r = v.attempt(lambda: v.method(box, 'resolve', bead))
    if not r.ok:
        return
    a = r.value
    f = v.t(v.getattr(a, 'archive_filename'), v.FILE)
    v.check('the archive has the name of the bead', And(v.t(v.getattr(a, 'name'), STR) == w.name, v.fa['name'](f) == w.name), keep=False)
    v.check('the archive has the content id of the bead', v.fa['content_id'](f) == w.cid, keep=False)
    v.check('the archive is of the box of the bead', And(v.t(v.getattr(a, 'box_name'), STR) == w.box, v.t(bname, STR) == w.box), keep=False)


def resolves_unit(v):
    '''a bead whose file is found and readable is resolved'''
    w = Resolve(v)
    bead = w.bead()
    f = v.const('file', v.FILE)
    v.assume(And(v.exists_(f.t), v.opens_(f.t), v.fa['name'](f.t) == w.name, v.fa['content_id'](f.t) == w.cid))
    v.rcls.methods['get_file_path'] = lambda I, o, a, k: f
    v.stub(ZC + '.content_id', lambda I, fn, a, k: STR.wrap(I, v.fa['content_id'](v.t(v.getattr(a[0], 'archive_filename'), v.FILE))))
    box = v.new(BX + ':Box', name=v.getattr(bead, 'box_name'), location=v.const('location', STR), resolver=v.I.alloc(HInst(v.rcls, {})))
    r = v.attempt(lambda: v.method(box, 'resolve', bead))
    v.check('the archive of the bead is returned', z3.BoolVal(r.ok), keep=False)
    if r.ok:
        v.check('it is that file', v.t(v.getattr(r.value, 'archive_filename'), v.FILE) == f.t, keep=False)


def boxes_unit(v):
    w = Resolve(v)
    bead = w.bead()
    if not hasattr(v, 'BOX'):
        v.BOX = Abs('Box', cls=BX + ':Box')
        v.bn = z3.Function('box_name', v.BOX.sort, STR.sort)
        v.BOX.attrs['name'] = lambda I, s: STR.wrap(I, v.bn(s.t))
        v.BOXES = ListOf(v.BOX)
        v.ARCH = Abs('Archive')
    asked = []

    def res(I, f, a, k):
        asked.append(a[0])
        v.check('the box of the bead is asked', v.bn(v.t(a[0], v.BOX)) == w.box, keep=False)
        v.check('for the bead', I.eq(a[1], bead), keep=False)
        if v.choose(2, 'resolved'):
            I.raise_(ValueError)
        return v.ARCH.wrap(I, z3.Function('resolved', v.BOX.sort, v.ARCH.sort)(v.t(a[0], v.BOX)))
    v.stub(BX + ':Box.resolve', res)
    boxes = v.const('boxes', v.BOXES)
    X = v.t(boxes, v.BOXES)
    r = v.attempt(lambda: v.call(BX + ':resolve', boxes, bead))
    named = v.exists(INT, lambda i: And(0 <= i, i < v.BOXES.n(X), v.bn(v.BOXES.get(X, i)) == w.box))
    if r.ok:
        t = v.t(r.value, v.ARCH)
        v.check('what the box of the bead resolved is returned', v.exists(INT, lambda i: And(
            0 <= i, i < v.BOXES.n(X), v.bn(v.BOXES.get(X, i)) == w.box, t == z3.Function('resolved', v.BOX.sort, v.ARCH.sort)(v.BOXES.get(X, i)))), keep=False)
    elif v.is_exc(r, LookupError) is True:
        v.check('there is no such box', Not(named), keep=False)


UNITS = [
    Unit('Box.store', store_unit, mode='theory'),
    Unit('bead_name_from_file_path', name_unit, mode='theory'),
    Unit('RawFilesystemResolver.get_file_path', lookup_unit, mode='abstract'),
    Unit('RawFilesystemResolver.index_archive_file', cache_unit, mode='abstract'),
    Unit('Box.resolve', resolve_unit, mode='abstract'),
    Unit('Box.resolve of a file of the bead', resolves_unit, mode='abstract'),
    Unit('resolve', boxes_unit, mode='abstract'),
]
