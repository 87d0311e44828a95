'''C23: a failed save leaves no archive behind and a save never overwrites one.'''
from contracts.fsmodel import *

ASSUMPTIONS = [
    'adding data, code and metadata can fail anywhere, with any exception; they write only through the open ZipFile',
    'ZipFile(name, "w") can fail before or after the file is made; closing it can fail',
    'removing the file that was just made does not fail',
    'nobody else makes or removes the file during the save',
]
NOT_COVERED = ['interrupts (KeyboardInterrupt, SIGKILL) during the save', 'a destination that is a dangling symbolic link']
WS = 'bead.workspace:Workspace'
ZCR = 'bead.workspace:_ZipCreator'


class W(Paths):
    '''Which files exist, and which of them were touched.'''
    def __init__(w, v):
        super().__init__(v)
        I, P = v.I, v.PATH
        if not hasattr(v, 'c23'):
            v.c23 = True
            v.PSET = SetOf(P)
            v.zcls = ExtClass('ZipFile', {})
        w.files = I.alloc(HSym(v.PSET, v.t(v.const('files', v.PSET), v.PSET)))
        w.touched = I.alloc(HSym(v.PSET, v.PSET.empty()))
        has = lambda p: v.PSET.has(v.t(w.files, v.PSET), p)
        ex = lambda I, s, a, k: BOOL.wrap(I, has(s.t))
        P.methods.update(exists=ex, is_file=ex, unlink=lambda I, s, a, k: w.remove(s.t, k.get('missing_ok', False)),
                         rename=lambda I, s, a, k: w.move(s.t, w.t(a[0])), replace=lambda I, s, a, k: w.move(s.t, w.t(a[0])),
                         with_suffix=lambda I, s, a, k: w.derived('with_suffix', s.t, a[0]), with_name=lambda I, s, a, k: w.derived('with_name', s.t, a[0]),
                         is_dir=lambda I, s, a, k: BOOL.wrap(I, z3.Function('isdir', P.sort, BOOL.sort)(s.t)))
        for n in ('os.path.exists', 'os.path.lexists', 'os.path.isfile'):
            v.ext(n, lambda I, a, k: BOOL.wrap(I, has(w.t(a[0]))))
        for n in ('os.unlink', 'os.remove'):
            v.ext(n, lambda I, a, k: w.remove(w.t(a[0]), False))
        for n in ('os.rename', 'os.replace'):
            v.ext(n, lambda I, a, k: w.move(w.t(a[0]), w.t(a[1])))
        v.ext('zipfile.ZipFile', w.open)
        for n, x in dict(ZIP_STORED=0, ZIP_DEFLATED=8, ZIP_LZMA=14, ZIP_BZIP2=12).items():
            v.ext('zipfile.' + n, x)
        v.zcls.methods.update({'__enter__': lambda I, o, a, k: o, '__exit__': w.close, 'set:comment': lambda I, o, x: None, 'close': w.close})
        w.zip = I.alloc(HInst(v.zcls, {}))

    def derived(w, name, p, x):
        v = w.v
        q = z3.Function(name, v.PATH.sort, STR.sort, v.PATH.sort)(p, v.t(x, STR))
        v.assume(q != p)
        return w.wrap(q)

    def fails(w, where):
        v = w.v
        k = v.choose(4, where)
        if k:
            v.I.raise_([OSError, AssertionError, KeyError][k - 1])

    def touch(w, p):
        w.v.I.mutate(w.touched, 'add', w.wrap(p))

    def remove(w, p, missing_ok):
        I, v = w.v.I, w.v
        if not I.branch(v.PSET.has(v.t(w.files, v.PSET), p), 'there is a file to remove'):
            if missing_ok is True:
                return None
            I.raise_(OSError)
        w.touch(p)
        I.mutate(w.files, 'discard', w.wrap(p))
        return None

    def move(w, p, q):
        I = w.v.I
        w.fails('rename')
        w.touch(p)
        w.touch(q)
        I.mutate(w.files, 'discard', w.wrap(p))
        I.mutate(w.files, 'add', w.wrap(q))
        return w.wrap(q)

    def open(w, I, a, k):
        v = w.v
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        p = w.t(a[0] if a else k['file'])
        if mode == 'r':
            raise Unsupported('an archive is read')
        exists = v.PSET.has(v.t(w.files, v.PSET), p)
        if mode == 'x' and I.branch(exists, 'exists'):
            I.raise_(FileExistsError)
        w.fails('ZipFile before')
        w.touch(p)
        I.mutate(w.files, 'add', w.wrap(p))
        w.fails('ZipFile after')
        return w.zip

    def close(w, I, o, a, k):
        w.fails('close')
        return None


def setup(v):
    w = W(v)
    for n in ('add_data', 'add_code', 'add_meta', 'add_directory', 'add_path', 'add_file', 'add_string_content'):
        v.stub(f'{ZCR}.{n}', lambda I, f, a, k, n=n: w.fails(n))
    v.stub(WS + '.is_valid', lambda I, f, a, k: v.const('is_valid', BOOL))
    ws = v.new(WS, directory=v.const('directory', v.PATH))
    return w, ws


def verdict(v, w, o, dest, F0):
    S = v.PSET
    F, T = v.t(w.files, S), v.t(w.touched, S)
    existed, exists = S.has(F0, dest), S.has(F, dest)
    if o.ok:
        v.check('a save never takes an existing file', Not(existed), keep=False)
        v.check('the archive is there', exists, keep=False)
    else:
        v.check('no archive is left by a failed save', Implies(Not(existed), Not(exists)), keep=False)
    v.check('an existing file is not touched', Implies(existed, And(exists, Not(S.has(T, dest)))), keep=False)
    v.check('other files that were there are not touched', v.forall(v.PATH, lambda p: Implies(And(p != dest, S.has(F0, p)), And(S.has(F, p), Not(S.has(T, p))))), keep=False)
    v.check('no other file is left', v.forall(v.PATH, lambda p: Implies(And(p != dest, S.has(F, p)), S.has(F0, p))), keep=False)


def pack_unit(v):
    w, ws = setup(v)
    dest = v.const('zipfilename', v.PATH)
    F0 = v.t(w.files, v.PSET)
    o = v.attempt(lambda: v.method(ws, 'pack', dest, freeze_time=v.const('freeze_time', STR), comment=v.const('comment', STR)))
    verdict(v, w, o, dest.t, F0)


def store_unit(v):
    w, ws = setup(v)
    v.stub('bead.meta:BeadName.is_wellformed', lambda I, f, a, k: v.const('is_wellformed', BOOL))
    v.PATH.methods['is_dir'] = lambda I, s, a, k: v.const('is_dir', BOOL)
    res = ExtClass('Resolver', dict(index_archive_file=lambda I, o, a, k: None))
    box = v.new('bead.box:Box', name=v.const('box', STR), location=v.const('location', v.PATH), resolver=v.I.alloc(HInst(res, {})))
    name, stamp = v.const('ws_name', STR), v.const('freeze_time', STR)
    v.stub(WS + '.name', lambda I, f, a, k: name)
    F0 = v.t(w.files, v.PSET)
    o = v.attempt(lambda: v.method(box, 'store', ws, stamp))
    S = v.PSET
    F, T = v.t(w.files, S), v.t(w.touched, S)
    if o.ok:
        dest = v.t(o.value, v.PATH)
        v.check('the archive is there', S.has(F, dest), keep=False)
        v.check('a save never takes an existing file', Not(S.has(F0, dest)), keep=False)
        v.check('no other file is made', v.forall(v.PATH, lambda p: Implies(And(S.has(F, p), p != dest), S.has(F0, p))), keep=False)
    else:
        v.check('no file is left by a failed save', v.forall(v.PATH, lambda p: Implies(S.has(F, p), S.has(F0, p))), keep=False)
    v.check('no existing file is touched', v.forall(v.PATH, lambda p: Implies(S.has(F0, p), And(S.has(F, p), Not(S.has(T, p))))), keep=False)


def resolver_unit(cls, fields):
    '''storing does not fail after the archive is there'''
    def unit(v):
        w = Paths(v)
        v.PATH.methods['relative_to'] = lambda I, s, a, k: w.wrap(z3.Function('relative_to', v.PATH.sort, v.PATH.sort, v.PATH.sort)(s.t, w.t(a[0])))

        def init(I, f, a, k):
            if v.choose(2, 'open') == 1:
                exc = v.get('bead.exceptions:InvalidArchive')
                I.raise_(exc)
            I.set_field(a[0], 'archive_filename', a[1])
            I.set_field(a[0], 'name', v.const('archive_name', STR))
            I.set_field(a[0], 'box_name', a[2] if len(a) > 2 else k.get('box_name', ''))
        v.stub('bead.ziparchive:ZipArchive.__init__', init)

        def maybe(ty):
            def stub(I, f, a, k):
                c = v.choose(3, 'metadata')
                if c == 1:
                    I.raise_(KeyError)
                if c == 2:
                    I.raise_(v.get('bead.exceptions:InvalidArchive'))
                return v.I.alloc(HInst(v.conncls, {})) if ty is None else v.const('value', ty)
            return stub
        Z = 'bead.ziparchive:ZipArchive.'
        if not hasattr(v, 'OPAQUE'):
            v.OPAQUE = Abs('Opaque')
            v.LOPAQUE = ListOf(v.OPAQUE)
            ident = lambda I, o, a, k: o
            v.conncls = ExtClass('Connection', dict(__enter__=ident, __exit__=lambda I, o, a, k: None, commit=lambda I, o, a, k: None, rollback=lambda I, o, a, k: None,
                                                    execute=lambda I, o, a, k: o, close=lambda I, o, a, k: None))
        for n in ('kind', 'content_id', 'freeze_time_str', 'location'):
            v.stub(Z + n, maybe(STR) if n != 'location' else (lambda I, f, a, k: v.const('location', STR)))
        v.stub(Z + 'inputs', maybe(v.LOPAQUE))
        v.stub(Z + 'validate', maybe(v.OPAQUE))
        v.stub('bead.bead:Bead.freeze_time', maybe(INSTANT))
        for n in ('insert_bead_record', 'delete_bead_inputs', 'insert_input_record', 'create_update_connection'):
            if v.has('bead.box_index:' + n):
                v.stub('bead.box_index:' + n, maybe(None if 'connection' in n else v.OPAQUE))
        r = v.new(cls, **fields(v, w))
        path = v.const('archive_path', v.PATH)
        o = v.attempt(lambda: v.method(r, 'index_archive_file', path))
        v.check('never fails', z3.BoolVal(o.ok))
    return unit


def raw_fields(v, w):
    return dict(box_directory=v.const('dir', v.PATH), _bead_cache=v.dict(), _path_cache=v.dict())


def index_fields(v, w):
    return dict(box_directory=v.const('dir', v.PATH), index_path=v.const('index_path', v.PATH))


UNITS = [
    Unit('Workspace.pack', pack_unit, mode='abstract'),
    Unit('Box.store', store_unit, mode='abstract'),
    Unit('BoxIndex.index_archive_file', resolver_unit('bead.box_index:BoxIndex', index_fields), mode='abstract'),
    Unit('RawFilesystemResolver.index_archive_file', resolver_unit('bead.box_rawfs:RawFilesystemResolver', raw_fields), mode='abstract'),
]
