'''C04: unpacking restores the files of a section, inside of the target folder.'''
from contracts.ziparch import *
from contracts.fsmodel import Paths

FS = 'bead.tech.fs'
ASSUMPTIONS = [
    'paths: os.path.normpath, isabs and splitting at / are those of POSIX; normalizing a path does not change the place it names (no symbolic links in the target folder)',
    'a relative path that is normalized and does not begin with .. names a place inside of the folder it is joined to',
    'open(path, "wb") makes or truncates the file of that place only, shutil.copyfileobj copies the rest of the stream or raises an exception',
    'os.makedirs creates the folder and the missing folders above it, nothing else',
    'the entries of a section name different places (otherwise the last one wins)',
    'ZipFile.open gives the bytes of the entry (checked with CRC by the library) or raises an exception',
]
ARCH = 'archive.zip'


class W(Paths):
    def __init__(w, v):
        super().__init__(v)
        I, P = v.I, v.PATH
        first = not hasattr(v, 'c04')
        if first:
            v.c04 = True
            v.PLACE = Abs('Place')
            v.FILES = DictOf(v.PLACE, BYTES)
            v.DIRS = SetOf(v.PLACE)
            v.place = z3.Function('place', P.sort, v.PLACE.sort)
            v.below = z3.Function('is_or_under', v.PLACE.sort, v.PLACE.sort, BOOL.sort)     # below(a, b): b is a, or in it
            v.norm = z3.Function('normpath', STR.sort, STR.sort)
            v.isabs = z3.Function('isabs', STR.sort, BOOL.sort)
            v.comps = z3.Function('components', STR.sort, ListOf(STR).sort) if False else None
            v.PARTS = ListOf(STR)
            v.split = z3.Function('split_at_slash', STR.sort, v.PARTS.sort)
            v.dirname = z3.Function('dirname', STR.sort, STR.sort)
            v.rest = z3.Function('after', STR.sort, STR.sort, STR.sort)
            v.isfile = z3.Function('isfile_of', v.PLACE.sort, v.FILES.sort, BOOL.sort)
            v.filecls = ExtClass('file', {})
        w.zip = ZipModel(v)
        w.files = I.alloc(HSym(v.FILES, v.t(v.const('files', v.FILES), v.FILES)))
        w.dirs = I.alloc(HSym(v.DIRS, v.t(v.const('dirs', v.DIRS), v.DIRS)))
        S = World.strings
        s = lambda x: v.t(x, STR)
        wrap = lambda t: STR.wrap(I, t)
        v.ext('os.path.normpath', lambda I, a, k: wrap(v.norm(w.text_of(a[0]))))
        v.ext('os.path.isabs', lambda I, a, k: BOOL.wrap(I, v.isabs(w.text_of(a[0]))))
        v.ext('os.path.dirname', lambda I, a, k: wrap(v.dirname(w.text_of(a[0]))))
        v.ext('os.sep', '/')
        v.ext('os.path.sep', '/')
        v.ext('os.pardir', '..')
        v.ext('os.path.pardir', '..')
        v.ext('os.makedirs', w.makedirs)
        v.ext('os.path.exists', lambda I, a, k: BOOL.wrap(I, w.exists(w.t(a[0]))))
        v.ext('os.path.isdir', lambda I, a, k: BOOL.wrap(I, v.DIRS.has(w.D(), v.place(w.t(a[0])))))
        P.attrs['parent'] = lambda I, q: w.wrap(w.path_of(v.dirname(w.as_posix(q.t))))
        P.methods.update(
            mkdir=lambda I, q, a, k: w.makedirs(I, [q], k) if k.get('parents') else (_ for _ in ()).throw(Unsupported('mkdir')),
            exists=lambda I, q, a, k: BOOL.wrap(I, w.exists(q.t)),
            is_dir=lambda I, q, a, k: BOOL.wrap(I, v.DIRS.has(w.D(), v.place(q.t))),
            open=lambda I, q, a, k: w.open(I, [q] + a, k),
            write_bytes=lambda I, q, a, k: w.write(I, w.open(I, [q, 'wb'], {}), [a[0]], {}))

        def split(I, a, k):
            if len(a) < 2 or a[1] != '/' or len(a) > 2 or k:
                raise Unsupported('str.split')
            l = v.split(s(a[0]))
            v.assume(v.PARTS.n(l) >= 1)
            return I.alloc(HSym(v.PARTS, l))
        v.ext('str.split', split)
        v.ext('builtins.open', w.open)
        v.filecls.methods.update(write=w.write, __enter__=lambda I, o, a, k: o, __exit__=lambda I, o, a, k: None,
                                 close=lambda I, o, a, k: None)
        v.ext('shutil.copyfileobj', w.copyfileobj)
        pl, at = v.place, w.join_
        v.assume(v.forall(STR, lambda x: pl(w.path_of(v.norm(x))) == pl(w.path_of(x)), patterns=lambda x: [v.norm(x)]))
        B = v.below
        v.assume(v.forall([P, STR], lambda d, r: Implies(Not(w.escapes(r)), B(pl(d), pl(at(d, r)))), patterns=lambda d, r: [at(d, r)]))
        v.ext('str.__getslice__', w.slice)
        v.ext('str.removeprefix', w.removeprefix)

    def length(w, t):
        """len(a + b) is len(a) + len(b)"""
        S = World.strings
        if z3.is_app(t) and t.decl() == S.f_len:
            x = t.arg(0)
            if z3.is_app(x) and x.decl() == S.f_cat:
                return w.length(S.length(x.arg(0))) + w.length(S.length(x.arg(1)))
            for k, c in S.lits.items():
                if c.eq(x):
                    return z3.IntVal(len(k))
            return t
        return t.decl()(*[w.length(c) for c in t.children()]) if z3.is_app(t) and t.num_args() else t

    def slice(w, I, a, k):
        """x[len(p):] is after(p, x)"""
        o, lo, hi, st = a
        if hi is None and st is None and w.pre is not None and isinstance(lo, Sym):
            if z3.is_int_value(d := z3.simplify(w.length(lo.t) - w.length(World.strings.length(w.pre)))) and d.as_long() == 0:
                return STR.wrap(I, w.v.rest(w.pre, w.v.t(o, STR)))

    def removeprefix(w, I, a, k):
        p, x = w.v.t(a[1], STR), w.v.t(a[0], STR)
        if I.branch(World.strings.prefixof(p, x), 'has the prefix'):
            return STR.wrap(I, w.v.rest(p, x))
        return a[0]
    pre = None

    def order(w, d=None):
        '''folders: a partial order, what is above a place is a chain'''
        v = w.v
        B, L, pl = v.below, v.PLACE, v.place
        v.assume(v.forall(L, lambda a: B(a, a), patterns=lambda a: [B(a, a)]))
        if d is not None:
            v.assume(v.forall([L, L], lambda b, c: Implies(And(B(d, c), B(b, c)), Or(B(d, b), B(b, d))), patterns=lambda b, c: [B(b, c)]))
            return
        v.assume(v.forall([L, L, L], lambda a, b, c: Implies(And(B(a, b), B(b, c)), B(a, c)), patterns=lambda a, b, c: [z3.MultiPattern(B(a, b), B(b, c))]))
        v.assume(v.forall(STR, lambda x: B(pl(w.path_of(v.dirname(x))), pl(w.path_of(x))), patterns=lambda x: [v.dirname(x)]))

    def text_of(w, x):
        if isinstance(x, Sym) and x.ty is w.PATH:
            return w.as_posix(x.t)
        return w.v.t(x, STR)

    def escapes(w, r):
        v = w.v
        n = v.norm(r)
        return Or(v.isabs(n), v.PARTS.get(v.split(n), 0) == v.t('..', STR))

    def F(w):
        return w.v.t(w.files, w.v.FILES)

    def D(w):
        return w.v.t(w.dirs, w.v.DIRS)

    def exists(w, p):
        v = w.v
        return Or(v.FILES.has(w.F(), v.place(p)), v.DIRS.has(w.D(), v.place(p)))

    def makedirs(w, I, a, k):
        v = w.v
        p = v.place(w.t(a[0]))
        if v.choose(2, 'makedirs fails') == 1:
            w.some_dirs(p, False)
            I.raise_(OSError)
        w.some_dirs(p, True)

    def some_dirs(w, p, ok):
        v = w.v
        D0 = w.D()
        v.become(w.dirs, v.DIRS, v.t(v.const('dirs', v.DIRS), v.DIRS))
        D1 = w.D()
        has = v.DIRS.has
        v.assume(v.forall(v.PLACE, lambda q: Implies(And(has(D1, q), Not(has(D0, q))), v.below(q, p)), patterns=lambda q: [has(D1, q)]))
        v.assume(v.forall(v.PLACE, lambda q: Implies(has(D0, q), has(D1, q)), patterns=lambda q: [has(D0, q)]))
        if ok:
            v.assume(has(D1, p))

    def open(w, I, a, k):
        v = w.v
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode not in ('wb', 'xb', 'bw'):
            raise Unsupported(f'open with mode {mode!r}')
        p = v.place(w.t(a[0]))
        if v.choose(2, 'open fails') == 1:
            I.raise_(OSError)
        I.mutate(w.files, 'store', v.PLACE.wrap(I, p), BYTES.wrap(I, lit('')))
        return I.alloc(HInst(v.filecls, {'place': v.PLACE.wrap(I, p)}))

    def write(w, I, o, a, k):
        v = w.v
        p = I.get_field(o, 'place')
        old = v.FILES.get(w.F(), p.t)
        I.mutate(w.files, 'store', p, BYTES.wrap(I, cat(old, v.t(a[0], BYTES))))

    def copyfileobj(w, I, a, k):
        v = w.v
        src, dst = a[:2]
        v.check('the stream is open when it is read', v.truth(I.get_field(src, 'open')), keep=False)
        rest = v.t(I.get_field(src, 'rest'), BYTES)
        if v.choose(2, 'copy fails') == 1:
            w.write(I, dst, [v.const('partial', BYTES)], {})
            I.raise_(OSError)
        I.set_field(src, 'rest', BYTES.wrap(I, lit('')))
        w.write(I, dst, [BYTES.wrap(I, rest)], {})

    # contracts
    def only(w, F0, F1, may):
        v, a = w.v, w.v.FILES
        return v.forall(v.PLACE, lambda q: Implies(Not(may(q)), And(a.has(F1, q) == a.has(F0, q), a.get(F1, q) == a.get(F0, q))), patterns=lambda q: [a.get(F1, q)])

    def new_dirs(w, D0, D1, may):
        v, has = w.v, w.v.DIRS.has
        return v.forall(v.PLACE, lambda q: Implies(And(has(D1, q), Not(has(D0, q))), may(q)), patterns=lambda q: [has(D1, q)])

    def restored(w, F, z, q):
        a = w.v.FILES
        return And(a.has(F, q), a.get(F, q) == w.zip.content(z), w.zip.has(z))


def archive(v, w):
    v.ext('zipfile.BadZipFile', v.get('bead.exceptions:InvalidArchive')) if False else None
    v.stub(ZC + '.zipfile', lambda I, f, a, k: w.zip.zip)
    return v.new(ZC, archive_filename=v.const('archive_filename', STR))


def ensure_unit(v):
    w = W(v)
    w.order()
    p = v.const('path', v.PATH)
    D0, F0 = w.D(), w.F()
    o = v.attempt(lambda: v.body(FS + ':ensure_directory', p))
    v.check('only the folder and those above it are created', w.new_dirs(D0, w.D(), lambda q: v.below(q, v.place(p.t))), keep=False)
    v.check('no file changes', w.only(F0, w.F(), lambda q: z3.BoolVal(False)), keep=False)
    if o.ok:
        v.check('there is such a folder', v.DIRS.has(w.D(), v.place(p.t)), keep=False)


def ensure_stub(w):
    v = w.v

    def ensure(I, f, a, k):
        p = v.place(w.t(a[0]))
        if v.choose(2, 'ensure_directory fails') == 1:
            w.some_dirs(p, False)
            I.raise_(OSError)
        w.some_dirs(p, True)
    v.stub(FS + ':ensure_directory', ensure)


def extract_file_unit(v):
    w = W(v)
    a = archive(v, w)
    ensure_stub(w)
    w.order()
    z, p = v.const('zip_path', STR), v.const('fs_path', v.PATH)
    F0, D0 = w.F(), w.D()
    q0 = v.place(p.t)
    o = v.attempt(lambda: v.body(ZC + '.extract_file', a, z, p))
    v.check('no other file changes', w.only(F0, w.F(), lambda q: q == q0), keep=False)
    v.check('only folders above it are created', w.new_dirs(D0, w.D(), lambda q: v.below(q, q0)), keep=False)
    if o.ok:
        v.check('the file has the bytes of the entry', w.restored(w.F(), z.t, q0), keep=False)


def extract_dir_unit(v):
    w = W(v)
    a = archive(v, w)
    ensure_stub(w)
    S = World.strings
    z, d = v.const('zip_dir', STR), v.const('fs_dir', v.PATH)
    w.order(v.place(d.t))
    w.pre = pre = S.concat(z.t, v.t('/', STR))
    rel = lambda x: v.rest(pre, x)
    loc = lambda x: v.place(w.join_(d.t, rel(x)))
    section = lambda x: And(w.zip.has(x), S.prefixof(pre, x))
    entry_at = z3.Function('entry_at', v.PLACE.sort, STR.sort)
    v.assume(v.forall(STR, lambda x: Implies(section(x), entry_at(loc(x)) == x), patterns=lambda x: [S.prefixof(pre, x)]))
    ours = lambda q: And(section(entry_at(q)), loc(entry_at(q)) == q)
    inside = lambda q: v.below(v.place(d.t), q)
    F0, D0 = w.F(), w.D()

    def extract_file(I, f, args, kw):
        args = args + [kw[n] for n in ('zip_path', 'fs_path')[len(args) - 1:]]
        x, q0 = v.t(args[1], STR), v.place(w.t(args[2]))
        Fa, Da = w.F(), w.D()
        v.become(w.files, v.FILES, v.t(v.const('files', v.FILES), v.FILES))
        v.assume(w.only(Fa, w.F(), lambda q: q == q0))
        w.some_dirs(q0, False)
        if v.choose(2, 'extract_file fails') == 1:
            I.raise_(OSError)
        v.assume(w.restored(w.F(), x, q0))
    v.stub(ZC + '.extract_file', extract_file)

    def inv(L):
        at = L.view.at
        F, D = w.F(), w.D()
        return [
            ('the files are restored so far', v.forall(INT, lambda j: Implies(And(0 <= j, j < L.i), w.restored(F, at(j), loc(at(j)))), patterns=lambda j: [at(j)])),
            ('only files of the section change', w.only(F0, F, ours)),
            ('only folders of the target, or above it are created', w.new_dirs(D0, D, lambda q: Or(inside(q), v.below(q, v.place(d.t))))),
        ]
    v.loop(ZC.split(':')[0] + ':*', inv)
    o = v.attempt(lambda: v.body(ZC + '.extract_dir', a, z, d))
    F, D = w.F(), w.D()
    v.check('no file changes outside of the target folder', w.only(F0, F, inside), keep=False)
    v.check('only files of the section change', w.only(F0, F, ours), keep=False)
    v.check('no folder is created outside of the target folder', w.new_dirs(D0, D, lambda q: Or(inside(q), v.below(q, v.place(d.t)))), keep=False)
    if o.ok:
        v.check('every file of the section is restored', v.forall(STR, lambda x: Implies(section(x), w.restored(F, x, loc(x)))), keep=False)
        v.check('every file of the section is inside of the target folder', v.forall(STR, lambda x: Implies(section(x), inside(loc(x)))), keep=False)
    elif v.is_exc(o, 'bead.exceptions:InvalidArchive'):
        v.check('refused only for an entry that is outside', v.exists(STR, lambda x: And(section(x), w.escapes(rel(x)))), keep=False)


def sections_unit(v):
    w = W(v)
    a = archive(v, w)
    d = v.const('fs_dir', v.PATH)
    calls = []
    v.stub(ZC + '.extract_dir', lambda I, f, args, kw: calls.append((args[1], w.t(args[2]))))
    which = v.choose(2)
    v.method(a, ['unpack_data_to', 'unpack_code_to'][which], d)
    v.check('one section is unpacked', z3.BoolVal(len(calls) == 1))
    if len(calls) == 1:
        v.check('the section asked', z3.BoolVal(calls[0][0] == ['data', 'code'][which]))
        v.check('to the given folder', calls[0][1] == d.t, keep=False)


def unpack_unit(v):
    w = W(v)
    a = archive(v, w)
    d = v.const('directory', v.PATH)
    log = []
    meta = v.const('meta', Abs('MetaValue'))
    a = v.new(ZC, archive_filename=v.const('archive_filename', STR))
    v.stub(ZC + '.meta', lambda I, f, a, k: meta)
    v.stub(ZC + '.extract_dir', lambda I, f, args, kw: log.append(('extract', args[1], w.t(args[2]))))
    WS = 'bead.workspace:Workspace'
    v.stub(WS + '.create_directories', lambda I, f, args, kw: log.append(('create',)))
    v.stub(WS + '.meta', lambda I, f, args, kw: log.append(('meta', args[1])) if len(args) > 1 else meta)
    ws = v.new(WS, directory=d)
    v.method(a, 'unpack_to', ws)
    ex = [e for e in log if e[0] == 'extract']
    v.check('the code is extracted to the workspace folder', z3.BoolVal(len(ex) == 1 and ex[0][1] == 'code'))
    if len(ex) == 1:
        v.check('extracted to the workspace folder', ex[0][2] == d.t, keep=False)


UNITS = [
    Unit('fs.ensure_directory', ensure_unit, mode='abstract'),
    Unit('ZipArchive.extract_file', extract_file_unit, mode='abstract'),
    Unit('ZipArchive.extract_dir', extract_dir_unit, mode='abstract'),
    Unit('unpack_data_to, unpack_code_to', sections_unit, mode='abstract'),
    Unit('Archive.unpack_to', unpack_unit, mode='abstract'),
]
