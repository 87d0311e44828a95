'''C03: a saved bead holds exactly the output and code files of the workspace.'''
from contracts.fsmodel import *
from contracts.ziparch import H as _H, sha512, SH

ASSUMPTIONS = [
    'the file system does not change during the save, listdir gives every name once, without / in it',
    'ZipFile.write(path, name) adds an entry of that name with the content of the file, writestr with the given bytes',
    'the folder tree is finite: contracts of the recursive calls are used on subfolders',
    'contract proved elsewhere: securehash (C01)',
]
WS = 'bead.workspace'
ZCR = WS + ':_ZipCreator'


class W(Paths):
    '''An arbitrary folder tree, and the archive being written.'''
    def __init__(w, v):
        super().__init__(v)
        I = v.I
        P = v.PATH.sort
        if not hasattr(v, 'c03'):
            v.c03 = True
            v.isdir = z3.Function('isdir', P, BOOL.sort)
            v.isfile = z3.Function('isfile', P, BOOL.sort)
            v.NAMES = ListOf(STR)
            v.children = z3.Function('children', P, v.NAMES.sort)
            v.BYT = BYTES
            v.content = z3.Function('content', P, v.BYT.sort)
            v.hash = z3.Function('content_hash', v.BYT.sort, STR.sort)
            v.ARCH = DictOf(STR, v.BYT)
            v.HASHES = DictOf(STR, STR)
            v.FILES = z3.Function('FILES', P, STR.sort, STR.sort, P, BOOL.sort)
            v.REG = z3.Function('in_region', STR.sort, STR.sort, BOOL.sort)
            v.slash = z3.Function('has_slash', STR.sort, BOOL.sort)
            v.REGULAR = z3.Function('all_files_or_folders', P, BOOL.sort)
            v.comp = z3.Function('component_after', STR.sort, STR.sort, STR.sort)
            v.fcls = ExtClass('file', {})
            v.zcls = ExtClass('ZipFile', {})
        w.archive = I.alloc(HSym(v.ARCH, v.t(v.const('archive', v.ARCH), v.ARCH)))
        w.hashes = I.alloc(HSym(v.HASHES, v.t(v.const('hashes', v.HASHES), v.HASHES)))
        test = lambda f: lambda I, a, k: BOOL.wrap(I, f(w.t(a[0])))
        v.ext('os.path.isdir', test(v.isdir))
        v.ext('os.path.isfile', test(v.isfile))
        v.PATH.methods.update(is_dir=lambda I, s, a, k: BOOL.wrap(I, v.isdir(s.t)), is_file=lambda I, s, a, k: BOOL.wrap(I, v.isfile(s.t)),
                              iterdir=lambda I, s, a, k: w.iterdir(s.t))
        v.ext('os.listdir', lambda I, a, k: I.alloc(HSym(v.NAMES, v.children(w.t(a[0])))))
        v.ext('os.path.getsize', lambda I, a, k: INT.wrap(I, z3.Function('size', P, z3.IntSort())(w.t(a[0]))))
        v.ext('builtins.open', lambda I, a, k: I.alloc(HInst(v.fcls, {'of': w.wrap(w.t(a[0]))})))
        v.stub(SH + ':file', w.hash_file)
        v.stub(SH + ':bytes', lambda I, f, a, k: STR.wrap(I, v.hash(v.t(a[0], v.BYT))))
        v.zcls.methods.update(write=w.write, writestr=w.writestr)
        w.zip = I.alloc(HInst(v.zcls, {}))
        w.creator = v.new(ZCR, hashes=w.hashes, zipfile=w.zip)
        names = lambda p: v.children(p)
        N = v.NAMES
        v.assume(v.forall([v.PATH, INT, INT], lambda p, i, j: Implies(And(0 <= i, i < j, j < N.n(names(p))), N.get(names(p), i) != N.get(names(p), j)),
                          patterns=lambda p, i, j: [z3.MultiPattern(N.get(names(p), i), N.get(names(p), j))]))
        v.assume(v.forall([v.PATH, INT], lambda p, i: Implies(And(0 <= i, i < N.n(names(p))), Not(v.slash(N.get(names(p), i)))),
                          patterns=lambda p, i: [N.get(names(p), i)]))
        # the files of a path, under a name in the archive
        v.assume(v.forall([v.PATH, STR, STR, v.PATH], lambda p, z, x, q: Implies(
            And(v.isfile(p), Not(v.isdir(p))), v.FILES(p, z, x, q) == And(x == z, q == p)), patterns=lambda p, z, x, q: [v.FILES(p, z, x, q)]))
        v.assume(v.forall([v.PATH, STR, STR, v.PATH], lambda p, z, x, q: Implies(
            v.isdir(p), v.FILES(p, z, x, q) == w.under(p, z, x, q)), patterns=lambda p, z, x, q: [v.FILES(p, z, x, q)]))

    def iterdir(w, p):
        v = w.v
        from pyded.values import GenVal
        L = v.I.alloc(HSym(v.NAMES, v.children(p)))
        return GenVal(lambda step: v.I.iterate(L, lambda f: step(w.wrap(w.join_(p, v.t(f, STR))))), 'iterdir')

    def zj(w, z, f):
        return World.strings.concat(z, w.v.t('/', STR), f)

    def under(w, p, z, x, q, m=None):
        '''x is the entry of file q, in the folder p that goes to z (of its first m members)'''
        v, N = w.v, w.v.NAMES
        c = v.children(p)
        return v.exists(INT, lambda i: And(0 <= i, i < (N.n(c) if m is None else m), v.FILES(w.join_(p, N.get(c, i)), w.zj(z, N.get(c, i)), x, q)))

    def hash_file(w, I, f, a, k):
        o = a[0]
        p = w.t(I.get_field(o, 'of'))
        size = a[1] if len(a) > 1 else k['file_size']
        w.v.check('the size given is that of the file', w.v.t(size, INT) == z3.Function('size', w.v.PATH.sort, z3.IntSort())(p), keep=False)
        return STR.wrap(I, w.v.hash(w.v.content(p)))

    def write(w, I, o, a, k):
        name = a[1] if len(a) > 1 else k['arcname']
        I.mutate(w.archive, 'store', name, w.v.BYT.wrap(I, w.v.content(w.t(a[0]))))

    def writestr(w, I, o, a, k):
        I.mutate(w.archive, 'store', a[0], a[1])

    # state
    def A(w):
        return w.v.t(w.archive, w.v.ARCH)

    def D(w):
        return w.v.t(w.v.getattr(w.creator, 'hashes'), w.v.HASHES)

    def manifest_ok(w, A=None, D=None):
        '''the manifest lists exactly the entries, with their hash'''
        v = w.v
        A, D = w.A() if A is None else A, w.D() if D is None else D
        a, d = v.ARCH, v.HASHES
        return And(v.forall(STR, lambda x: a.has(A, x) == d.has(D, x), patterns=lambda x: [d.has(D, x)]),
                   v.forall(STR, lambda x: a.has(A, x) == d.has(D, x), patterns=lambda x: [a.has(A, x)]),
                   v.forall(STR, lambda x: Implies(d.has(D, x), d.get(D, x) == v.hash(a.get(A, x))), patterns=lambda x: [d.get(D, x)]))

    def added(w, A0, A1, of):
        '''A1 is A0 and the files of the relation of(x, q)'''
        v, a = w.v, w.v.ARCH
        return [
            ('all files are added', v.forall([STR, v.PATH], lambda x, q: Implies(of(x, q), And(a.has(A1, x), a.get(A1, x) == v.content(q))))),
            ('nothing else is added', v.forall(STR, lambda x: Implies(And(a.has(A1, x), Not(a.has(A0, x))), v.exists(v.PATH, lambda q: And(of(x, q), a.get(A1, x) == v.content(q)))),
                                               patterns=lambda x: [a.has(A1, x)])),
            ('what was added before stays', v.forall(STR, lambda x: Implies(a.has(A0, x), And(a.has(A1, x), a.get(A1, x) == a.get(A0, x))), patterns=lambda x: [a.has(A1, x)] if False else [a.has(A0, x)])),
        ]

    def regions(w):
        """x is z, or begins with z/   (see the unit on entry names)"""
        v = w.v
        R = v.REG
        v.assume(v.forall(STR, lambda z: R(z, z), patterns=lambda z: [R(z, z)]))
        v.assume(v.forall([STR, STR, STR], lambda z, f, x: Implies(R(w.zj(z, f), x), R(z, x)), patterns=lambda z, f, x: [R(w.zj(z, f), x)]))
        v.assume(v.forall([STR, STR, STR], lambda z, f, x: Implies(And(R(w.zj(z, f), x), Not(v.slash(f))), v.comp(z, x) == f),
                          patterns=lambda z, f, x: [R(w.zj(z, f), x)]))
        # regular trees
        N = v.NAMES
        v.assume(v.forall(v.PATH, lambda p: Implies(v.REGULAR(p), Or(v.isfile(p), v.isdir(p))), patterns=lambda p: [v.REGULAR(p)]))
        v.assume(v.forall([v.PATH, INT], lambda p, i: Implies(And(v.REGULAR(p), v.isdir(p), 0 <= i, i < N.n(v.children(p))), v.REGULAR(w.join_(p, N.get(v.children(p), i)))),
                          patterns=lambda p, i: [z3.MultiPattern(v.REGULAR(p), N.get(v.children(p), i))]))
        v.assume(v.forall(v.PATH, lambda p: Not(And(v.isfile(p), v.isdir(p))), patterns=lambda p: [z3.MultiPattern(v.isfile(p), v.isdir(p))]))

    def free(w, A, z):
        """nothing is under the name z yet"""
        a = w.v.ARCH
        return w.v.forall(STR, lambda x: Implies(a.has(A, x), Not(w.v.REG(z, x))), patterns=lambda x: [a.has(A, x)])

    def inside(w, z, of):
        return ('all are under the name', w.v.forall([STR, w.v.PATH], lambda x, q: Implies(of(x, q), w.v.REG(z, x))))

    def contract(w, A0, A1, z, of):
        return w.added(A0, A1, of) + [w.inside(z, of), ('the manifest lists exactly the entries', w.manifest_ok())]

    def stub(w, name, of, calls=None):
        v = w.v

        def fn(I, f, args, kw):
            p, z = w.t(args[1]), v.t(args[2], STR)
            A0 = w.A()
            v.check(f'precondition of {name}: manifest', w.manifest_ok(), keep=False)
            v.check(f'precondition of {name}: no entries under the name', w.free(A0, z), keep=False)
            if name == 'add_directory':
                v.check('precondition of add_directory: a folder', v.isdir(p), keep=False)
            if calls is not None:
                calls.append((p, z))
            ok = v.REGULAR(p) if name != 'add_file' else v.isfile(p)
            if not I.branch(ok, 'regular') and v.choose(2, 'fails') == 1:
                I.raise_(AssertionError)
            v.become(w.archive, v.ARCH, v.t(v.const('archive', v.ARCH), v.ARCH))
            v.become(w.hashes, v.HASHES, v.t(v.const('hashes', v.HASHES), v.HASHES))
            for _, t in w.contract(A0, w.A(), z, lambda x, q: of(p, z, x, q)):
                v.assume(t)
            return None
        v.stub(f'{ZCR}.{name}', fn)

    def loop(w, where, p, z, at):
        """first i members of folder p are added under z; at(L): names in the order of the loop"""
        v = w.v
        g = {}

        def inv(L):
            if 'A0' not in g:
                g['A0'] = w.A()
            f, i = at(L), L.i
            cond = w.cond
            of = lambda x, q: v.exists(INT, lambda k: And(0 <= k, k < i, cond(f(k)), v.FILES(w.join_(p, f(k)), w.zj(z, f(k)), x, q)))
            return w.added(g['A0'], w.A(), of) + [
                ('each is under its name', v.forall([INT, STR, v.PATH], lambda k, x, q: Implies(
                    And(0 <= k, k < i, cond(f(k)), v.FILES(w.join_(p, f(k)), w.zj(z, f(k)), x, q)), v.REG(w.zj(z, f(k)), x)))),
                ('the manifest lists exactly the entries', w.manifest_ok())]
        v.loop(where, inv)
    cond = staticmethod(lambda f: z3.BoolVal(True))


FILES_OF = lambda v: lambda p, z, x, q: v.FILES(p, z, x, q)


def outcome(v, w, o, A0, z, of, p):
    if o.ok:
        for label, t in w.contract(A0, w.A(), z, of):
            v.check(label, t, keep=False)
    else:
        v.check('fails only when something is not a file or a folder', Not(v.REGULAR(p)), keep=False)


def add_file_unit(v):
    w = W(v)
    p, z = v.const('path', v.PATH), v.const('zip_path', STR)
    v.assume(w.manifest_ok())
    A0 = w.A()
    o = v.attempt(lambda: v.body(ZCR + '.add_file', w.creator, p, z))
    if o.ok:
        for label, t in w.added(A0, w.A(), lambda x, q: And(x == z.t, q == p.t)):
            v.check(label, t, keep=False)
        v.check('the manifest lists exactly the entries', w.manifest_ok(), keep=False)
    else:
        v.check('fails only when there is such an entry', v.ARCH.has(A0, z.t), keep=False)


def begin(v):
    w = W(v)
    w.regions()
    p, z = v.const('path', v.PATH), v.const('zip_path', STR)
    v.assume(w.manifest_ok())
    v.assume(w.free(w.A(), z.t))
    return w, p, z, w.A()


def add_path_unit(v):
    w, p, z, A0 = begin(v)
    w.stub('add_file', lambda p, z, x, q: And(x == z, q == p))
    w.stub('add_directory', lambda p, z, x, q: w.under(p, z, x, q))
    o = v.attempt(lambda: v.body(ZCR + '.add_path', w.creator, p, z))
    outcome(v, w, o, A0, z.t, lambda x, q: v.FILES(p.t, z.t, x, q), p.t)


def add_directory_unit(v):
    w, p, z, A0 = begin(v)
    v.assume(v.isdir(p.t))
    w.stub('add_path', FILES_OF(v))
    w.stub('add_file', lambda p, z, x, q: And(x == z, q == p))
    w.stub('add_directory', FILES_OF(v))
    w.loop(ZCR + '.*', p.t, z.t, lambda L: L.view.at)
    o = v.attempt(lambda: v.body(ZCR + '.add_directory', w.creator, p, z))
    outcome(v, w, o, A0, z.t, lambda x, q: w.under(p.t, z.t, x, q), p.t)


IN, OUT, TEMP, META = 'input', 'output', 'temp', '.bead-meta'


def spec_types(v):
    if not hasattr(v, 'c03spec'):
        v.c03spec = True
        v.INSPEC = Rec('InputSpec', dict(name=STR, kind=STR, content_id=STR, freeze_time_str=STR), cls='bead.meta:InputSpec')
        v.INSPECS = ListOf(v.INSPEC)
        v.INDICT = DictRec('InputDict', dict(kind=STR, content_id=STR, freeze_time=STR))
        v.wscls = ExtClass('Workspace', {})
    v.I.dict_recs = [v.INDICT]
    v.I.records['bead.meta:InputSpec'] = v.INSPEC


def workspace(v, w, **more):
    spec_types(v)
    f = dict(directory=v.const('directory', v.PATH), kind=v.const('kind', STR), name=v.const('name', STR),
             inputs=v.const('inputs', v.INSPECS), is_valid=True)
    f.update(more)
    return v.I.alloc(HInst(v.wscls, f))


def create_unit(v):
    w = W(v)
    w.regions()
    ws = workspace(v, w)
    d = v.getattr(ws, 'directory').t
    L = lambda x: v.t(x, STR)
    for z in ('data', 'code'):      # a name made of literals is one literal
        v.assume(v.forall(STR, lambda f: World.strings.f_cat(World.strings.f_cat(L(z), L('/')), f) == w.zj(L(z), f), patterns=lambda f: [w.zj(L(z), f)]))
        v.assume(v.forall(STR, lambda f: And(v.REG(L(z), w.zj(L(z), f))), patterns=lambda f: [w.zj(L(z), f)]))
        v.assume(v.forall([STR, STR], lambda f, x: Implies(v.REG(w.zj(L(z), f), x), And(v.REG(L(z), x), Implies(Not(v.slash(f)), v.comp(L(z), x) == f))),
                          patterns=lambda f, x: [v.REG(w.zj(L(z), f), x)]))
    v.assume(v.forall(STR, lambda x: Implies(v.REG(L('data'), x), And(Not(v.REG(L('code'), x)), x != L('meta/bead'), x != L('meta/manifest'))), patterns=lambda x: [v.REG(L('data'), x)]))
    v.assume(v.forall(STR, lambda x: Implies(v.REG(L('code'), x), And(x != L('meta/bead'), x != L('meta/manifest'))), patterns=lambda x: [v.REG(L('code'), x)]))
    # the folders of a valid workspace, and nothing but files and folders where code and output are
    out = w.join(d, OUT)
    N = v.NAMES
    c = v.children(d)
    iscode = lambda f: And(*[f != L(x) for x in (IN, OUT, TEMP, META)])
    v.assume(And(v.isdir(d), v.isdir(out)))
    regular = And(v.REGULAR(out), v.forall(INT, lambda i: Implies(And(0 <= i, i < N.n(c), iscode(N.get(c, i))), v.REGULAR(w.join_(d, N.get(c, i)))), patterns=lambda i: [N.get(c, i)]))
    zips = []

    def ZipFile(I, a, k):
        mode = k.get('mode', a[1] if len(a) > 1 else 'r')
        v.check('one archive is written', z3.BoolVal(not zips and mode in ('w', 'x')), keep=False)
        zips.append(a[0] if a else k['file'])
        v.become(w.archive, v.ARCH, v.ARCH.empty())
        return w.zip
    v.ext('zipfile.ZipFile', ZipFile)
    for n, x in dict(ZIP_STORED=0, ZIP_DEFLATED=8, ZIP_LZMA=14, ZIP_BZIP2=12).items():
        v.ext('zipfile.' + n, x)
    v.zcls.methods.update({'__enter__': lambda I, o, a, k: o, '__exit__': lambda I, o, a, k: None, 'set:comment': lambda I, o, x: None,
                           'close': lambda I, o, a, k: None})
    manifests = []

    def dumps(I, f, a, k):
        x = a[0]
        items = I.concrete_items(x) if I.h(x).__class__ is HDict else None
        if items is not None and 'meta_version' in items:
            return v.const('meta_text', STR)
        text = v.const('manifest_text', STR)
        manifests.append((v.HASHES.unwrap(I, x), text.t))
        return text
    v.stub('bead.tech.persistence:dumps', dumps)
    w.stub('add_directory', lambda p, z, x, q: w.under(p, z, x, q))
    w.stub('add_path', FILES_OF(v))
    # a file of the workspace folder, added as code
    at = lambda L: L.view.at
    w.cond = lambda f: iscode(f)
    src = {}

    def names_of(Lv):
        src['at'], src['n'] = Lv.view.at, Lv.view.n
        return Lv.view.at
    w.loop(ZCR + '.*', d, L('code'), names_of)
    creator = v.call(ZCR)
    v.setattr(creator, 'hashes', w.hashes)
    v.become(w.hashes, v.HASHES, v.HASHES.empty())
    w.creator = creator
    o = v.attempt(lambda: v.method(creator, 'create', v.const('zip_file_name', v.PATH), ws, v.const('timestamp', STR), v.const('comment', STR)))
    if not o.ok:
        v.check('fails only when something is not a file or a folder', Not(regular), keep=False)
        return
    A = w.A()
    a = v.ARCH
    data = lambda x, q: w.under(out, L('data'), x, q)
    code = lambda x, q: v.exists(INT, lambda i: And(0 <= i, i < N.n(c), iscode(N.get(c, i)), v.FILES(w.join_(d, N.get(c, i)), w.zj(L('code'), N.get(c, i)), x, q)))
    for what, rel in (('output', data), ('code', code)):
        v.check(f'every {what} file is in the archive', v.forall([STR, v.PATH], lambda x, q: Implies(rel(x, q), And(a.has(A, x), a.get(A, x) == v.content(q)))), keep=False)
    for what, z, rel in (('data', 'data', data), ('code', 'code', code)):
        v.check(f'nothing else is in the {what} section', v.forall(STR, lambda x: Implies(And(a.has(A, x), v.REG(L(z), x)), v.exists(v.PATH, lambda q: And(rel(x, q), a.get(A, x) == v.content(q))))), keep=False)
    v.check('other entries are the metadata and the manifest', v.forall(STR, lambda x: Implies(And(a.has(A, x), Not(v.REG(L('data'), x)), Not(v.REG(L('code'), x))), Or(x == L('meta/bead'), x == L('meta/manifest')))), keep=False)
    v.check('one manifest', z3.BoolVal(len(manifests) == 1))
    M, text = manifests[-1]
    m = v.HASHES
    v.check('the manifest lists every other entry', v.forall(STR, lambda x: m.has(M, x) == And(a.has(A, x), x != L('meta/manifest'))), keep=False)
    v.check('with the hash of its content', v.forall(STR, lambda x: Implies(m.has(M, x), m.get(M, x) == v.hash(a.get(A, x)))), keep=False)
    enc = z3.Function('encode:abstract', STR.sort, BYTES.sort)
    v.check('the manifest entry is the manifest', And(a.has(A, L('meta/manifest')), a.get(A, L('meta/manifest')) == enc(text)), keep=False)


def names_unit(v):
    """the facts on entry names that the other units use"""
    z, f, g, x = (v.const(n, STR).t for n in ('z', 'f', 'g', 'x'))
    c = lambda *ts: z3.Concat(*ts)
    sl = z3.StringVal('/')
    R = lambda z, x: Or(x == z, z3.PrefixOf(c(z, sl), x))
    noslash = lambda f: Not(z3.Contains(f, sl))
    v.check('a name is under itself', R(z, z))
    v.check('what is under a member is under the folder', Implies(R(c(z, sl, f), x), R(z, x)))
    # rest of the name after z/, with a / at its end
    y = v.const('y', STR).t
    v.assume(c(x, sl) == c(z, sl, y))
    v.lemma('under a member: the rest begins with the name of the member', Implies(R(c(z, sl, f), x), z3.PrefixOf(c(f, sl), y)))
    v.check('the name of the member is determined', Implies(And(z3.PrefixOf(c(f, sl), y), z3.PrefixOf(c(g, sl), y), noslash(f), noslash(g)), f == g), keep=False)
    d, k = z3.StringVal('data'), z3.StringVal('code')
    v.check('data and code are apart', And(Not(And(R(d, x), R(k, x))), *[Not(R(a, z3.StringVal(m))) for a in (d, k) for m in ('meta/bead', 'meta/manifest')]), keep=False)


UNITS = [
    Unit('add_file', add_file_unit, mode='abstract'),
    Unit('add_path', add_path_unit, mode='abstract'),
    Unit('add_directory', add_directory_unit, mode='abstract'),
    Unit('entry names', names_unit),
    Unit('create', create_unit, mode='abstract'),
]
