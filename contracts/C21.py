'''C21: deleting a tree touches nothing outside it.'''
from contracts.fsmodel import *

ASSUMPTIONS = [
    'os.walk(top, followlinks=False) tells every folder of the tree that is not a link, with the names of its files; links to folders are among its folders and are not entered',
    'os.stat and os.chmod follow links, os.lstat and os.chmod(follow_symlinks=False) do not',
    'shutil.rmtree refuses a link, otherwise deletes every entry of the tree and follows no link; it succeeds when every folder of the tree is writable by the owner',
    'the tree does not change meanwhile',
]
FS = 'bead.tech.fs'
BITS = 13
OWNER_WRITE = 7


class W(Paths):
    def __init__(w, v):
        super().__init__(v)
        I, P = v.I, v.PATH
        if not hasattr(v, 'c21'):
            v.c21 = True
            v.MODE = Rec('Mode', {f'b{i}': BOOL for i in range(BITS)})
            v.MODES = DictOf(P, v.MODE)
            v.PSET = SetOf(P)
            v.PLIST = ListOf(P)
            v.NAMES = ListOf(STR)
            v.islink = z3.Function('islink', P.sort, BOOL.sort)
            v.target = z3.Function('target', P.sort, P.sort)
            v.isdir = z3.Function('isdir', P.sort, BOOL.sort)
            v.tree = z3.Function('in_tree', P.sort, P.sort, BOOL.sort)
            v.stcls = ExtClass('stat_result', dict(__getitem__=lambda I, o, a, k: w.st_item(I, o, a[0])), dict(st_mode=lambda I, o: I.get_field(o, 'mode')))
        w.modes = I.alloc(HSym(v.MODES, v.t(v.const('modes', v.MODES), v.MODES)))
        w.present = I.alloc(HSym(v.PSET, v.t(v.const('present', v.PSET), v.PSET)))
        real = lambda p: If(v.islink(p), v.target(p), p)
        follow = lambda k: k.get('follow_symlinks', True)
        v.ext('os.stat', lambda I, a, k: w.stat(real(w.t(a[0])) if follow(k) else w.t(a[0])))
        v.ext('os.lstat', lambda I, a, k: w.stat(w.t(a[0])))
        v.ext('os.chmod', lambda I, a, k: w.chmod(real(w.t(a[0])) if follow(k) else w.t(a[0]), a[1]))
        v.ext('os.lchmod', lambda I, a, k: w.chmod(w.t(a[0]), a[1]))
        v.ext('os.path.islink', lambda I, a, k: BOOL.wrap(I, v.islink(w.t(a[0]))))
        v.ext('os.path.isdir', lambda I, a, k: BOOL.wrap(I, v.isdir(real(w.t(a[0])))))
        P.methods.update(
            is_symlink=lambda I, s, a, k: BOOL.wrap(I, v.islink(s.t)),
            is_dir=lambda I, s, a, k: BOOL.wrap(I, v.isdir(real(s.t))),
            stat=lambda I, s, a, k: w.stat(real(s.t) if follow(k) else s.t), lstat=lambda I, s, a, k: w.stat(s.t),
            chmod=lambda I, s, a, k: w.chmod(real(s.t) if follow(k) else s.t, a[0]))
        for op, f in (('&', lambda b, c: And(b, c)), ('|', lambda b, c: Or(b, c)), ('^', lambda b, c: z3.Xor(b, c))):
            v.ext('Mode.' + op, lambda I, a, k, f=f: w.bits(f, a[0], a[1]))
        v.ext('shutil.rmtree', w.shutil_rmtree)
        import stat
        for name, c in vars(stat).items():
            if type(c) is int:
                v.ext('stat.' + name, c)

    def st_item(w, I, o, i):
        if i != 0:
            raise Unsupported('another field of stat')
        return I.get_field(o, 'mode')

    def bits(w, f, m, c):
        v = w.v
        if isinstance(m, int):
            m, c = c, m
        if not isinstance(c, int):
            raise Unsupported('not a constant')
        t = v.t(m, v.MODE)
        return v.MODE.wrap(v.I, v.MODE.mk(*[z3.simplify(f(v.MODE.f(f'b{i}', t), z3.BoolVal(bool(c >> i & 1)))) for i in range(BITS)]))

    def mode(w, p):
        return w.v.MODES.get(w.v.t(w.modes, w.v.MODES), p)

    def stat(w, p):
        v = w.v
        return v.I.alloc(HInst(v.stcls, {'mode': v.MODE.wrap(v.I, w.mode(p))}))

    def chmod(w, p, m):
        w.v.I.mutate(w.modes, 'store', w.wrap(p), m)
        return None

    def shutil_rmtree(w, I, a, k):
        v = w.v
        p = w.t(a[0])
        if I.branch(v.islink(p), 'is a link'):
            I.raise_(OSError)
        M = v.t(w.modes, v.MODES)
        v.check('every folder of the tree is writable when it is deleted', v.forall(v.PATH, lambda q: Implies(
            And(v.tree(p, q), v.isdir(q), Not(v.islink(q))), v.MODE.f(f'b{OWNER_WRITE}', v.MODES.get(M, q)))), keep=False)
        P0 = v.t(w.present, v.PSET)
        v.become(w.present, v.PSET, v.t(v.const('present', v.PSET), v.PSET))
        P1 = v.t(w.present, v.PSET)
        v.assume(v.forall(v.PATH, lambda q: v.PSET.has(P1, q) == And(v.PSET.has(P0, q), Not(v.tree(p, q))), patterns=lambda q: [v.PSET.has(P1, q)]))
        return None


def same_bits(v, a, b, but=()):
    return And(*[v.MODE.f(f'b{i}', a) == v.MODE.f(f'b{i}', b) for i in range(BITS) if i not in but])


def chmod_unit(name, on):
    def unit(v):
        w = W(v)
        p = v.const('path', v.PATH)
        v.assume(Not(v.islink(p.t)))
        M0 = v.t(w.modes, v.MODES)
        o = v.attempt(lambda: v.call(f'{FS}:{name}', p))
        M1 = v.t(w.modes, v.MODES)
        v.check('no error', z3.BoolVal(o.ok))
        v.check('the owner-write permission is as asked', v.MODE.f(f'b{OWNER_WRITE}', v.MODES.get(M1, p.t)) == z3.BoolVal(on), keep=False)
        v.check('no other permission changes', same_bits(v, v.MODES.get(M1, p.t), v.MODES.get(M0, p.t), (OWNER_WRITE,)), keep=False)
        v.check('nothing else changes', v.forall(v.PATH, lambda q: Implies(q != p.t, v.MODES.get(M1, q) == v.MODES.get(M0, q))), keep=False)
    return unit


def walk_types(v):
    if not hasattr(v, 'WALK'):
        v.STEP = TupOf(STR, v.NAMES, v.NAMES)
        v.WALK = ListOf(v.STEP)
        v.walks = z3.Function('os_walk', v.PATH.sort, BOOL.sort, v.WALK.sort)


def subpaths_unit(v):
    w = W(v)
    walk_types(v)
    d = v.const('dir', v.PATH)

    def walk(I, a, k):
        fl = k.get('followlinks', a[3] if len(a) > 3 else False)
        if len(a) > 1 and a[1] is not True or k.get('topdown', True) is not True and 'onerror' in k:
            raise Unsupported('os.walk options')
        return I.alloc(HSym(v.WALK, v.walks(w.t(a[0]), v.t(fl, BOOL))))
    v.ext('os.walk', walk)
    X = v.walks(d.t, z3.BoolVal(False))
    step = lambda i: v.WALK.get(X, i)
    inX = lambda i: And(0 <= i, i < v.WALK.n(X))
    root = lambda i: v.path_of(v.STEP.item(0, step(i)))
    files = lambda i: v.STEP.item(2, step(i))
    dirs = lambda i: v.STEP.item(1, step(i))
    names = v.NAMES
    v.assume(v.forall(INT, lambda i: Implies(inX(i), And(v.tree(d.t, root(i)), v.isdir(root(i)), Not(v.islink(root(i))), names.n(files(i)) >= 0, names.n(dirs(i)) >= 0)), patterns=lambda i: [step(i)]))
    v.assume(v.forall([INT, INT], lambda i, j: Implies(And(inX(i), 0 <= j, j < names.n(files(i))), v.tree(d.t, w.join_(root(i), names.get(files(i), j)))),
                      patterns=lambda i, j: [names.get(files(i), j)]))
    v.assume(v.forall([INT, INT], lambda i, j: Implies(And(inX(i), 0 <= j, j < names.n(dirs(i))), v.tree(d.t, w.join_(root(i), names.get(dirs(i), j)))),
                      patterns=lambda i, j: [names.get(dirs(i), j)]))
    # every folder of the tree is walked
    at = z3.Function('walked_at', v.PATH.sort, z3.IntSort())
    v.assume(v.forall(v.PATH, lambda q: Implies(And(v.tree(d.t, q), v.isdir(q), Not(v.islink(q))), And(inX(at(q)), root(at(q)) == q)), patterns=lambda q: [v.tree(d.t, q)]))
    from pyded.pybuiltins import to_list
    o = v.attempt(lambda: to_list(v.I, v.call(FS + ':all_subpaths', d)))
    v.check('no error', z3.BoolVal(o.ok))
    L = v.t(o.value, v.PLIST)
    v.check('everything told is in the tree', v.forall(INT, lambda i: Implies(And(0 <= i, i < v.PLIST.n(L)), v.tree(d.t, v.PLIST.get(L, i)))), keep=False)
    v.check('every folder is told', v.forall(v.PATH, lambda q: Implies(And(v.tree(d.t, q), v.isdir(q), Not(v.islink(q))), v.PLIST.has(L, q))), keep=False)
    v.check('every file is told', v.forall([INT, INT], lambda i, j: Implies(And(inX(i), 0 <= j, j < names.n(files(i))), v.PLIST.has(L, w.join_(root(i), names.get(files(i), j))))), keep=False)


def rmtree_unit(v):
    w = W(v)
    root = v.const('root', v.PATH)
    r = root.t
    L = z3.Function('subpaths', v.PATH.sort, v.PLIST.sort)

    def all_subpaths(I, f, a, k):
        fl = k.get('followlinks', a[1] if len(a) > 1 else False)
        if fl is not False:
            raise Unsupported('links are followed')
        p = w.t(a[0])
        l = L(p)
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < v.PLIST.n(l)), And(v.tree(p, v.PLIST.get(l, i)), v.PLIST.has(l, v.PLIST.get(l, i)))), patterns=lambda i: [v.PLIST.get(l, i)]))
        at = z3.Function('told_at', v.PATH.sort, z3.IntSort())
        v.assume(v.forall(v.PATH, lambda q: Implies(And(v.tree(p, q), v.isdir(q), Not(v.islink(q))), And(v.PLIST.get(l, at(q)) == q, 0 <= at(q), at(q) < v.PLIST.n(l))), patterns=lambda q: [v.tree(p, q)]))
        return I.alloc(HSym(v.PLIST, l))
    v.stub(FS + ':all_subpaths', all_subpaths)
    M0, P0 = v.t(w.modes, v.MODES), v.t(w.present, v.PSET)
    outside = lambda q: Not(v.tree(r, q))

    def chmod(on):
        # contract of make_writable, make_readonly
        def stub(I, f, a, k):
            p = w.t(a[0])
            real = v.target(p) if I.branch(v.islink(p), 'is a link') else p
            m = w.mode(real)
            v.I.mutate(w.modes, 'store', w.wrap(real), v.MODE.wrap(I, v.MODE.mk(*[z3.BoolVal(on) if i == OWNER_WRITE else v.MODE.f(f'b{i}', m) for i in range(BITS)])))
        return stub
    v.stub(FS + ':make_writable', chmod(True))
    v.stub(FS + ':make_readonly', chmod(False))

    def inv(L):
        M = v.t(w.modes, v.MODES)
        at = L.view.at
        return [
            ('permissions outside of the tree stay', v.forall(v.PATH, lambda q: Implies(outside(q), v.MODES.get(M, q) == v.MODES.get(M0, q)), patterns=lambda q: [v.MODES.get(M, q)])),
            ('what was visited is writable', v.forall(INT, lambda j: Implies(And(0 <= j, j < L.i, Not(v.islink(at(j)))), v.MODE.f(f'b{OWNER_WRITE}', v.MODES.get(M, at(j)))), patterns=lambda j: [at(j)])),
        ]
    v.loop(FS + ':*', inv)
    o = v.attempt(lambda: v.call(FS + ':rmtree', root))
    M1, P1 = v.t(w.modes, v.MODES), v.t(w.present, v.PSET)
    v.check('permissions outside of the tree stay', v.forall(v.PATH, lambda q: Implies(Or(outside(q), v.islink(r)), v.MODES.get(M1, q) == v.MODES.get(M0, q))), keep=False)
    v.check('what is outside of the tree is still there', v.forall(v.PATH, lambda q: Implies(Or(outside(q), v.islink(r)), v.PSET.has(P1, q) == v.PSET.has(P0, q))), keep=False)
    if o.ok:
        v.check('everything in the tree is deleted', v.forall(v.PATH, lambda q: Implies(v.tree(r, q), Not(v.PSET.has(P1, q)))), keep=False)
    else:
        v.check('fails only for a link', v.islink(r), keep=False)


def discard_unit(v):
    w = Paths(v)
    d = v.const('directory', v.PATH)
    valid, force = v.const('is_valid', BOOL), v.const('force', BOOL)
    WS = 'bead.workspace:Workspace'
    v.stub(WS + '.is_valid', lambda I, f, a, k: valid)
    deleted = []
    v.stub(FS + ':rmtree', lambda I, f, a, k: deleted.append(w.t(a[0])))
    v.ext('shutil.rmtree', lambda I, a, k: v.fail('deleted without making it writable'))
    v.ext('os.name', 'posix')
    v.ext('sys.stderr.write', lambda I, a, k: None)
    args = v.I.alloc(HInst(ExtClass('Namespace', {}), dict(workspace=v.new(WS, directory=d), force=force)))
    cmd = v.new('bead_cli.workspace:CmdDiscard')
    o = v.attempt(lambda: v.method(cmd, 'run', args, None))
    if deleted:
        v.check('without force only a valid workspace is deleted', Or(force.t, valid.t), keep=False)
        v.check('only its directory is deleted', And(*[p == d.t for p in deleted]), keep=False)
    else:
        v.check('the directory is deleted, unless it is not valid', And(Not(force.t), Not(valid.t)), keep=False)


UNITS = [
    Unit('make_readonly', chmod_unit('make_readonly', False), mode='abstract'),
    Unit('make_writable', chmod_unit('make_writable', True), mode='abstract'),
    Unit('all_subpaths', subpaths_unit, mode='abstract'),
    Unit('rmtree', rmtree_unit, mode='abstract'),
    Unit('CmdDiscard.run', discard_unit, mode='abstract'),
]
