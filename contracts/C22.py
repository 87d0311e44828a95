'''C22: the workspace of a directory is its nearest enclosing valid workspace.'''
from contracts.fsmodel import *

ASSUMPTIONS = [
    'os.getcwd() is the absolute path of the current directory, resolve() leaves it and its parents as they are',
    'the folders do not change while they are looked at',
    'the search ends: a path has finitely many ancestors',
]
WS = 'bead.workspace:Workspace'


class W(Paths):
    def __init__(w, v):
        super().__init__(v)
        I, P = v.I, v.PATH.sort
        if not hasattr(v, 'c22'):
            v.c22 = True
            v.isdir = z3.Function('isdir', P, BOOL.sort)
            v.isfile = z3.Function('isfile', P, BOOL.sort)
            v.exists_ = z3.Function('exists', P, BOOL.sort)
            v.anc = z3.Function('ancestor', z3.IntSort(), P)
            v.PLIST = ListOf(v.PATH)
        test = lambda f: lambda I, a, k: BOOL.wrap(I, f(w.t(a[0])))
        m = lambda f: lambda I, s, a, k: BOOL.wrap(I, f(s.t))
        v.ext('os.path.isdir', test(v.isdir))
        v.ext('os.path.isfile', test(v.isfile))
        v.ext('os.path.exists', test(v.exists_))
        v.PATH.methods.update(is_dir=m(v.isdir), is_file=m(v.isfile), exists=m(v.exists_), resolve=lambda I, s, a, k: s,
                              absolute=lambda I, s, a, k: s)
        v.assume(v.forall(v.PATH, lambda p: And(Implies(Or(v.isdir(p), v.isfile(p)), v.exists_(p)), Not(And(v.isdir(p), v.isfile(p)))),
                          patterns=lambda p: [v.isdir(p), v.isfile(p)]))

    def valid(w, d):
        v = w.v
        return And(*[v.isdir(w.join(d, x)) for x in ('input', 'output', 'temp')], v.isfile(w.join(d, '.bead-meta/bead')))


def valid_unit(v):
    w = W(v)
    ws = v.call(WS, v.const('directory', v.PATH))
    d = v.getattr(ws, 'directory')
    o = v.attempt(lambda: v.getattr(ws, 'is_valid'))
    v.check('no error', z3.BoolVal(o.ok))
    v.check('valid exactly when all folders and the metadata are there', v.truth(o.value) == w.valid(d.t), keep=False)


def init_unit(v):
    w = W(v)
    d = v.const('directory', v.PATH)
    ws = v.call(WS, d)
    v.check('the workspace is of the given directory', v.t(v.getattr(ws, 'directory'), v.PATH) == d.t)


def nearest_unit(v):
    w = W(v)
    cwd = v.const('cwd', STR)
    v.ext('os.getcwd', lambda I, a, k: cwd)
    v.ext('pathlib.Path.cwd', lambda I, a, k: w.wrap(w.path_of(cwd.t)))
    if not hasattr(v, 'WSREC'):
        v.WSREC = Rec('Workspace', dict(directory=v.PATH), cls=WS)
    v.I.records[WS] = v.WSREC
    dirof = lambda x: x.t if isinstance(x, Sym) and x.ty is v.PATH else v.t(v.getattr(x, 'directory'), v.PATH)
    valid = z3.Function('is_valid', v.PATH.sort, BOOL.sort)
    v.stub(WS + '.is_valid', lambda I, f, a, k: BOOL.wrap(I, valid(dirof(a[0]))))
    anc = v.anc
    v.assume(anc(0) == w.path_of(cwd.t))
    v.assume(v.forall(INT, lambda k: Implies(k >= 0, w.parent(anc(k)) == anc(k + 1)), patterns=lambda k: [anc(k)]))
    top = v.const('root', INT).t          # the root is its own parent
    v.assume(top >= 0)
    v.assume(v.forall(INT, lambda k: Implies(And(0 <= k, k < top), anc(k) != anc(k + 1)), patterns=lambda k: [anc(k)]))
    v.assume(v.forall(INT, lambda k: Implies(k >= top, anc(k) == anc(top)), patterns=lambda k: [anc(k)]))
    parents = v.const('parents', v.PLIST)
    pt = v.t(parents, v.PLIST)
    v.assume(v.PLIST.n(pt) == top)
    v.assume(v.forall(INT, lambda k: Implies(And(0 <= k, k < top), v.PLIST.get(pt, k) == anc(k + 1)), patterns=lambda k: [v.PLIST.get(pt, k)]))

    def parents_of(I, s):
        if not I.branch(s.t == anc(0), 'parents of the current directory'):
            raise Unsupported('parents of another path')
        return parents
    v.PATH.attrs['parents'] = parents_of

    def is_place(x):
        return isinstance(x, Sym) and x.ty in (v.PATH, v.WSREC) or isinstance(x, Obj) and isinstance(v.I.h(x), HInst) and 'directory' in v.I.h(x).fields

    def inv(L):
        if L.view is not None:      # for loop on the parents
            place = lambda j: L.view.at(j) if L.view.ty is v.PATH else v.WSREC.f('directory', L.view.at(j))
            own = v.hint(v.forall(INT, lambda j: Implies(And(0 <= j, j < L.n), place(j) == anc(j)), patterns=lambda j: [L.view.at(j)]))
            off = 0 if own else 1       # with the current directory, or its parents only
            return [('those before are not valid', And(Not(valid(anc(0))) if not own else True, v.forall(
                INT, lambda j: Implies(And(off <= j, j < L.i + off), Not(valid(anc(j)))), patterns=lambda j: [anc(j)])))]
        cur = dirof(L.roles('ws', ['ws'], is_place)[0])
        return [('an ancestor, those before are not valid', v.exists(INT, lambda k: And(
            0 <= k, k <= top, cur == anc(k), v.forall(INT, lambda j: Implies(And(0 <= j, j < k), Not(valid(anc(j)))), patterns=lambda j: [anc(j)]))))]
    v.loop('bead.workspace:*', inv, prefer=True)
    o = v.attempt(lambda: v.call(v.getattr(v.get(WS), 'for_current_working_directory')))
    v.check('no error', z3.BoolVal(o.ok))
    r = dirof(o.value)
    nearest = lambda k: And(0 <= k, k <= top, r == anc(k), valid(anc(k)), v.forall(INT, lambda j: Implies(And(0 <= j, j < k), Not(valid(anc(j)))), patterns=lambda j: [anc(j)]))
    none = v.forall(INT, lambda j: Implies(And(0 <= j, j <= top), Not(valid(anc(j)))), patterns=lambda j: [anc(j)])
    v.check('the nearest valid one, or the current directory', Or(v.exists(INT, nearest), And(none, r == anc(0))), keep=False)


UNITS = [
    Unit('Workspace.__init__', init_unit, mode='abstract'),
    Unit('Workspace.is_valid', valid_unit, mode='abstract'),
    Unit('for_current_working_directory', nearest_unit, mode='abstract'),
]
