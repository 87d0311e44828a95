'''C13: the list of known boxes.'''
from contracts.disk import Disk
from contracts.fsmodel import *

M = 'bead_cli.environment'
ENV = M + ':Environment'
BOX = 'bead.box:Box'

ASSUMPTIONS = [
    'pathlib: Path(p.as_posix()) == p, Path(p) == p',
    'json: what is loaded is equal to what was dumped (objects with string keys, lists, strings)',
    'the file is what was written last to it',
]
NOT_COVERED = ['argument parsing of the box commands', 'what box list prints']


class W:
    def __init__(w, v):
        w.v = v
        Paths(v)
        v.PATH.methods['exists'] = lambda I, s, a, k: BOOL.wrap(I, z3.Const('exists', BOOL.sort))
        if not hasattr(v, 'c13'):
            v.c13 = True
            v.SPEC = DictRec('BoxSpec', dict(name=STR, directory=STR))
            v.SPECS = ListOf(v.SPEC)
            v.BOX = Rec('Box', dict(name=STR, location=v.PATH), cls=BOX)
            v.BOXES = ListOf(v.BOX)
        I = v.I
        I.dict_recs = [v.SPEC]
        I.records[BOX] = v.BOX
        v.stub(BOX + '._create_resolver', lambda I, f, a, k: None)

    def env(w, empty=False):
        v = w.v
        if empty:
            w.specs = None
            content = v.dict({})
            w.S = v.SPECS.empty()
        else:
            w.specs = v.const('specs', v.SPECS)
            w.S = v.t(w.specs, v.SPECS)
            content = v.dict({'boxes': w.specs})
            # locations are those of paths
            v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < v.SPECS.n(w.S)), w.posix(v.SPEC.f('directory', v.SPECS.get(w.S, i)))),
                              patterns=lambda i: [v.SPECS.get(w.S, i)]))
        return v.new(ENV, filename=v.const('filename', v.PATH), _content=content)

    def posix(w, s):
        return w.v.as_posix(w.v.path_of(s)) == s

    def stored(w, env):
        '''the specs of the environment'''
        v = w.v
        d = v.I.dict_items(v.getattr(env, '_content'))
        if d is None:
            raise Unsupported('content of the environment is not a dict')
        return v.SPECS.unwrap(v.I, d['boxes']) if 'boxes' in d else v.SPECS.empty()

    def box(w, i, S=None):
        '''box for spec number i'''
        v = w.v
        s = v.SPECS.get(w.S if S is None else S, i)
        return v.SPEC.f('name', s), v.path_of(v.SPEC.f('directory', s))

    def check_same(w, env, what):
        v = w.v
        S = w.stored(env)
        v.check(what, And(v.SPECS.n(S) == v.SPECS.n(w.S), v.forall(INT, lambda i: Implies(
            And(0 <= i, i < v.SPECS.n(S)), v.SPECS.get(S, i) == v.SPECS.get(w.S, i)))), keep=False)


def with_env(f):
    def unit(v):
        w = W(v)
        env = w.env(v.choose(2, 'no boxes yet') == 1)
        f(v, w, env)
    return unit


@with_env
def get_boxes_unit(v, w, env):
    r = v.call(ENV + '.get_boxes', env)
    R = v.BOXES.unwrap(v.I, r)
    n = v.SPECS.n(w.S)
    v.check('one box for each definition', v.BOXES.n(R) == n, keep=False)
    v.check('the boxes are as defined, in order', v.forall(INT, lambda i: Implies(And(0 <= i, i < n), And(
        v.BOX.f('name', v.BOXES.get(R, i)) == w.box(i)[0], v.BOX.f('location', v.BOXES.get(R, i)) == w.box(i)[1]))), keep=False)
    w.check_same(env, 'the list is as it was')


@with_env
def add_unit(v, w, env):
    name, directory = v.const('name', STR), v.const('directory', v.PATH)
    o = v.attempt(lambda: v.method(env, 'add_box', name, directory))
    n = v.SPECS.n(w.S)
    i = v.const('i', INT).t
    used = v.exists(INT, lambda i: And(0 <= i, i < n, Or(w.box(i)[0] == name.t, w.box(i)[1] == directory.t)))
    if o.ok:
        S = w.stored(env)
        v.check('refused when the name or the location is used', Not(used), keep=False)
        v.check('one box is added', v.SPECS.n(S) == n + 1, keep=False)
        v.check('the box is as asked', And(v.SPEC.f('name', v.SPECS.get(S, n)) == name.t,
                                          w.box(n, S)[1] == directory.t), keep=False)
        v.check('others are as they were', v.forall(INT, lambda i: Implies(And(0 <= i, i < n), v.SPECS.get(S, i) == v.SPECS.get(w.S, i))), keep=False)
    else:
        v.check('the error is ValueError', z3.BoolVal(v.is_exc(o, ValueError)))
        v.check('refused only when the name or the location is used', used, keep=False)
        w.check_same(env, 'the list is as it was when refused')


@with_env
def forget_unit(v, w, env):
    name = v.const('name', STR)
    o = v.attempt(lambda: v.method(env, 'forget_box', name))
    v.check('no error', z3.BoolVal(o.ok))
    S = w.stored(env)
    nm = lambda i, S: v.SPEC.f('name', v.SPECS.get(S, i))
    n = v.SPECS.n(S)
    v.check('no box has the name', v.forall(INT, lambda i: Implies(And(0 <= i, i < n), nm(i, S) != name.t)), keep=False)
    v.check('no other box is forgotten', v.forall(v.SPEC, lambda s: Implies(And(v.SPECS.has(w.S, s), v.SPEC.f('name', s) != name.t), v.SPECS.has(S, s))), keep=False)
    v.check('no new boxes', v.forall(v.SPEC, lambda s: Implies(v.SPECS.has(S, s), v.SPECS.has(w.S, s))), keep=False)
    # order: the boxes that stay are a subsequence
    v.check('the order of the others is kept', v.forall([INT, INT, INT, INT], lambda i, j, a, b: Implies(And(
        0 <= i, i < j, j < n, 0 <= a, a < v.SPECS.n(w.S), 0 <= b, b < v.SPECS.n(w.S),
        v.SPECS.get(S, i) == v.SPECS.get(w.S, a), v.SPECS.get(S, j) == v.SPECS.get(w.S, b),
        v.forall([INT, INT], lambda x, y: Implies(And(0 <= x, x < y, y < v.SPECS.n(w.S)), nm(x, w.S) != nm(y, w.S)))), a < b)), keep=False)


@with_env
def get_unit(v, w, env):
    name = v.const('name', STR)
    o = v.attempt(lambda: v.method(env, 'get_box', name))
    v.check('no error', z3.BoolVal(o.ok))
    n = v.SPECS.n(w.S)
    known = v.exists(INT, lambda i: And(0 <= i, i < n, w.box(i)[0] == name.t))
    if o.value is None:
        v.check('nothing is found only for an unknown name', Not(known), keep=False)
    else:
        r = v.t(o.value, v.BOX)
        v.check('the box found is the one defined with the name', And(v.BOX.f('name', r) == name.t, v.exists(INT, lambda i: And(
            0 <= i, i < n, w.box(i)[0] == name.t, w.box(i)[1] == v.BOX.f('location', r)))), keep=False)
    k = v.truth(v.method(env, 'is_known_box', name))
    v.check('known exactly when defined', k == known, keep=False)


@with_env
def save_unit(v, w, env):
    '''saved and loaded'''
    disk = Disk(v, fails=False)
    text = v.const('json', STR)
    saved = []

    def dumps(I, f, a, k):
        if not a[0] == v.getattr(env, '_content'):
            raise Unsupported('what is saved?')
        saved.append(w.stored(env))
        return text

    def loads(t):
        v.check('what is loaded is what was saved', t == text.t, keep=False)
        return v.dict({'boxes': v.I.alloc(HSym(v.SPECS, saved[-1]))})
    v.stub('bead.tech.persistence:dumps', dumps)
    v.stub('bead.tech.persistence:dump', lambda I, f, a, k: I.call(I.getattr(a[1], 'write'), [dumps(I, f, a, k)], {}))
    v.stub('bead.tech.persistence:loads', lambda I, f, a, k: loads(v.t(a[0], STR)))
    v.stub('bead.tech.persistence:load', lambda I, f, a, k: loads(v.t(I.call(I.getattr(a[0], 'read'), [], {}), STR)))
    o = v.attempt(lambda: v.method(env, 'save'))
    v.check('no error', z3.BoolVal(o.ok))
    w.check_same(env, 'the list is as it was')
    o = v.attempt(lambda: v.call(ENV, v.getattr(env, 'filename')))
    v.check('no error', z3.BoolVal(o.ok))
    w.check_same(o.value, 'the loaded list is the saved one')


class Commands:
    '''the commands, with a file that has what was saved last'''
    def __init__(c, v, w, env):
        c.v, c.w, c.env = v, w, env
        c.file = w.S
        c.is_dir = z3.Function('is_existing_directory', v.PATH.sort, BOOL.sort)
        c.resolved = z3.Function('resolved', v.PATH.sort, v.PATH.sort)
        v.PATH.methods.update(
            is_dir=lambda I, s, a, k: BOOL.wrap(I, c.is_dir(s.t)),
            resolve=lambda I, s, a, k: v.PATH.wrap(I, c.resolved(s.t)))
        v.ext('os.path.isdir', lambda I, a, k: BOOL.wrap(I, c.is_dir(v.t(a[0], v.PATH))))
        v.stub(ENV + '.save', c.save)

    def save(c, I, f, a, k):
        if c.v.choose(2, 'save'):
            I.raise_(OSError)
        c.file = c.w.stored(a[0])

    def run(c, cls, **args):
        v = c.v
        return v.attempt(lambda: v.method(v.new(cls), 'run', v.I.alloc(HInst(ExtClass('Namespace', {}), args)), c.env))

    def failed(c, o):
        '''when it could not be saved'''
        c.v.check('the error is that of saving', z3.BoolVal(c.v.is_exc(o, OSError)))
        c.same(c.file, c.w.S, 'the saved list is as it was after an error')

    def same(c, A, B, what):
        v = c.v
        v.check(what, And(v.SPECS.n(A) == v.SPECS.n(B), v.forall(INT, lambda i: Implies(And(0 <= i, i < v.SPECS.n(A)), v.SPECS.get(A, i) == v.SPECS.get(B, i)))), keep=False)


@with_env
def add_command_unit(v, w, env):
    c = Commands(v, w, env)
    name, directory = v.const('name', STR), v.const('directory', v.PATH)
    o = c.run('bead_cli.box:CmdAdd', name=name, directory=directory)
    if not o.ok:
        return c.failed(o)
    d, S = c.resolved(directory.t), c.file
    n = v.SPECS.n(w.S)
    used = v.exists(INT, lambda i: And(0 <= i, i < n, Or(w.box(i)[0] == name.t, w.box(i)[1] == d)))
    asked = And(c.is_dir(directory.t), Not(used))
    v.check('the saved list grows exactly when the folder exists, and its name and location are not used', And(
        Implies(asked, v.SPECS.n(S) == n + 1), Implies(Not(asked), v.SPECS.n(S) == n)), keep=False)
    v.check('boxes in the saved list stay', v.forall(INT, lambda i: Implies(And(0 <= i, i < n), v.SPECS.get(S, i) == v.SPECS.get(w.S, i))), keep=False)
    v.check('the new box in the saved list is as asked', Implies(asked, And(v.SPEC.f('name', v.SPECS.get(S, n)) == name.t, w.box(n, S)[1] == d)), keep=False)


@with_env
def forget_command_unit(v, w, env):
    c = Commands(v, w, env)
    name = v.const('name', STR)
    o = c.run('bead_cli.box:CmdForget', name=name)
    if not o.ok:
        return c.failed(o)
    S = c.file
    nm = lambda s: v.SPEC.f('name', s)
    v.check('the saved list has exactly the boxes with other names', v.forall(v.SPEC, lambda s: v.SPECS.has(S, s) == And(v.SPECS.has(w.S, s), nm(s) != name.t)), keep=False)


UNITS = [
    Unit('get_boxes', get_boxes_unit, mode='abstract'),
    Unit('add_box', add_unit, mode='abstract'),
    Unit('forget_box', forget_unit, mode='abstract'),
    Unit('get_box', get_unit, mode='abstract'),
    Unit('save', save_unit, mode='abstract'),
    Unit('CmdAdd.run', add_command_unit, mode='abstract'),
    Unit('CmdForget.run', forget_command_unit, mode='abstract'),
]
