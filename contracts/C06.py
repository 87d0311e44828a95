'''C06: input records and loaded input data change only for the named input.'''
from contracts.fsmodel import *
from contracts.C20 import types
from contracts import C05

ASSUMPTIONS = [
    'writing the metadata file either fails before anything is written or replaces it (no crash in the middle)',
    'json: loading what was dumped gives the same dictionary',
    'contracts proved elsewhere: unpacking makes the files of the data section under the folder it is given and nothing else (C04), '
    'rmtree deletes that folder and nothing else, all_subpaths gives everything in a folder, make_readonly/make_writable change the write permission of one path (C21)',
]
WS = 'bead.workspace:Workspace'


class W(Paths):
    def __init__(w, v):
        super().__init__(v)
        types(v)
        I, P = v.I, v.PATH
        if not hasattr(v, 'c06'):
            v.c06 = True
            v.PSET = SetOf(P)
            v.PLIST = ListOf(P)
            v.subpaths = z3.Function('subpaths', P.sort, v.PLIST.sort)
            v.acls = ExtClass('Archive', {})
        w.kind = v.const('kind', STR)
        w.inputs = v.t(v.const('inputs', v.INPUTS), v.INPUTS)
        w.writable = I.alloc(HSym(v.PSET, v.t(v.const('writable', v.PSET), v.PSET)))
        w.dirs = I.alloc(HSym(v.PSET, v.t(v.const('folders', v.PSET), v.PSET)))
        w.d = v.const('directory', P)
        w.ws = v.new(WS, directory=w.d)
        w.input_dir = w.join(w.d, 'input')
        w.meta_file = w.join(w.d, '.bead-meta/bead')
        w.log = []
        v.stub('bead.tech.persistence:file_load', w.load)
        v.stub('bead.tech.persistence:file_dump', w.dump)
        v.stub('bead.tech.fs:make_writable', lambda I, f, a, k: w.chmod('add', w.t(a[0])))
        v.stub('bead.tech.fs:make_readonly', lambda I, f, a, k: w.chmod('discard', w.t(a[0])))
        v.stub('bead.tech.fs:rmtree', w.rmtree)
        v.stub('bead.tech.fs:all_subpaths', lambda I, f, a, k: I.alloc(HSym(v.PLIST, v.subpaths(w.t(a[0])))))
        isdir = lambda I, p: BOOL.wrap(I, v.PSET.has(v.t(w.dirs, v.PSET), p))
        P.methods.update(is_dir=lambda I, s, a, k: isdir(I, s.t), exists=lambda I, s, a, k: isdir(I, s.t))
        for n in ('os.path.isdir', 'os.path.exists'):
            v.ext(n, lambda I, a, k: isdir(I, w.t(a[0])))
        S = v.subpaths
        v.assume(v.forall([P, INT], lambda p, i: Implies(And(0 <= i, i < v.PLIST.n(S(p))), v.PLIST.has(S(p), v.PLIST.get(S(p), i))), patterns=lambda p, i: [v.PLIST.get(S(p), i)]))
        J = v.join
        v.assume(v.forall([P, STR], lambda p, s: Implies(v.wellformed(s), v.pname(J(p, s)) == s), patterns=lambda p, s: [J(p, s)]))
        v.assume(v.forall([P, STR], lambda p, s: J(p, s) != p, patterns=lambda p, s: [J(p, s)]))

    def fails(w, where, excs=(OSError,)):
        k = w.v.choose(1 + len(excs), where)
        if k:
            w.v.I.raise_(excs[k - 1])

    def load(w, I, f, a, k):
        w.v.check('the metadata of the workspace is read', w.t(a[0]) == w.meta_file)
        return w.v.dict({'kind': w.kind, 'inputs': I.alloc(HSym(w.v.INPUTS, w.inputs))})

    def dump(w, I, f, a, k):
        v = w.v
        v.check('the metadata of the workspace is written', w.t(a[1]) == w.meta_file)
        w.fails('write')
        m = I.dict_items(a[0])
        v.check('it has the keys it had', z3.BoolVal(m is not None and set(m) == {'kind', 'inputs'}))
        w.kind, w.inputs = m['kind'], v.t(m['inputs'], v.INPUTS)
        w.log.append('meta')

    def chmod(w, op, p):
        w.v.I.mutate(w.writable, op, w.wrap(p))
        return None

    def rmtree(w, I, f, a, k):
        v = w.v
        p = w.t(a[0])
        w.log.append(('rmtree', p))
        v.check('the folder is writable when something in it is deleted', v.PSET.has(v.t(w.writable, v.PSET), w.input_dir))
        w.fails('rmtree')
        I.mutate(w.dirs, 'discard', w.wrap(p))
        return None

    def unpack(w, I, o, a, k):
        v = w.v
        p = w.t(a[0])
        w.log.append(('unpack', p))
        v.check('the folder is writable when data is put in it', v.PSET.has(v.t(w.writable, v.PSET), w.input_dir))
        # what is unpacked is writable
        W0 = v.t(w.writable, v.PSET)
        v.become(w.writable, v.PSET, v.t(v.const('writable', v.PSET), v.PSET))
        W1 = v.t(w.writable, v.PSET)
        inside = lambda q: v.PLIST.has(v.subpaths(p), q)
        v.assume(v.forall(v.PATH, lambda q: Implies(Not(inside(q)), v.PSET.has(W1, q) == v.PSET.has(W0, q)), patterns=lambda q: [v.PSET.has(W1, q)]))
        v.assume(Not(inside(w.input_dir)))
        I.mutate(w.dirs, 'add', w.wrap(p))
        w.fails('unpack', (OSError, v.get('bead.exceptions:InvalidArchive'), KeyError))
        return None

    def archive(w):
        v = w.v
        v.acls.methods.update(unpack_data_to=w.unpack)
        w.a = dict(kind=v.const('archive_kind', STR), content_id=v.const('archive_content_id', STR), freeze_time_str=v.const('archive_freeze_time', STR))
        return v.I.alloc(HInst(v.acls, dict(w.a)))

    def state(w):
        return w.kind, w.inputs, w.v.t(w.writable, w.v.PSET), w.v.t(w.dirs, w.v.PSET)

    def frame(w, s0, nick, protected=True):
        '''always: others are as they were'''
        v = w.v
        k0, I0, W0, D0 = s0
        k, I, W1, D = w.state()
        T = v.INPUTS
        dest = w.join_(w.input_dir, nick)
        v.check('the kind stays', v.t(k, STR) == v.t(k0, STR))
        v.check('records of other inputs stay', v.forall(STR, lambda n: Implies(n != nick, And(T.has(I, n) == T.has(I0, n), Implies(T.has(I0, n), T.get(I, n) == T.get(I0, n))))), keep=False)
        v.check('other folders stay', v.forall(v.PATH, lambda p: Implies(p != dest, v.PSET.has(D, p) == v.PSET.has(D0, p))), keep=False)
        v.check('permissions stay, except those of the data of this input', v.forall(v.PATH, lambda p: Implies(
            And(p != w.input_dir, Not(v.PLIST.has(v.subpaths(dest), p))), v.PSET.has(W1, p) == v.PSET.has(W0, p))), keep=False)
        if protected:
            v.check('the input folder is write protected', Not(v.PSET.has(W1, w.input_dir)), keep=False)
        for e in w.log:
            if e != 'meta':
                v.check(f'{e[0]}: the folder of the input', e[1] == dest, keep=False)


def begin(v, known=None):
    w = W(v)
    nick = v.const('input_nick', STR)
    s0 = w.state()
    T = v.INPUTS
    v.assume(v.forall(STR, lambda n: Implies(T.has(w.inputs, n), v.wellformed(n)), patterns=lambda n: [T.has(w.inputs, n)]))
    v.assume(Not(v.PSET.has(s0[2], w.input_dir)))
    return w, nick, nick.t, s0


def unchanged(v, w, s0):
    s = w.state()
    T = v.INPUTS
    v.check('nothing is changed: records', And(v.t(s[0], STR) == v.t(s0[0], STR), s[1] == s0[1]), keep=False)
    v.check('nothing is changed: folders', v.forall(v.PATH, lambda p: v.PSET.has(s[3], p) == v.PSET.has(s0[3], p)), keep=False)
    v.check('nothing is changed: permissions', v.forall(v.PATH, lambda p: v.PSET.has(s[2], p) == v.PSET.has(s0[2], p)), keep=False)


def recorded(v, D, n, kind, cid, ft):
    M, T = v.INDICT, v.INPUTS
    x = T.get(D, n)
    return And(T.has(D, n), M.f('kind', x) == v.t(kind, STR), M.f('content_id', x) == v.t(cid, STR), M.f('freeze_time', x) == v.t(ft, STR))


def add_unit(v):
    w, nick, n, s0 = begin(v)
    kind, cid, ft = (v.const(x, STR) for x in ('a_kind', 'a_content_id', 'a_freeze_time'))
    o = v.attempt(lambda: v.method(w.ws, 'add_input', nick, kind, cid, ft))
    if o.ok:
        v.check('the input is recorded', recorded(v, w.inputs, n, kind, cid, ft), keep=False)
        v.check('a name that can not be read back is refused', v.wellformed(n), keep=False)
    else:
        unchanged(v, w, s0)
    w.frame(s0, n)


def has_unit(v):
    w, nick, n, s0 = begin(v)
    r = v.method(w.ws, 'has_input', nick)
    v.check('has_input: it is recorded', v.truth(r) == v.INPUTS.has(s0[1], n), keep=False)
    r = v.method(w.ws, 'is_loaded', nick)
    v.check('is_loaded: its folder is there', v.truth(r) == v.PSET.has(s0[3], w.join_(w.input_dir, n)), keep=False)


def load_unit(v):
    w, nick, n, s0 = begin(v)
    a = w.archive()
    o = v.attempt(lambda: v.method(w.ws, 'load', nick, a))
    w.frame(s0, n)
    unpacked = [e for e in w.log if e != 'meta' and e[0] == 'unpack']
    v.check('nothing is deleted', z3.BoolVal(not [e for e in w.log if e != 'meta' and e[0] == 'rmtree']))
    if o.ok:
        v.check('the archive is recorded', recorded(v, w.inputs, n, w.a['kind'], w.a['content_id'], w.a['freeze_time_str']), keep=False)
        v.check('its data is unpacked once', z3.BoolVal(len(unpacked) == 1))
        L = v.subpaths(w.join_(w.input_dir, n))
        W1 = v.t(w.writable, v.PSET)
        v.check('all of the data is read-only', v.forall(INT, lambda i: Implies(And(0 <= i, i < v.PLIST.n(L)), Not(v.PSET.has(W1, v.PLIST.get(L, i))))), keep=False)
        v.check('a name that can not be read back is refused', v.wellformed(n), keep=False)
    elif not unpacked:
        unchanged(v, w, s0)
    if not o.ok and v.is_exc(o, ValueError):
        v.check('refused only when the name can not be read back', Not(v.wellformed(n)), keep=False)


def unload_unit(v):
    w, nick, n, s0 = begin(v)
    o = v.attempt(lambda: v.method(w.ws, 'unload', nick))
    w.frame(s0, n)
    v.check('records stay', w.inputs == s0[1], keep=False)
    v.check('nothing is unpacked', z3.BoolVal(not [e for e in w.log if e != 'meta' and e[0] == 'unpack']))
    if o.ok:
        v.check('the folder is gone', Not(v.PSET.has(v.t(w.dirs, v.PSET), w.join_(w.input_dir, n))), keep=False)
        v.check('the input is known', v.INPUTS.has(s0[1], n), keep=False)
    elif v.is_exc(o, AssertionError):
        v.check('refused only when there is no such input', Not(v.INPUTS.has(s0[1], n)), keep=False)
        unchanged(v, w, s0)


def delete_unit(v):
    w, nick, n, s0 = begin(v)
    o = v.attempt(lambda: v.method(w.ws, 'delete_input', nick))
    w.frame(s0, n)
    v.check('nothing is unpacked', z3.BoolVal(not [e for e in w.log if e != 'meta' and e[0] == 'unpack']))
    if o.ok:
        v.check('the record is gone', Not(v.INPUTS.has(w.inputs, n)), keep=False)
        v.check('the folder is gone', Not(v.PSET.has(v.t(w.dirs, v.PSET), w.join_(w.input_dir, n))), keep=False)
    elif v.is_exc(o, AssertionError) or v.is_exc(o, KeyError):
        v.check('refused only when there is no such input', Not(v.INPUTS.has(s0[1], n)), keep=False)
        unchanged(v, w, s0)


UNITS = [
    Unit('Workspace.add_input', add_unit, mode='abstract'),
    Unit('has_input, is_loaded', has_unit, mode='abstract'),
    Unit('Workspace.load', load_unit, mode='abstract'),
    Unit('Workspace.unload', unload_unit, mode='abstract'),
    Unit('Workspace.delete_input', delete_unit, mode='abstract'),
]


# --- the commands: which inputs they change, over the contracts of the methods above

class CW(C05.W):
    '''a workspace as the commands see it: the records, and what is loaded'''
    def __init__(w, v):
        super().__init__(v)
        if not hasattr(v, 'c06c'):
            v.c06c = True
            v.NAMES = SetOf(STR)
            v.env_of = {}
        I = v.I
        w.loaded = I.alloc(HSym(v.NAMES, v.t(v.const('loaded', v.NAMES), v.NAMES)))
        w.touched = I.alloc(HSym(v.NAMES, v.t(v.const('touched', v.NAMES), v.NAMES)))
        w.list = v.t(v.const('inputs', v.INSPECS), v.INSPECS)
        w.names = w.the_names()
        w.L0 = w.loaded_now()
        v.assume(v.forall(STR, lambda n: Not(v.NAMES.has(w.touched_now(), n)), patterns=lambda n: [v.NAMES.has(w.touched_now(), n)]))
        v.stub(WS + '.inputs', lambda I, f, a, k: v.INSPECS.wrap(I, w.list))
        v.stub(WS + '.is_loaded', lambda I, f, a, k: BOOL.wrap(I, v.NAMES.has(w.loaded_now(), w.nick(a, k))))
        for n in ('load', 'unload', 'delete_input', 'add_input'):
            v.stub(f'{WS}.{n}', lambda I, f, a, k, n=n: w.op(n, a, k))

    def the_names(w):
        '''the name of each input; has_input and get_input agree with the list'''
        v = w.v
        S, N = v.INSPEC, v.INSPECS
        name = lambda i: S.f('name', N.get(w.list, i))
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < N.n(w.list)), w.is_input(name(i))), patterns=lambda i: [N.get(w.list, i)]))
        return name

    def nick(w, a, k):
        return w.v.t(a[1] if len(a) > 1 else k.get('input_nick', k.get('name')), STR)

    def loaded_now(w):
        return w.v.t(w.loaded, w.v.NAMES)

    def touched_now(w):
        return w.v.t(w.touched, w.v.NAMES)

    def get_input(w, I, f, a, k):
        v = w.v
        n = w.nick(a, k)
        if not I.branch(w.is_input(n), 'is an input'):
            return None
        x = v.t(v.const('input', v.INSPEC), v.INSPEC)
        v.assume(v.INSPEC.f('name', x) == n)
        return v.INSPEC.wrap(I, x)

    def passed(w, a, what):
        pass

    def change(w, what):
        w.v.check(f'{what} is not used: only the named input is changed', z3.BoolVal(False))

    def op(w, what, a, k):
        v, I = w.v, w.v.I
        n = w.nick(a, k)
        nn = STR.wrap(I, n)
        v.check(f'{what}: an input that was asked for', w.asked(n), keep=False)
        known = w.is_input(n)
        if what == 'delete_input':
            v.check('only an input that is there is deleted', known, keep=False)
        if what == 'unload' and not I.branch(known, 'is an input'):
            I.raise_(AssertionError)
        I.mutate(w.touched, 'add', nn)
        if v.choose(2, what):
            I.raise_(OSError)
        I.mutate(w.loaded, 'add' if what == 'load' else 'discard', nn)
        return None


def others_stay(v, w, named=True):
    L1, T1 = w.loaded_now(), w.touched_now()
    v.check('other inputs are not touched', v.forall(STR, lambda n: Implies(v.NAMES.has(T1, n), w.asked(n))), keep=False)
    v.check('what is loaded of other inputs stays', v.forall(STR, lambda n: Implies(Not(w.asked(n)), v.NAMES.has(L1, n) == v.NAMES.has(w.L0, n))), keep=False)


def member(v, w):
    return lambda n: v.exists(INT, lambda i: And(0 <= i, i < v.INSPECS.n(w.list), w.names(i) == n))


def cinv(v, w, unload=False):
    '''while the inputs are taken one by one'''
    def inv(L):
        L1, T1 = w.loaded_now(), w.touched_now()
        has = v.NAMES.has
        out = [
            ('only inputs are touched', v.forall(STR, lambda n: Implies(has(T1, n), w.asked(n)), patterns=lambda n: [has(T1, n)])),
            ('what is loaded of other inputs stays', v.forall(STR, lambda n: Implies(Not(has(T1, n)), has(L1, n) == has(w.L0, n)), patterns=lambda n: [has(L1, n)])),
        ]
        if unload:
            out += [('the inputs so far are not loaded', v.forall(INT, lambda j: Implies(And(0 <= j, j < L.i), Not(has(L1, w.names(j)))), patterns=lambda j: [v.INSPECS.get(w.list, j)])),
                    ('nothing gets loaded', v.forall(STR, lambda n: Implies(has(L1, n), has(w.L0, n)), patterns=lambda n: [has(L1, n)]))]
        return out
    return inv


def crun(v, w, cls, **args):
    return v.attempt(lambda: v.method(v.new(cls), 'run', w.args(workspace=w.ws, **args), w.env()))


def named(v, w, cls, **args):
    nick = v.const('input_nick', STR)
    w.asked = lambda n: n == nick.t
    o = crun(v, w, cls, input_nick=nick, **args)
    others_stay(v, w)
    return o, nick.t


def cdelete_unit(v):
    w = CW(v)
    o, n = named(v, w, C05.IN + ':CmdDelete')
    if o.ok:
        v.check('the input was there', w.is_input(n), keep=False)
        v.check('it is deleted', v.NAMES.has(w.touched_now(), n), keep=False)
        v.check('its data is gone', Not(v.NAMES.has(w.loaded_now(), n)), keep=False)


def cadd_unit(v):
    w = CW(v)
    o, n = named(v, w, C05.IN + ':CmdAdd', bead_ref_base=C05.opt(v, 'bead_ref', STR, C05.IN + ':USE_INPUT_NICK'), bead_time=v.const('bead_time', v.TIME))


def cunload_unit(v):
    w = CW(v)
    o, n = named(v, w, C05.IN + ':CmdUnload')
    if o.ok:
        v.check('it is not loaded', Not(v.NAMES.has(w.loaded_now(), n)), keep=False)


def cunload_all_unit(v):
    w = CW(v)
    w.asked = member(v, w)
    v.loop(f'{C05.IN}:*', cinv(v, w, True), prefer=True)
    o = crun(v, w, C05.IN + ':CmdUnload', input_nick=v.get(C05.IN + ':ALL_INPUTS'))
    others_stay(v, w)
    if o.ok:
        v.check('no input is loaded', v.forall(INT, lambda i: Implies(And(0 <= i, i < v.INSPECS.n(w.list)), Not(v.NAMES.has(w.loaded_now(), w.names(i))))), keep=False)


def cload_unit(v):
    w = CW(v)
    v.loop(f'{C05.IN}:*', cinv(v, w), prefer=True)
    o, n = named(v, w, C05.IN + ':CmdLoad')
    if o.ok:
        v.check('the input was there', w.is_input(n), keep=False)
    v.check('what was loaded before is not touched', Implies(v.NAMES.has(w.L0, n), And(v.NAMES.has(w.loaded_now(), n), Not(v.NAMES.has(w.touched_now(), n)))), keep=False)


def cload_all_unit(v):
    w = CW(v)
    w.asked = member(v, w)
    v.loop(f'{C05.IN}:*', cinv(v, w), prefer=True)
    o = crun(v, w, C05.IN + ':CmdLoad', input_nick=v.get(C05.IN + ':ALL_INPUTS'))
    others_stay(v, w)


def cupdate_args(v):
    time = v.get(C05.CMN + ':TIME_LATEST') if v.choose(2, 'time') else v.const('bead_time', v.TIME)
    return dict(bead_ref_base=C05.opt(v, 'bead_ref', STR, C05.IN + ':SAME_BEAD_NEWEST_VERSION'), bead_time=time, bead_offset=(0, 1, -1)[v.choose(3)])


def cupdate_unit(v):
    w = CW(v)
    o, n = named(v, w, C05.IN + ':CmdUpdate', **cupdate_args(v))
    if o.ok:
        v.check('only an input that is there is updated', w.is_input(n), keep=False)


def cupdate_all_unit(v):
    w = CW(v)
    w.asked = member(v, w)
    v.loop(f'{C05.IN}:*', cinv(v, w), prefer=True)
    o = crun(v, w, C05.IN + ':CmdUpdate', input_nick=v.get(C05.IN + ':ALL_INPUTS'), **cupdate_args(v))
    others_stay(v, w)


UNITS += [
    Unit('CmdDelete.run', cdelete_unit, mode='abstract'),
    Unit('CmdAdd.run', cadd_unit, mode='abstract'),
    Unit('CmdUnload.run', cunload_unit, mode='abstract'),
    Unit('CmdUnload.run, all inputs', cunload_all_unit, mode='abstract'),
    Unit('CmdLoad.run', cload_unit, mode='abstract'),
    Unit('CmdLoad.run, all inputs', cload_all_unit, mode='abstract'),
    Unit('CmdUpdate.run', cupdate_unit, mode='abstract'),
    Unit('CmdUpdate.run, all inputs', cupdate_all_unit, mode='abstract'),
]
