'''C05: files are put in a workspace only from an archive that passed validation in the same command.'''
from contracts.fsmodel import *
from contracts.C03 import spec_types

ASSUMPTIONS = [
    'validate() returns only for an archive that is intact (C18), and says the same when it is asked again',
    'search, resolve, Workspace.is_loaded, has_input, get_input, inputs and is_valid change nothing',
    'only the methods load, unload, add_input, delete_input, create, create_directories and meta of Workspace, and the unpack methods of archives change workspaces',
]
ZC = 'bead.ziparchive:ZipArchive'
WS = 'bead.workspace:Workspace'
IN, CMN = 'bead_cli.input', 'bead_cli.common'


class W(Paths):
    def __init__(w, v):
        super().__init__(v)
        spec_types(v)
        I = v.I
        if not hasattr(v, 'c05'):
            v.c05 = True
            v.ARC = Abs('ArchiveFile')
            v.ASET = SetOf(v.ARC)
            v.FLAG = SetOf(INT)
            v.TIME = Abs('Time', ordered=True) if False else Abs('Time')
            v.BOX = Abs('Box')
            v.BOXES = ListOf(v.BOX)
            v.OTHER = Abs('Other')
            v.BEAD = Abs('Bead')
            v.damaged = z3.Function('damaged', v.ARC.sort, BOOL.sort)
            v.loaded = z3.Function('is_loaded', STR.sort, BOOL.sort)
            v.qcls = ExtClass('Query', {})
            v.envcls = ExtClass('Environment', {})
            v.BOX.methods.update(search=lambda I, s, a, k: w.query(), resolve=lambda I, s, a, k: w.found())
            v.BOX.attrs.update(name=lambda I, s: STR.wrap(I, z3.Function('box_name', v.BOX.sort, STR.sort)(s.t)))
            v.BEAD.attrs.update({n: (lambda I, s, n=n: STR.wrap(I, z3.Function('bead_' + n, v.BEAD.sort, STR.sort)(s.t)))
                                 for n in ('name', 'kind', 'content_id', 'freeze_time_str', 'box_name')})
        # ghost: the archives validated by this command, and whether the last validation succeeded
        w.verified = I.alloc(HSym(v.ASET, v.t(v.const('verified', v.ASET), v.ASET)))
        v.assume(v.forall(v.ARC, lambda a: Not(v.ASET.has(w.V(), a)), patterns=lambda a: [v.ASET.has(w.V(), a)]))
        w.last = I.alloc(HSym(v.FLAG, v.t(v.const('last', v.FLAG), v.FLAG)))
        v.assume(Not(w.last_ok()))
        w.changes = []
        new = lambda k: w.query()
        methods = {n: (lambda I, o, a, k: o) for n in ('by_kind', 'by_name', 'by_content_id', 'at_or_older', 'at_or_newer', 'older_than', 'newer_than', 'at_time', 'where', 'unique')}
        methods.update({n: (lambda I, o, a, k: w.lookup(v.BEAD)) for n in ('newest', 'oldest', 'first')})
        methods['all'] = lambda I, o, a, k: v.const('found', ListOf(v.BEAD))
        v.qcls.methods.update(methods)
        v.envcls.methods.update(get_boxes=lambda I, o, a, k: v.const('boxes', v.BOXES))
        v.stub('bead.box:search', lambda I, f, a, k: w.query())
        v.stub('bead.box:resolve', lambda I, f, a, k: w.found())
        v.stub(ZC + '.__init__', w.open)
        v.stub(ZC + '.validate', w.validate)
        for n in ('unpack_to', 'unpack_data_to', 'unpack_code_to', 'unpack_meta_to', 'extract_dir', 'extract_file'):
            v.stub(f'{ZC}.{n}', w.unpack)
        v.stub('bead.bead:Archive.unpack_to', w.unpack)
        for n in ('kind', 'content_id', 'freeze_time_str'):
            v.stub(f'{ZC}.{n}', lambda I, f, a, k, n=n: STR.wrap(I, w.part(a[0], n, STR)))
        v.stub(f'{ZC}.location', lambda I, f, a, k: STR.wrap(I, w.part(a[0], 'location', STR)))
        v.stub('bead.bead:Bead.freeze_time', lambda I, f, a, k: v.TIME.wrap(I, w.part(a[0], 'time', v.TIME)))
        stime = z3.Function('input_time', v.INSPEC.sort, v.TIME.sort)
        v.stub('bead.meta:InputSpec.freeze_time', lambda I, f, a, k: v.TIME.wrap(I, stime(v.t(a[0], v.INSPEC))))
        v.stub('bead.meta:BeadName.is_wellformed', lambda I, f, a, k: BOOL.wrap(I, z3.Function('wellformed_name', STR.sort, BOOL.sort)(v.t(a[-1], STR))))
        # the workspace
        w.d = v.const('directory', v.PATH)
        w.ws = v.new(WS, directory=w.d)
        w.is_input = z3.Function('has_input', STR.sort, BOOL.sort)
        v.stub(WS + '.is_valid', lambda I, f, a, k: v.const('is_valid', BOOL))
        v.stub(WS + '.inputs', lambda I, f, a, k: v.const('inputs', v.INSPECS))
        v.stub(WS + '.kind', lambda I, f, a, k: v.const('ws_kind', STR))
        v.stub(WS + '.is_loaded', lambda I, f, a, k: v.const('loaded', BOOL))
        v.stub(WS + '.has_input', lambda I, f, a, k: BOOL.wrap(I, w.is_input(v.t(a[1], STR))))
        v.stub(WS + '.get_input', w.get_input)
        v.stub('bead.bead:Bead.get_input', w.get_input)
        v.stub(WS + '.load', w.load)
        v.stub(WS + '.unload', w.unload)
        for n in ('add_input', 'delete_input', 'create', 'create_directories'):
            v.stub(f'{WS}.{n}', lambda I, f, a, k, n=n: w.change(n))
        v.stub(WS + '.meta', lambda I, f, a, k: w.change('meta') if len(a) > 1 else v.const('ws_meta', v.OTHER))
        v.stub('bead.tech.fs:rmtree', lambda I, f, a, k: w.change('rmtree'))
        v.stub('bead.tech.fs:write_file', lambda I, f, a, k: w.change('write_file'))
        v.stub('bead.tech.fs:make_writable', lambda I, f, a, k: None)
        v.stub('bead.tech.fs:make_readonly', lambda I, f, a, k: None)
        for n in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
            v.ext(n, lambda I, a, k, n=n: v.const(n, BOOL))
        v.ext('sys.stderr.write', lambda I, a, k: None)
        v.stub(CMN + ':TIME_LATEST', None) if False else None
        v.stub('bead.tech.timestamp:parse_iso8601', lambda I, f, a, k: v.const('time', v.TIME))

    def V(w):
        return w.v.t(w.verified, w.v.ASET)

    def last_ok(w):
        return w.v.FLAG.has(w.v.t(w.last, w.v.FLAG), z3.IntVal(1))

    def id(w, a):
        return w.v.t(w.v.getattr(a, 'id'), w.v.ARC)

    def part(w, a, n, ty):
        return z3.Function('archive_' + n, w.v.ARC.sort, ty.sort)(w.id(a))

    def archive(w):
        return w.v.new(ZC, id=w.v.const('archive', w.v.ARC), name=w.v.const('bead_name', STR), box_name=w.v.const('box', STR), archive_filename=w.v.const('filename', STR))

    def query(w):
        return w.v.I.alloc(HInst(w.v.qcls, {}))

    def lookup(w, ty):
        if w.v.choose(2, 'found') == 0:
            w.v.I.raise_(LookupError)
        return w.v.const('bead', ty)

    def found(w):
        if w.v.choose(2, 'found') == 0:
            w.v.I.raise_(LookupError)
        return w.archive()

    def open(w, I, f, a, k):
        v = w.v
        if v.choose(2, 'can be opened') == 0:
            I.raise_(v.get('bead.exceptions:InvalidArchive'))
        a0 = a[0]
        for n, x in dict(id=v.const('archive', v.ARC), name=v.const('bead_name', STR), box_name='', archive_filename=a[1]).items():
            I.set_field(a0, n, x)
        return None

    def validate(w, I, f, a, k):
        v = w.v
        if I.branch(v.damaged(w.id(a[0])), 'damaged'):
            I.mutate(w.last, 'discard', 1)
            # not always as InvalidArchive
            I.raise_([v.get('bead.exceptions:InvalidArchive'), KeyError, OSError][v.choose(3, 'how')])
        I.mutate(w.verified, 'add', v.ARC.wrap(I, w.id(a[0])))
        I.mutate(w.last, 'add', 1)
        return None

    def passed(w, a, what):
        w.v.check(f'{what}: the archive passed validation in this command', w.v.ASET.has(w.V(), w.id(a)), keep=False)

    def unpack(w, I, f, a, k):
        w.passed(a[0], 'unpack')
        w.v.choose(2) and I.raise_(OSError)
        return None

    def load(w, I, f, a, k):
        a = a + [k[n] for n in ('input_nick', 'archive')[len(a) - 1:]]
        w.passed(a[2], 'load')
        I.mutate(w.last, 'discard', 1)
        w.v.choose(2) and I.raise_(OSError)
        return None

    def unload(w, I, f, a, k):
        w.v.check('loaded data is removed only after the validation of what replaces it', w.last_ok(), keep=False)
        w.v.choose(2) and I.raise_(OSError)
        return None

    def change(w, what):
        w.v.check('no other change before validation', w.last_ok(), keep=False)
        return None

    def get_input(w, I, f, a, k):
        v = w.v
        if not I.branch(w.is_input(v.t(a[1], STR)), 'is an input'):
            return None
        return v.INSPEC.wrap(I, v.t(v.const('input', v.INSPEC), v.INSPEC))

    def args(w, **kw):
        return w.v.I.alloc(HInst(ExtClass('Namespace', {}), kw))

    def env(w):
        return w.v.I.alloc(HInst(w.v.envcls, {}))


def only_validated(v, w):
    '''what is in the ghost set is not damaged'''
    v.check('no damaged archive passes', v.forall(v.ARC, lambda a: Implies(v.ASET.has(w.V(), a), Not(v.damaged(a)))), keep=False)


def inv(v, w):
    return lambda L: [('no damaged archive passes', v.forall(v.ARC, lambda a: Implies(v.ASET.has(w.V(), a), Not(v.damaged(a))), patterns=lambda a: [v.ASET.has(w.V(), a)]))]


def opt(v, name, ty, sentinel):
    '''an argument that may be left out'''
    return v.get(sentinel) if v.choose(2, name) else v.const(name, ty)


def run(v, w, cls, **args):
    cmd = v.new(cls)
    o = v.attempt(lambda: v.method(cmd, 'run', w.args(workspace=w.ws, **args), w.env()))
    only_validated(v, w)
    return o


def add_unit(v):
    w = W(v)
    run(v, w, IN + ':CmdAdd', input_nick=v.const('input_nick', STR), bead_ref_base=opt(v, 'bead_ref', STR, IN + ':USE_INPUT_NICK'), bead_time=v.const('bead_time', v.TIME))


def update_unit(v):
    w = W(v)
    v.loop(f'{IN}:*', inv(v, w), prefer=True)
    k = v.choose(3)
    time = v.get(CMN + ':TIME_LATEST') if v.choose(2, 'time') else v.const('bead_time', v.TIME)
    run(v, w, IN + ':CmdUpdate', input_nick=opt(v, 'input_nick', STR, IN + ':ALL_INPUTS'), bead_ref_base=opt(v, 'bead_ref', STR, IN + ':SAME_BEAD_NEWEST_VERSION'),
        bead_time=time, bead_offset=(0, 1, -1)[k])


def load_unit(v):
    w = W(v)
    v.loop(f'{IN}:*', inv(v, w), prefer=True)
    run(v, w, IN + ':CmdLoad', input_nick=opt(v, 'input_nick', STR, IN + ':ALL_INPUTS'))


def feedback_unit(v):
    w = W(v)
    a = w.archive()
    o = v.attempt(lambda: v.body(CMN + ':verify_with_feedback', a))
    if o.ok:
        v.check('returns only when the archive passed validation', v.ASET.has(w.V(), w.id(a)), keep=False)
    only_validated(v, w)


def edit_unit(v):
    w = W(v)
    E = 'bead_cli.workspace'
    v.stub(WS + '.__init__', lambda I, f, a, k: I.set_field(a[0], 'directory', w.wrap(w.t(a[1]))))
    v.stub(WS + '.name', lambda I, f, a, k: v.const('ws_name', STR))
    args = dict(review=v.const('review', BOOL), bead_ref_base=v.const('bead_ref', STR), bead_time=v.const('bead_time', v.TIME))
    ws = v.get(E + ':DERIVE_FROM_BEAD_NAME') if v.choose(2, 'workspace') else w.ws
    cmd = v.new(E + ':CmdEdit')
    o = v.attempt(lambda: v.method(cmd, 'run', w.args(workspace=ws, **args), w.env()))
    only_validated(v, w)
    if o.ok:
        v.check('succeeds only with an archive that passed validation', v.exists(v.ARC, lambda a: v.ASET.has(w.V(), a)), keep=False)


UNITS = [
    Unit('verify_with_feedback', feedback_unit, mode='abstract'),
    Unit('CmdAdd.run', add_unit, mode='abstract'),
    Unit('CmdUpdate.run', update_unit, mode='abstract'),
    Unit('CmdLoad.run', load_unit, mode='abstract'),
    Unit('CmdEdit.run', edit_unit, mode='abstract'),
]
