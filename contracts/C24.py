'''C24: what was stored stays readable when the process dies, or a write fails, in the middle of a change.'''
from contracts.disk import Disk
from contracts.fsmodel import *
from contracts import C10, C23

TECHNIQUE = 'contract-based deductive verification with crash conditions: an invariant of the disk that is discharged after every step that changes it'
ASSUMPTIONS = [
    'the process can die between any two steps of the disk (contracts/disk.py): opening for writing empties the file, what is written arrives there in parts until the file is closed, a rename replaces its target at once',
    'a ZIP file whose writing was not finished can not be opened (its directory is written last)',
    'sqlite: a commit takes effect at once, what is not committed has no effect',
    'no symbolic links among the files (realpath is the identity); names of temporary files are not names of other files',
    'json: what was dumped can be loaded',
]
NOT_COVERED = ['loss of power: what the operating system had not written to the disk', 'dying in the middle of rebuilding an index (it can be repeated)',
               'the files of inputs that are being loaded (they can be loaded again)', 'several processes at the same time']
PS = 'bead.tech.persistence'
WS = 'bead.workspace:Workspace'


class W(Disk):
    '''one file with records: it has the old or the new ones'''
    def __init__(w, v, path, fails=True):
        super().__init__(v, w.stable_, fails)
        w.file = w.t(path)
        w.before = w.now()
        w.new = v.t(v.const('new_records', STR), STR)
        v.stub(PS + ':dumps', lambda I, f, a, k: STR.wrap(I, w.json(a[0])))
        v.stub(PS + ':dump', lambda I, f, a, k: I.call(I.getattr(a[1], 'write'), [STR.wrap(I, w.json(a[0]))], {}))
        w.what = None

    def json(w, content):
        '''the JSON for some content'''
        return w.new if w.is_new(content) else w.v.t(w.v.const('other_records', STR), STR)

    def is_new(w, content):
        return content is w.what or (isinstance(content, (Obj, Sym)) and isinstance(w.what, type(content)) and content == w.what)

    def stable_(w, where):
        if not hasattr(w, 'file'):
            return
        p = w.file
        old = And(w.has(p) == w.has(p, w.before), w.get(p) == w.get(p, w.before))
        new = And(w.has(p), w.get(p) == w.new)
        w.v.check(f'after {where} the old or the new records are there', Or(old, new, And(Not(w.has(p, w.before)), Not(w.has(p)))), keep=False)

    def verdict(w, o):
        v, p = w.v, w.file
        if o.ok:
            v.check('the new records are there', And(w.has(p), w.get(p) == w.new), keep=False)
        else:
            v.check('a failed write leaves the old records', And(w.has(p) == w.has(p, w.before), Implies(w.has(p), w.get(p) == w.get(p, w.before))), keep=False)


def dump_unit(v):
    p = v.const('path', STR)
    if v.choose(2, 'type of path') == 0:
        Paths(v)
        p = v.const('path', v.PATH)
    w = W(v, Paths(v).t(p))
    w.what = v.const('content', STR)
    o = v.attempt(lambda: v.call(PS + ':file_dump', w.what, p))
    w.verdict(o)


def env_unit(v):
    Paths(v)
    p = v.const('filename', v.PATH)
    w = W(v, p)
    w.what = v.const('boxes', STR)
    env = v.new('bead_cli.environment:Environment', filename=p, _content=w.what)
    o = v.attempt(lambda: v.method(env, 'save'))
    w.verdict(o)


def meta_unit(v):
    w0 = Paths(v)
    d = v.const('directory', v.PATH)
    w = W(v, w0.join(d, '.bead-meta/bead'))
    w.what = v.const('meta', STR)
    ws = v.new(WS, directory=d)
    o = v.attempt(lambda: v.setattr(ws, 'meta', w.what))
    w.verdict(o)


# ---------------------------------------------------------------- saving
class Save(C23.W):
    def __init__(w, v):
        super().__init__(v)
        w.F0 = v.t(w.files, v.PSET)
        w.closed = False

    def touch(w, p):
        w.v.check('files that were there are left alone at every step', Not(w.v.PSET.has(w.F0, p)), keep=False)
        super().touch(p)

    def close(w, I, o, a, k):
        w.closed = True
        return super().close(I, o, a, k)

    def open(w, I, a, k):
        w.closed = False
        return super().open(I, a, k)


def store_unit(v):
    w = Save(v)
    for n in ('add_data', 'add_code', 'add_meta', 'add_directory', 'add_path', 'add_file', 'add_string_content'):
        v.stub(f'{C23.ZCR}.{n}', lambda I, f, a, k, n=n: w.fails(n))
    v.stub(WS + '.is_valid', lambda I, f, a, k: v.const('is_valid', BOOL))
    ws = v.new(WS, directory=v.const('directory', v.PATH))
    v.stub('bead.meta:BeadName.is_wellformed', lambda I, f, a, k: v.const('is_wellformed', BOOL))
    v.PATH.methods['is_dir'] = lambda I, s, a, k: v.const('is_dir', BOOL)

    def index(I, o, a, k):
        v.check('only a finished archive gets into the index', z3.BoolVal(w.closed), keep=False)
        v.check('that is in the box', v.PSET.has(v.t(w.files, v.PSET), w.t(a[0])), keep=False)
    res = ExtClass('Resolver', dict(index_archive_file=index))
    box = v.new('bead.box:Box', name=v.const('box', STR), location=v.const('location', v.PATH), resolver=v.I.alloc(HInst(res, {})))
    name = v.const('ws_name', STR)
    v.stub(WS + '.name', lambda I, f, a, k: name)
    v.attempt(lambda: v.method(box, 'store', ws, v.const('freeze_time', STR)))


# ---------------------------------------------------------------- index
def index_unit(what):
    def unit(v):
        w = C10.W(v, fails=True)
        q = w.q
        p = v.const('archive_path', v.PATH)
        p_ = w.t(p)
        v.assume(w.in_box(p_))
        bags = q.snapshot()
        s = w.file(p_)
        after = w.added(bags, p_) if what == 'add' else w.dropped(bags, lambda x: x == s)
        if what == 'add':
            inv = w.inputs_so_far(p_, bags)
            v.loop(C10.BI + ':*', inv, prefer=True, over=lambda view: view.ty is v.INSPEC)
        commit = v.sql_conn.methods['commit']

        def checked(I, o, a, k):
            r = commit(I, o, a, k)
            if any(not z3.eq(q.bag(n), b) for n, b in bags.items()):
                w.check('what is committed is the whole change', after)
            return r
        v.sql_conn.methods['commit'] = checked
        v.attempt(lambda: v.method(w.o, 'index_archive_file' if what == 'add' else 'unindex_archive_file', p))
    return unit


UNITS = [
    Unit('persistence.file_dump', dump_unit, mode='abstract'),
    Unit('Environment.save', env_unit, mode='abstract'),
    Unit('Workspace.meta', meta_unit, mode='abstract'),
    Unit('Box.store', store_unit, mode='abstract'),
    Unit('index_archive_file', index_unit('add'), mode='abstract'),
    Unit('unindex_archive_file', index_unit('remove'), mode='abstract'),
]
