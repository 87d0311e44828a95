'''C20: kind and input references survive saving and reopening unchanged.'''
from contracts.fsmodel import *
from contracts.C03 import spec_types, workspace, WS, ZCR
from contracts.ziparch import ZC
from pyded.pybuiltins import to_list

ASSUMPTIONS = [
    'json: loading what was dumped gives the same dictionary (text keys and values)',
    'names of inputs of a workspace are well formed (refused when they are added: C06)',
    'the text entry meta/bead is stored and read back by zipfile unchanged',
]
KEYS = ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs')


def types(v):
    spec_types(v)
    if not hasattr(v, 'c20'):
        v.c20 = True
        v.INPUTS = DictOf(STR, v.INDICT)
        v.META = DictRec('Meta', dict(meta_version=STR, kind=STR, freeze_time=STR, freeze_name=STR, inputs=v.INPUTS))
        v.WSMETA = DictRec('WorkspaceMeta', dict(kind=STR, inputs=v.INPUTS))
        v.wellformed = z3.Function('wellformed_name', STR.sort, BOOL.sort)
    v.I.dict_recs = [v.INDICT, v.META]
    v.stub('bead.meta:BeadName.is_wellformed', lambda I, f, a, k: BOOL.wrap(I, v.wellformed(v.t(a[-1], STR))))


def same(v, D, L, extra=True):
    '''the dictionary of inputs D tells the same as the list of inputs L'''
    S, M, T, N = v.INSPEC, v.INDICT, v.INPUTS, v.INSPECS
    at = lambda i: N.get(L, i)
    out = [
        ('every input is in the metadata with its kind, content id and freeze time', v.forall(INT, lambda i: Implies(And(0 <= i, i < N.n(L)), And(
            T.has(D, S.f('name', at(i))),
            M.f('kind', T.get(D, S.f('name', at(i)))) == S.f('kind', at(i)),
            M.f('content_id', T.get(D, S.f('name', at(i)))) == S.f('content_id', at(i)),
            M.f('freeze_time', T.get(D, S.f('name', at(i)))) == S.f('freeze_time_str', at(i)))), patterns=lambda i: [at(i)])),
        ('no other input is in the metadata', v.forall(STR, lambda n: Implies(T.has(D, n), v.exists(INT, lambda i: And(0 <= i, i < N.n(L), S.f('name', at(i)) == n))), patterns=lambda n: [T.has(D, n)])),
        ('every input is there once', v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < N.n(L)), S.f('name', at(i)) != S.f('name', at(j))),
                                              patterns=lambda i, j: [z3.MultiPattern(at(i), at(j))])),
    ]
    return out if extra else out[:2]


def add_meta_unit(v):
    w = Paths(v)
    types(v)
    ws = workspace(v, w)
    L = v.t(v.getattr(ws, 'inputs'), v.INSPECS)
    v.assume(v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < v.INSPECS.n(L)), v.INSPEC.f('name', v.INSPECS.get(L, i)) != v.INSPEC.f('name', v.INSPECS.get(L, j)))))
    dumped, stored = [], []

    def dumps(I, f, a, k):
        t = v.const('json', STR)
        dumped.append((a[0], t.t))
        return t
    v.stub('bead.tech.persistence:dumps', dumps)
    v.stub(ZCR + '.add_string_content', lambda I, f, a, k: stored.append((a[1], v.t(a[2], STR))))
    v.stub('bead.tech.timestamp:timestamp', lambda I, f, a, k: v.const('now', STR))
    stamp = v.const('timestamp', STR)
    creator = v.new(ZCR, hashes=v.dict(), zipfile=None)
    o = v.attempt(lambda: v.method(creator, 'add_meta', ws, stamp))
    v.check('no error', z3.BoolVal(o.ok))
    if not o.ok:
        return
    texts = [t for n, t in stored if n == 'meta/bead']
    v.check('the metadata is stored once', z3.BoolVal(len(texts) == 1))
    metas = [d for d, t in dumped if t.eq(texts[0])]
    v.check('it is the dumped metadata', z3.BoolVal(len(metas) == 1))
    m = v.I.dict_items(metas[0]) or {}
    v.check('with all its keys', z3.BoolVal(set(KEYS) <= set(m)))
    v.check('the kind is recorded', v.t(m['kind'], STR) == v.t(v.getattr(ws, 'kind'), STR))
    v.check('the name is recorded', v.t(m['freeze_name'], STR) == v.t(v.getattr(ws, 'name'), STR))
    v.check('the freeze time is the given one', v.t(m['freeze_time'], STR) == stamp.t)
    D = v.t(m['inputs'], v.INPUTS)
    for label, t in same(v, D, L, False):
        v.check(label, t, keep=False)


def check_parsed(v, D, o):
    if not o.ok:
        v.check('fails only for names that are not well formed', v.exists(STR, lambda n: And(v.INPUTS.has(D, n), Not(v.wellformed(n)))), keep=False)
        return
    L = v.t(o.value, v.INSPECS)
    for label, t in same(v, D, L):
        v.check(label, t, keep=False)


def parse_unit(v):
    types(v)
    D = v.const('inputs', v.INPUTS)
    T0 = v.t(D, v.INPUTS)
    v.assume(v.forall(STR, lambda n: Implies(v.INPUTS.has(T0, n), v.wellformed(n)), patterns=lambda n: [v.INPUTS.has(T0, n)]))
    m = v.dict({'inputs': D})
    o = v.attempt(lambda: to_list(v.I, v.call('bead.meta:parse_inputs', m)))
    check_parsed(v, T0, o)


def of_object(cls, field):
    '''inputs, kind, ... of an archive or a workspace, by its metadata'''
    def unit(v):
        w = Paths(v)
        types(v)
        D = v.const('inputs', v.INPUTS)
        T0 = v.t(D, v.INPUTS)
        v.assume(v.forall(STR, lambda n: Implies(v.INPUTS.has(T0, n), v.wellformed(n)), patterns=lambda n: [v.INPUTS.has(T0, n)]))
        kind, ft = v.const('kind', STR), v.const('freeze_time', STR)
        m = v.dict({'kind': kind, 'inputs': D, 'freeze_time': ft, 'meta_version': 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e', 'freeze_name': v.const('name', STR)})
        if field == '_meta':
            x = v.new(cls, archive_filename='x.zip', box_name='', name='x', _meta=m, _content_id=None)
        else:
            x = v.new(cls, directory=v.const('directory', v.PATH))
            v.stub('bead.tech.persistence:file_load', lambda I, f, a, k: m)
        o = v.attempt(lambda: v.getattr(x, 'inputs'))
        check_parsed(v, T0, o)
        v.check('the kind is the recorded one', v.t(v.getattr(x, 'kind'), STR) == kind.t)
        if field == '_meta':
            v.check('the freeze time is the recorded one', v.t(v.getattr(x, 'freeze_time_str'), STR) == ft.t)
    return unit


def unpack_unit(v):
    '''the workspace gets the metadata of the archive'''
    w = Paths(v)
    types(v)
    D = v.const('inputs', v.INPUTS)
    T0 = v.t(D, v.INPUTS)
    kind = v.const('kind', STR)
    m = v.dict({'kind': kind, 'inputs': D, 'freeze_time': v.const('freeze_time', STR), 'meta_version': 'v', 'freeze_name': v.const('name', STR)})
    x = v.new(ZC, archive_filename='x.zip', box_name='', name='x', _meta=m, _content_id=None)
    ws = v.new('bead.workspace:Workspace', directory=v.const('directory', v.PATH))
    log = []

    def dump(I, f, a, k):
        log.append((I.dict_items(a[0]), v.t(a[1], v.PATH)))
    v.stub('bead.tech.persistence:file_dump', dump)
    v.stub(ZC + '.unpack_code_to', lambda I, f, a, k: log.append('code'))
    v.stub('bead.workspace:Workspace.create_directories', lambda I, f, a, k: log.append('directories'))
    v.stub('bead.tech.fs:write_file', lambda I, f, a, k: log.append('file'))
    o = v.attempt(lambda: v.method(x, 'unpack_to', ws))
    v.check('no error', z3.BoolVal(o.ok))
    v.check('metadata is written last, once', z3.BoolVal([type(e) is tuple for e in log] == [False] * (len(log) - 1) + [True] and set(log[:-1]) == {'code', 'directories'}))
    items, path = log[-1]
    items = dict(items)
    v.check('to the metadata file of the workspace', path == w.join(v.getattr(ws, 'directory'), '.bead-meta/bead'))
    v.check('with the kind', v.t(items['kind'], STR) == kind.t)
    D2 = v.t(items['inputs'], v.INPUTS)
    v.check('with the inputs', v.forall(STR, lambda n: And(v.INPUTS.has(D2, n) == v.INPUTS.has(T0, n), Implies(v.INPUTS.has(T0, n), v.INPUTS.get(D2, n) == v.INPUTS.get(T0, n)))), keep=False)


UNITS = [
    Unit('_ZipCreator.add_meta', add_meta_unit, mode='abstract'),
    Unit('meta.parse_inputs', parse_unit, mode='abstract'),
    Unit('ZipArchive', of_object(ZC, '_meta'), mode='abstract'),
    Unit('Workspace', of_object('bead.workspace:Workspace', 'file'), mode='abstract'),
    Unit('unpack_to', unpack_unit, mode='abstract'),
]
