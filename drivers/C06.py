from pathlib import Path

from clilib import *
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive

ALIKE = [['a*', 'ab', 'a?', '[a]b'], ['n1', 'N1', 'n10'], ['é', 'É', 'e\u0301'], ['a', 'A', 'a '], ['a_b', 'a-b', 'a b'], ['x.zip', 'x', 'X.zip']]
GOOD = ['a*', '[a]b', 'a?', 'N1', 'n10', 'É', 'e\u0301', 'A', 'a ', 'a b', 'x', 'X.zip', 'n1', 'in', 'a', 'b b', 'é', 'a_b', 'x.zip', '.hidden', 'input', 'a-b', "q'", 'ab', 'a.b', '_']
BAD = ['', '.', '..', 'a/b', '../x', '/abs', 'a__b', '__', 'in/', 'x/../in', '../output', '../code', 'in/sub']


def archive(d, name, i, damaged=False):
    r = d.rng
    path = os.path.join(d.tmp, 'beads', f'{name}_{stamp(i)}.zip')
    data = only_files(tree(d, 2, ['a', 'b', 'sub', 'é', 'z z', 'data', '..x', '.gitignore', '.git', '.nfs1', '.h', 'x.sh']))
    e = parts(name=name, kind=r.choice(['kind', f'kind {name}', 'é']), freeze_time=stamp(i, r.choice(['+0000', '+0200'])), data=data)
    if damaged:
        k = r.randrange(3)
        if k == 0:      # unpacking fails on an entry in the middle
            e['data/m-broken'] = b'0123456789' * 20
            write(path, e, compression=zipfile.ZIP_STORED)
            b = open(path, 'rb').read().replace(b'0123456789' * 20, b'0123456789' * 19 + b'X123456789', 1)
            open(path, 'wb').write(b)
        elif k == 1:    # an entry and a folder of the same name
            e['data/m'] = b'file'
            e['data/m/x'] = b'in a folder?'
            write(path, e)
        else:
            e['data/../../out'] = b'out of it'
            write(path, e)
    else:
        write(path, e)
    m = json.loads(e['meta/bead'])
    return path, dict(kind=m['kind'], content_id=H(e['meta/manifest']), freeze_time=m['freeze_time']), data


def setup(d):
    root = os.path.join(d.tmp, 'ws')
    kind = d.rng.choice(['the kind', ' k ', 'é', '007', 'K\n', 'null'])
    d.kind = kind
    make_workspace(root, kind=kind, output={'o': b'out'}, code={'code': b'c', 'in': b'not the input', 'sub/x': b'1'})
    put(os.path.join(root, 'temp'), {'t': b'tt'})
    os.makedirs(os.path.join(d.tmp, 'x'))
    put(d.tmp, {'x/keep': b'keep me', 'code/keep': b'keep'})
    return root


def mode_of(p):
    return stat.S_IMODE(os.lstat(p).st_mode)


def input_data(root, nick):
    return read_tree(os.path.join(root, 'input', nick))


class Model:
    '''what should be there'''
    def __init__(self, d, root):
        self.d, self.root = d, root
        self.records, self.data = {}, {}
        self.last = snapshot(d.tmp)

    def check(self, nick, what, ok, records, data, **kw):
        '''records/data of nick after the operation, None: not there; False: not known'''
        d, root = self.d, self.root
        now = snapshot(d.tmp)
        base = './ws/input/' + nick if nick in GOOD else None
        mine = lambda p: base is not None and (p == base or p.startswith(base + '/')) or p == './ws/.bead-meta/bead'
        diff = {k: x for k, x in differences(self.last, now).items() if not mine(k) and not k.startswith(('./config', './box/.index'))}
        expect(not diff, f'{what}: something else changed', diff=diff, nick=nick, ok=ok, **kw)
        m = ws_meta(root)
        expect(m['kind'] == d.kind, f'{what}: the kind changed', meta=m, **kw)
        exp = {n: x for n, x in self.records.items() if n != nick}
        got = {n: x for n, x in m['inputs'].items() if n != nick}
        expect(got == exp, f'{what}: records of other inputs changed', got=got, expected=exp, nick=nick, **kw)
        expect(mode_of(os.path.join(root, 'input')) & 0o200 == 0, f'{what}: the input folder is not write protected', ok=ok, nick=nick, **kw)
        if records is not False:
            expect(m['inputs'].get(nick) == records, f'{what}: the record of the input', got=m['inputs'].get(nick), expected=records, nick=nick, **kw)
        if data is not False and nick in GOOD:
            p = os.path.join(root, 'input', nick)
            there = os.path.isdir(p)
            expect(there == (data is not None), f'{what}: the folder of the input', there=there, nick=nick, **kw)
            if data is not None:
                expect(input_data(root, nick) == data, f'{what}: the data of the input', got=input_data(root, nick), expected=data, nick=nick, **kw)
                writable = [q for q, x in snapshot(p).items() if x[0] != 'link' and x[1] & 0o200]
                expect(not writable, f'{what}: the data is not read-only', writable=writable, nick=nick, **kw)
        # what the code tells
        w = Workspace(root)
        for n in GOOD:
            expect(w.has_input(n) == (n in m['inputs']), 'has_input', nick=n, **kw)
            expect(w.is_loaded(n) == os.path.isdir(os.path.join(root, 'input', n)), 'is_loaded', nick=n, **kw)
        self.records = m['inputs']
        self.data = {n: input_data(root, n) for n in os.listdir(os.path.join(root, 'input'))}
        self.last = now


@case(14)
def operations(d):
    r = d.rng
    root = setup(d)
    mod = Model(d, root)
    names = r.sample(GOOD, 3) if r.random() < .5 else r.choice(ALIKE)
    log = []
    for i in range(r.randrange(4, 12)):
        nick = r.choice(names) if r.random() < .85 else r.choice(BAD)
        bad = nick in BAD
        op = r.choice(['load', 'load', 'add', 'unload', 'delete', 'damaged', 'relink'])
        w = Workspace(root)
        rec, data = mod.records.get(nick), mod.data.get(nick)
        if op in ('load', 'damaged'):
            if data is not None and nick in GOOD:
                continue
            path, new, files = archive(d, r.choice(['n1', 'n2']), i, op == 'damaged')
            mod.last = snapshot(d.tmp)
            f = lambda: w.load(nick, ZipArchive(path))
        elif op == 'add':
            new = dict(kind=r.choice(['k1', 'é']), content_id=r.choice([f'cid-{i}', 'cid'] + [x['content_id'] for x in mod.records.values()]), freeze_time=stamp(i))
            f = lambda: w.add_input(nick, new['kind'], new['content_id'], new['freeze_time'])
        elif op == 'unload':
            f = lambda: w.unload(nick)
        elif op == 'relink':
            if data is None or not nick in GOOD or not os.path.isdir(os.path.join(root, 'input', nick)):
                continue
            # a link in the input data, to something else
            p = os.path.join(root, 'input', nick)
            os.chmod(p, 0o755)
            l = os.path.join(p, f'link-{i}')
            os.symlink(r.choice([os.path.join(d.tmp, 'x'), os.path.join(d.tmp, 'x/keep'), '../../code', 'nowhere']), l)
            os.chmod(p, 0o555)
            mod.last = snapshot(d.tmp)
            continue
        else:
            f = lambda: w.delete_input(nick)
        try:
            f()
            ok = True
        except Exception as e:
            ok = False
            err = repr(e)
        log.append((op, nick, ok))
        kw = dict(log=log)
        if bad:
            expect(not ok, f'{op}: the name can not be used', nick=nick, log=log)
            mod.check(nick, op, ok, None, None, **kw)
        elif op == 'load':
            expect(ok, 'load failed', log=log)
            mod.check(nick, op, ok, new, files, **kw)
        elif op == 'damaged':
            mod.check(nick, op, ok, False, False, **kw)
            return      # what is there of its data is not specified
        elif op == 'add':
            expect(ok, 'add_input failed', log=log)
            mod.check(nick, op, ok, new, data, **kw)
        elif op == 'unload':
            if rec is None:
                mod.check(nick, op, ok, rec, data, **kw)
            elif data is not None:
                expect(ok, 'unload failed', log=log)
                mod.check(nick, op, ok, rec, None, **kw)
            else:
                mod.check(nick, op, ok, rec, None, **kw)
        elif op == 'delete':
            if rec is None:
                expect(not ok, 'deleted an input that is not there', log=log)
                mod.check(nick, op, ok, None, data, **kw)
            else:
                expect(ok, 'delete failed', log=log)
                mod.check(nick, op, ok, None, None, **kw)


@case(8)
def commands(d):
    r = d.rng
    root = setup(d)
    cli = Cli(d)
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    expect(cli('box', 'add', 'box', box).ok, 'box add')
    made = {}
    for i, n in enumerate(['n1', 'n2', 'n1']):
        path, rec, data = archive(d, n, i * 1000)
        os.rename(path, os.path.join(box, os.path.basename(path)))
        made[n] = (rec, data)
    if r.random() < .3:
        cli('box', 'reindex', '--box', 'box')
    mod = Model(d, root)
    names = r.sample(GOOD, 2) + ['n1'] if r.random() < .5 else r.choice(ALIKE)
    for i in range(r.randrange(3, 8)):
        nick = r.choice(names) if r.random() < .85 else r.choice([b for b in BAD if not b.startswith('-')])
        bad = nick in BAD
        rec, data = mod.records.get(nick), mod.data.get(nick)
        op = r.choice(['add', 'add', 'load', 'unload', 'delete', 'update'])
        ref = r.choice(['n1', 'n2'])
        if op == 'add':
            res = cli('input', 'add', nick, ref, cwd=root)
            new, files = made[ref]
            if bad:
                expect(not res.ok, 'a name that can not be read back is taken', log=cli.log)
                mod.check(nick, op, res.ok, None, None, log=cli.log)
            else:
                expect(res.ok, 'input add failed', log=cli.log)
                mod.check(nick, op, res.ok, new, files, log=cli.log)
        elif op == 'update':
            if rec is not None and r.random() < .5:
                res = cli('input', 'update', nick, ref, cwd=root)
                new, files = made[ref]
                if data is not None and rec['content_id'] == new['content_id']:
                    new, files = rec, data
                mod.check(nick, op, res.ok, new, files, log=cli.log)
            elif bad:
                res = cli('input', 'update', nick, ref, cwd=root)
                expect(not res.ok, 'updated an input that is not there', log=cli.log)
                mod.check(nick, op, res.ok, None, None, log=cli.log)
        elif op == 'load':
            res = cli('input', 'load', nick, cwd=root)
            if rec is not None:
                mod.check(nick, op, res.ok, rec, False, log=cli.log)
            else:
                expect(not res.ok, 'loaded an input that is not there', log=cli.log)
                mod.check(nick, op, res.ok, None, data, log=cli.log)
        elif op == 'unload':
            res = cli('input', 'unload', nick, cwd=root)
            mod.check(nick, op, res.ok, rec, None if rec is not None else data, log=cli.log)
        elif op == 'delete':
            res = cli('input', 'delete', nick, cwd=root)
            expect(res.ok == (rec is not None), 'delete', log=cli.log)
            mod.check(nick, op, res.ok, None, None, log=cli.log)


@case(2)
def linked_input(d):
    '''the folder of an input is a link: what it leads to is not of this input'''
    r = d.rng
    root = setup(d)
    a, b = r.sample(GOOD, 2)
    w = Workspace(root)
    path, new, files = archive(d, 'n1', 1)
    w.load(a, ZipArchive(path))
    w.add_input(b, 'k', 'cid', stamp(2))
    inputs = os.path.join(root, 'input')
    os.chmod(inputs, 0o755)
    os.symlink(r.choice([a, os.path.join(inputs, a), '../sub', os.path.join(d.tmp, 'x')]), os.path.join(inputs, b))
    os.chmod(inputs, 0o555)
    before = snapshot(d.tmp)
    records = ws_meta(root)
    how = r.choice(['unload', 'delete', 'unload command', 'delete command'])
    try:
        if how == 'unload':
            w.unload(b)
        elif how == 'delete':
            w.delete_input(b)
        else:
            Cli(d)('input', how.split()[0], b, cwd=root)
    except Exception:
        pass
    mine = lambda k: k in ('./ws/.bead-meta/bead', './ws/input/' + b) or k.startswith('./config')
    diff = {k: x for k, x in differences(before, snapshot(d.tmp)).items() if not mine(k)}
    expect(not diff, f'{how}: something else changed', diff=diff, nick=b, other=a)
    m = ws_meta(root)
    expect({n: x for n, x in m['inputs'].items() if n != b} == {n: x for n, x in records['inputs'].items() if n != b}, f'{how}: records of other inputs changed')
    expect(mode_of(inputs) & 0o200 == 0, f'{how}: the input folder is not write protected')


main('C06')
