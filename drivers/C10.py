import shutil
import sqlite3
from collections import Counter
from contextlib import closing
from datetime import datetime, timedelta, timezone
from pathlib import Path

from boxlib import *
from clilib import Cli, make_workspace, stamp
from bead.box import Box
from bead.box_index import BoxIndex
from bead.workspace import Workspace
from bead import zipopener


def forget():
    """commands are processes of their own: they do not have archives open that were replaced since"""
    getattr(zipopener, 'close_all', lambda: None)()


def refused(d, box, name=None):
    '''an archive that can be read but is not valid'''
    r = d.rng
    path = os.path.join(box, (name or r.choice(NAMES) + '_' + text(some_time(r))) + '.zip')
    if os.path.lexists(path):
        return
    e = parts(freeze_time=text(some_time(r, past=True)), kind='k', data={'f': content(d), 'g': b'g'}, inputs={'i': dict(kind='k', content_id='c', freeze_time=stamp(1))})
    m = json.loads(e['meta/bead'])
    k = r.randrange(6)
    if k == 0:
        e['data/extra'] = b'x'
    elif k == 1:
        e['data/g'] = b'h'
    elif k == 2:
        del e['data/g']
    elif k == 3:
        m['freeze_time'] = text(datetime.now(timezone.utc) + timedelta(days=r.choice([1, 400, 9000])))
    elif k == 4:
        del m[r.choice(['meta_version', 'kind', 'inputs', 'freeze_time', 'freeze_name'])]
    else:
        m['inputs'] = r.choice([{'i': {}}, {'i': None}, ['x'], {'i': dict(kind='k', content_id='c')}])
    e['meta/bead'] = dumps(m)
    write(path, e)


class Folder:
    '''a box, and what its index should have'''
    def __init__(s, d):
        r = s.rng = d.rng
        s.d = d
        s.box = os.path.join(d.tmp, r.choice(['box', 'b[x]', 'b?x', 'b%41', 'b#x', 'b x', 'é']))
        os.makedirs(s.box)
        s.names = r.sample(NAMES, r.choice([1, 2, 3, 6]))
        s.disk = {}        # path -> the valid bead in it
        s.index = {}       # bead -> its entry
        s.log = []
        s.stores = 0

    def path(s):
        return s.rng.choice([s.box, Path(s.box)])

    def ix(s):
        try:
            return BoxIndex(s.path())
        except Exception as e:
            expect(False, f'can not open the index: {e!r}', log=s.log)

    def do(s, what, f, *args):
        forget()
        s.log.append((what, *[os.path.basename(a) for a in args]))
        try:
            return f(*args)
        except Exception as e:
            expect(False, f'{what} fails: {e!r}', log=s.log)

    @staticmethod
    def id(b):
        return b['name'], b['content_id']

    # ---------------------------------------------------------- what happens on the disk
    def put(s):
        b = bead(s.d, s.box, s.names, past=True)
        if b is None:
            return
        if s.id(b) in {s.id(x) for x in s.disk.values()}:
            os.unlink(b['path'])
            return
        s.disk[b['path']] = b
        s.log.append(('new', os.path.basename(b['path'])))
        return b

    def put_like(s):
        '''an archive with a file name much like that of another'''
        if not s.disk:
            return
        r = s.rng
        b = r.choice(list(s.disk.values()))
        f = os.path.basename(b['path'])
        name = b['name']
        new = r.choice([name.swapcase(), 'x' + name, name + 'x', name[1:], name[:-1], name + ' '])
        p = os.path.join(s.box, new + f[len(name):])
        if not f.startswith(name) or os.path.lexists(p) or new in ('', '.', '..') or '__' in new or '/' in new or new.endswith('_20200101'):
            return
        make(p, kind='like', name=new, freeze_time=text(some_time(r, True)), data={'like': r.randbytes(5)}, inputs={'n': dict(kind='k', content_id='c', freeze_time=stamp(2))} if r.random() < .5 else {})
        s.disk[p] = info(p, new)
        s.log.append(('new', os.path.basename(p)))

    def put_copy(s):
        '''the same content under another name'''
        r = s.rng
        if not s.disk:
            return
        b = r.choice(list(s.disk.values()))
        name = r.choice(NAMES)
        p = os.path.join(s.box, name + r.choice(['_20200101', '', '_' + text(some_time(r))]) + '.zip')
        if os.path.lexists(p) or (name, b['content_id']) in {s.id(x) for x in s.disk.values()}:
            return
        shutil.copy(b['path'], p)
        s.disk[p] = info(p, name)
        s.log.append(('copy', os.path.basename(b['path']), os.path.basename(p)))

    def put_link(s):
        '''the archive is a link'''
        r = s.rng
        name = r.choice(s.names)
        p = os.path.join(s.box, name + '_' + text(some_time(r)) + '.zip')
        if os.path.lexists(p):
            return
        target = os.path.join(s.d.tmp, f'elsewhere{len(s.log)}', r.choice(['other_20200101.zip', name + '.zip', 'file', 'other.bak']))
        make(target, kind='k', name=name, freeze_time=text(some_time(r, True)), data={'l': r.randbytes(5)})
        os.symlink(target, p)
        s.disk[p] = info(p, name)
        s.log.append(('link', os.path.basename(p), target))

    def put_below(s):
        '''an archive in a folder of the box, not for the box'''
        p = os.path.join(s.box, s.rng.choice(['sub', 'sub.zip', '.sub']), s.rng.choice(s.names) + '_20200101.zip')
        if not os.path.lexists(p):
            make(p, kind='below', freeze_time=text(some_time(s.rng, True)), data={'l': s.rng.randbytes(5)})

    def put_bad(s):
        s.rng.choice([damaged, refused, refused])(s.d, s.box)

    def delete(s):
        fs = s.on_disk()
        if fs:
            p = s.rng.choice(fs)
            s.log.append(('delete', os.path.basename(p)))
            os.unlink(p)
            s.disk.pop(p, None)

    def rename(s):
        if s.disk:
            p = s.rng.choice(list(s.disk))
            q = os.path.join(s.box, s.disk[p]['name'] + '_' + text(some_time(s.rng)) + '.zip')
            if not os.path.lexists(q):
                s.log.append(('rename', os.path.basename(p), os.path.basename(q)))
                os.rename(p, q)
                s.disk[q] = dict(s.disk.pop(p), path=q)

    def replace(s):
        '''other content in the same file'''
        if s.disk:
            p = s.rng.choice(list(s.disk))
            old = s.disk.pop(p)
            os.unlink(p)
            s.log.append(('replace', os.path.basename(p)))
            if s.rng.random() < .5:
                refused(s.d, s.box, os.path.basename(p)[:-4])
                return
            make(p, kind='new', name=old['name'], freeze_time=text(some_time(s.rng, True)), data={'new': s.rng.randbytes(5)}, inputs={'n': dict(kind='k', content_id='c', freeze_time=stamp(2))})
            s.disk[p] = info(p, old['name'])

    def on_disk(s):
        return [os.path.join(s.box, n) for n in sorted(os.listdir(s.box)) if n.endswith('.zip') and not os.path.isdir(os.path.join(s.box, n))]

    # ---------------------------------------------------------- maintenance of the index
    def add(s):
        ps = s.on_disk() + [os.path.join(s.box, 'none_20200101.zip')]
        p = s.rng.choice(ps)
        s.do('index_archive_file', s.ix().index_archive_file, Path(p))
        if p in s.disk:
            s.index[s.id(s.disk[p])] = s.disk[p]

    def remove(s):
        ps = s.on_disk() + [b['path'] for b in s.index.values()] * 2 + [os.path.join(s.box, 'none_20200101.zip')]
        p = s.rng.choice(ps)
        s.do('unindex_archive_file', s.ix().unindex_archive_file, Path(p))
        s.index = {k: b for k, b in s.index.items() if b['path'] != p}

    def rebuild(s, how=None):
        how = how or s.rng.choice(['api', 'api', '--box', '--dir', '--all'])
        if how == 'api':
            s.do('rebuild', s.ix().rebuild)
        else:
            s.command('reindex', how)
        s.index = {s.id(b): b for b in s.disk.values()}

    def can_sync(s):
        return all(b['path'] not in s.disk or s.id(s.disk[b['path']]) == k for k, b in s.index.items()) and \
            all(b['path'] in s.disk or not os.path.lexists(b['path']) for b in s.index.values())

    def sync(s, how=None):
        if not s.can_sync():
            return      # files were replaced
        how = how or s.rng.choice(['api', 'api', '--box', '--dir', '--all'])
        if how == 'api':
            s.do('sync', s.ix().sync)
        else:
            s.command('index', how)
        s.index = {s.id(b): b for b in s.disk.values()}

    def command(s, what, how):
        forget()
        cli = Cli(s.d)
        if not hasattr(s, 'known'):
            s.known = True
            r = cli('box', 'add', 'thebox', s.box)
            if not r.ok:
                raise Skip
        s.log.append((what, how))
        args = {'--box': ['thebox'], '--dir': [s.box], '--all': []}[how]
        r = cli('box', what, how, *args)
        expect(r.ok, f'{what} fails: {r!r}', log=s.log)

    def store(s):
        s.stores += 1
        ws = os.path.join(s.d.tmp, f'ws{s.stores}', s.rng.choice(['stored', 'a_b']))
        os.makedirs(os.path.dirname(ws))
        make_workspace(ws, output={'f': s.rng.randbytes(4)})
        ft = stamp(s.stores)
        box = Box('box', Path(s.box))
        p = os.fspath(s.do('store', lambda x: box.store(Workspace(ws), ft), ws))
        s.disk[p] = info(p, os.path.basename(ws))
        # (the box has an index)
        s.index[s.id(s.disk[p])] = s.disk[p]

    def check(s):
        ix = s.ix()
        try:
            got = ix.get_beads([], 'box')
        except Exception as e:
            expect(False, f'the index can not be read: {e!r}', log=s.log)
        want = s.index.values()
        expect(Counter(map(found, got)) == Counter(map(key, want)), 'the index has other beads than it should', got=sorted(map(found, got)), want=sorted(map(key, want)), log=s.log)
        for k, b in s.index.items():
            p = ix.get_file_path(*k)
            expect(os.fspath(p) == b['path'], 'a bead is indexed with another file', bead=k, got=p, want=b['path'], log=s.log)


@case(40)
def histories(d):
    r = d.rng
    s = Folder(d)
    for _ in range(r.choice([0, 1, 3])):
        s.put()
    for _ in range(r.choice([0, 0, 2])):
        s.put_bad()
    s.ix()
    ops = [s.put] * 3 + [s.put_like, s.put_like, s.put_copy, s.put_copy, s.put_link, s.put_below, s.put_bad, s.delete, s.rename, s.replace] + [s.add] * 3 + [s.remove] * 2 + [s.rebuild, s.sync, s.sync, s.store]
    for _ in range(r.choice([5, 8, 14])):
        op = r.choice(ops)
        op()
        if op in (s.add, s.remove, s.rebuild, s.sync, s.store):
            s.check()


@case(20)
def whole(d):
    '''rebuild and sync from any state, repeated'''
    r = d.rng
    s = Folder(d)
    s.ix()
    for _ in range(r.choice([1, 3, 6])):
        if s.put() and r.random() < .6:
            s.add()
    for _ in range(r.choice([0, 1, 3])):
        s.put_bad()
    for _ in range(r.choice([0, 1, 3])):
        r.choice([s.delete, s.rename, s.put, s.put_like, s.put_like, s.put_copy, s.put_link, s.put_below, s.delete])()
    op = r.choice([s.rebuild, s.sync])
    how = r.choice(['api', 'api', '--box', '--dir', '--all'])
    op(how)
    s.check()
    op(how)
    s.check()


@case(10)
def failures(d):
    '''what fails in the middle changes nothing'''
    r = d.rng
    s = Folder(d)
    s.ix()
    for _ in range(3):
        s.put()
    for p in list(s.disk):
        s.do('index_archive_file', s.ix().index_archive_file, Path(p))
        s.index[s.id(s.disk[p])] = s.disk[p]
    new = os.path.join(s.box, 'fresh_20200101.zip')
    make(new, name='fresh', freeze_time=stamp(5), data={'x': b'fresh'}, inputs={n: dict(kind='k', content_id='c', freeze_time=stamp(2)) for n in ('in1', 'in2', 'in3')})
    old = [p for p in s.disk if s.disk[p]['inputs']]
    what = r.choice(['add', 'remove'] if old else ['add'])
    trigger = {'add': r.choice(["BEFORE INSERT ON inputs WHEN NEW.input_name = 'in2'", "BEFORE INSERT ON inputs WHEN NEW.input_name = 'in3'"]),
               'remove': r.choice(['BEFORE DELETE ON beads', 'AFTER DELETE ON beads', 'AFTER DELETE ON inputs'])}[what]
    db = os.path.join(s.box, '.index.sqlite')
    try:
        with closing(sqlite3.connect(db)) as c:
            c.execute(f"CREATE TRIGGER failing {trigger} BEGIN SELECT RAISE(ABORT, 'fails'); END")
            c.commit()
    except sqlite3.Error:
        raise Skip
    s.log.append((what, 'fails', trigger))
    forget()
    try:
        if what == 'add':
            s.ix().index_archive_file(Path(new))
        else:
            s.ix().unindex_archive_file(Path(r.choice(old)))
    except Exception:
        pass
    with closing(sqlite3.connect(db)) as c:
        c.execute('DROP TRIGGER failing')
        c.commit()
    s.check()
    s.disk[new] = info(new, 'fresh')
    s.do('index_archive_file', s.ix().index_archive_file, Path(new))
    s.index[s.id(s.disk[new])] = s.disk[new]
    s.check()


if __name__ == '__main__':
    main('random histories of a box and its index, against a model of what the index should have')
