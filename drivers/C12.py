import shutil
from pathlib import Path

from boxlib import *
from clilib import Cli, make_workspace, put, snapshot, differences, stamp
from bead.box import Box, resolve, search
from bead.box_index import BoxIndex
from bead.workspace import Workspace
from bead.tech.timestamp import timestamp

ODD = ['a_20200101', 'a_20200101T', 'a_20200101t0102', '_20200101', 'a_20200101T010203012345+0200', 'a_2020010', 'x.zip', 'x_20200101.zip', 'a_', '_a', '...', '.zip', 'zip', 'a.b_1',
       'a_20200101-', '20200101', 'T', '_', 'a_20200101T+', 'a-_20200101T-0', 'a\n', 'a_20200101\n', ' ', '-', '+', 'a_00000000']
BAD = ['a__b', '__', '__a', 'a__', 'a__20200101', '___']


def readable(name):
    return name not in ('', '.', '..') and '/' not in name and '__' not in name


def a_workspace(d, name):
    root = os.path.join(d.tmp, f'work{d.rng.randrange(10 ** 9)}', name)
    make_workspace(root, kind=d.rng.choice(KINDS), output={'f': content(d)})
    os.chmod(os.path.join(root, 'input'), 0o755)
    return root


def name_of(d):
    r = d.rng
    n = d.rng.choice([r.choice(ODD), r.choice(ODD), r.choice(NAMES), r.choice(NAMES), r.choice(BAD), d.name()])
    if r.random() < .3:
        n = n + r.choice(['_', '', 'T', '-1', '_1']) + r.choice(ODD + NAMES)
    n = n.replace('/', '')
    return n if n not in ('', '.', '..') else 'a'   # not names of folders


def box_dir(d, k=0, indexed=None):
    path = os.path.join(d.tmp, f'box{k}')
    os.makedirs(path)
    if d.rng.random() < .3 if indexed is None else indexed:
        BoxIndex(Path(path))
    return path


def forget_open_files():
    '''as if in another process'''
    from bead import zipopener
    getattr(zipopener, 'close_all', lambda: None)()


@case(20)
def saved_is_found(d):
    r = d.rng
    path = box_dir(d)
    box = Box('box', path)
    names = []
    base = name_of(d)
    for i in range(r.choice([1, 2, 3])):
        name = base if r.random() < .3 else r.choice([name_of(d), base + '_20200101', base + '-' + str(i)])
        ws = a_workspace(d, name)
        before = snapshot(path)
        try:
            stored = box.store(Workspace(ws), r.choice([timestamp(), stamp(i), stamp(i, '-0330'), stamp(i, '+1400')]))
        except Exception as e:
            expect(not readable(name) or isinstance(e, (OSError, AssertionError)), f'a name that can be read back is refused: {name!r}', error=repr(e))
            after = {k: v for k, v in snapshot(path).items() if 'sqlite' not in k}
            expect(not differences({k: v for k, v in before.items() if 'sqlite' not in k}, after), 'a refused save stored something', name=name)
            continue
        names.append((name, stored))
        expect(os.path.dirname(str(stored)) == str(box.directory) and os.path.isfile(stored), 'stored elsewhere', name=name, stored=stored)
        for b in (box, Box('box', path)):
            for n in {x for x, _ in names}:
                got = b.search().by_name(n).all()
                want = {info(str(p), x)['content_id'] for x, p in names if x == n}
                expect(all(x.name == n for x in got), 'found under another name', name=n, found=[x.name for x in got])
                expect({x.content_id for x in got} == want, 'a saved bead is not found by its name', name=n, names=[x for x, _ in names], found=[(x.name, x.content_id) for x in got], files=os.listdir(path))
                for x in got:
                    a = resolve([b], x)
                    expect((a.name, a.content_id, a.box_name) == (n, x.content_id, 'box'), 'resolves to another bead', name=n)
                    real = info(a.location, n)
                    expect(real['content_id'] == x.content_id, 'the archive has other content', name=n)


@case(10)
def only_the_right_archive_resolves(d):
    r = d.rng
    boxes, found_ = [], []
    for k in range(r.choice([1, 2, 2, 3])):
        path = box_dir(d, k, False)
        for _ in range(r.choice([1, 2, 4])):
            src = r.choice(found_) if found_ and r.random() < .5 else None
            if src and os.path.exists(src['path']):
                as_ = src['name'] if r.random() < .6 else r.choice(['a', 'b', 'ab', 'A', 'B', src['name'].swapcase(), src['name'] + ' ', ' ' + src['name'], src['name'] + 'x', src['name'] + '_1'])
                p = os.path.join(path, as_ + r.choice(['', '_20200101']) + '.zip')
                if not os.path.exists(p):
                    shutil.copy(src['path'], p)
                    found_.append(dict(info(p, as_), box=f'box{k}'))
            else:
                b = bead(d, path, ['a', 'b', 'ab', 'a*', 'a[b]'], past=True)
                if b:
                    found_.append(dict(b, box=f'box{k}'))
        if r.random() < .3:
            BoxIndex(Path(path)).rebuild()
        boxes.append(Box(f'box{k}', path))
    beads = search(boxes).all()
    if r.random() < .5:
        for b in beads:     # fill caches
            ask(lambda: resolve(boxes, b))
    # then the files change
    change = r.choice(['none', 'none', 'swap', 'remove', 'other', 'garbage', 'rename'])
    files = sorted({b['path'] for b in found_})
    p = r.choice(files)
    if change == 'swap' and len(files) > 1:
        q = r.choice([f for f in files if f != p])
        os.rename(p, p + '.tmp'), os.rename(q, p), os.rename(p + '.tmp', q)
    elif change == 'remove':
        os.unlink(p)
    elif change == 'other':
        same_time = r.random() < .4 and next((b['freeze_time_str'] for b in found_ if b['path'] == p), None)
        make(p, kind='other', data={'x': content(d)}, freeze_time=same_time or text(some_time(r)))
    elif change == 'garbage':
        with open(p, 'wb') as f:
            f.write(b'PK')
    elif change == 'rename':
        os.rename(p, os.path.join(os.path.dirname(p), 'other_20200101.zip'))
    again = r.random() < .45
    closed = not again and r.random() < .5
    if closed:
        forget_open_files()
    if again:
        boxes = [Box(b.name, b.location) for b in boxes]
    for b in beads:
        try:
            a = resolve(boxes, b)
            got = (str(a.name), a.content_id, a.box_name)
        except Exception as e:
            expect(change != 'none', f'a bead that was found does not resolve: {e!r}', bead=fk(b), files=[os.path.basename(f) for f in files])
            continue
        expect(got == (b.name, b.content_id, b.box_name), 'resolves to another bead', bead=fk(b), archive=got, change=change)
        base = os.path.basename(a.location)
        box = [x for x in boxes if x.name == b.box_name][0]
        expect(os.path.dirname(os.path.abspath(a.location)) == os.path.abspath(str(box.directory)), 'resolves to a file of another box', bead=fk(b), file=a.location)
        expect(base.startswith(b.name), 'resolves to a file of another name', bead=fk(b), file=base)


def ask(f):
    try:
        return f()
    except Exception:
        return None


def fk(b):
    return (b.name, b.content_id[:6], b.box_name)


@case(8)
def made_up_references(d):
    '''a reference with something changed does not resolve to anything else'''
    from bead.bead import Bead
    r = d.rng
    boxes = []
    for k in range(2):
        path = box_dir(d, k)
        for _ in range(3):
            bead(d, path, ['a', 'ab', 'b'], past=True)
        if os.path.exists(os.path.join(path, '.index.sqlite')):
            BoxIndex(Path(path)).sync()
        boxes.append(Box(f'box{k}', path))
    beads = search(boxes).all()
    if not beads:
        raise Skip('no beads')
    for _ in range(6):
        x, y, z = r.choice(beads), r.choice(beads), r.choice(beads)
        b = Bead()
        b.name, b.content_id, b.box_name, b.kind, b.freeze_time_str, b.inputs = x.name, y.content_id, r.choice([z.box_name, 'box2', '']), x.kind, x.freeze_time_str, []
        there = any((t.name, t.content_id, t.box_name) == (b.name, b.content_id, b.box_name) for t in beads)
        where = boxes if r.random() < .5 else [boxes[0]]
        for f in (lambda: resolve(where, b), lambda: boxes[0].resolve(b)):
            try:
                a = f()
            except Exception:
                continue
            got = (str(a.name), a.content_id, a.box_name)
            expect(there and got == (b.name, b.content_id, b.box_name), 'a reference without bead resolves', reference=fk(b), archive=got)


@case(3)
def save_command(d):
    '''bead save: the stored bead is found in that box, with the present as its time'''
    r = d.rng
    cli = Cli(d)
    name = name_of(d)
    if '\n' in name or name.startswith('-'):
        raise Skip('not for a command line')
    ws = a_workspace(d, name)
    paths = [box_dir(d, k) for k in range(r.choice([1, 2]))]
    for k, p in enumerate(paths):
        expect(cli('box', 'add', f'b{k}', p).ok, 'box add')
    which = r.randrange(len(paths))
    res = cli('save', f'b{which}', cwd=ws) if len(paths) > 1 or r.random() < .5 else cli('save', cwd=ws)
    zips = [[f for f in os.listdir(p) if 'sqlite' not in f] for p in paths]
    if not res.ok:
        expect(not readable(name), 'bead save failed', name=name, err=res.err)
        expect(not any(zips), 'a failed save stored something', name=name, files=zips)
        return
    expect([len(z) for z in zips] == [int(k == which) for k in range(len(paths))], 'stored elsewhere', files=zips)
    got = Box('x', paths[which]).search().by_name(name).all()
    expect(len(got) == 1 and got[0].name == name, 'the saved bead is not found by its name', name=name, files=zips)


if __name__ == '__main__':
    main('saves of workspaces with odd names and searches for them, resolution of references after changes of the files')
