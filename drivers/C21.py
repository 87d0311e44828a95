from pathlib import Path

from clilib import *
from bead.tech import fs
from bead.workspace import Workspace

MODES_F = (0o600, 0o400, 0o444, 0o000, 0o644, 0o755, 0o500, 0o200, 0o4755, 0o1600)
MODES_D = (0o755, 0o700, 0o555, 0o500, 0o750, 0o511, 0o1555, 0o777)


def make_links(d, inside, outside):
    '''links in folders of the tree, to things outside and inside'''
    r = d.rng
    dirs = [t for t, ds, fs_ in os.walk(inside)]
    targets = [outside] + [os.path.join(t, n) for t, ds, fs_ in os.walk(outside) for n in ds + fs_]
    inner = [os.path.join(t, n) for t, ds, fs_ in os.walk(inside) for n in ds + fs_]
    links = []
    for i in range(r.randrange(0, 5)):
        k = r.random()
        if k < .7:
            to = r.choice(targets)
        elif k < .85 and inner:
            to = r.choice(inner)
        elif k < .93:
            to = os.path.join(d.tmp, 'nowhere')
        else:
            to = r.choice(['..', '.', 'loop%d' % i])
        at = os.path.join(r.choice(dirs), r.choice(['loop%d', 'link%d', 'zlink%d']) % i)
        if r.random() < .4 and os.path.isabs(to):
            to = os.path.relpath(to, os.path.dirname(at))
        os.symlink(to, at)
        links.append(at)
    return links


def modes(d, root):
    r = d.rng
    for t, ds, fs_ in os.walk(root, topdown=False):
        for n in fs_:
            p = os.path.join(t, n)
            if not os.path.islink(p) and r.random() < .6:
                os.chmod(p, r.choice(MODES_F))
        if r.random() < .6:
            os.chmod(t, r.choice(MODES_D))


def scene(d, base):
    '''an inside tree and what is around it'''
    r = d.rng
    names = ['a', 'b', 'f.txt', '.h', 'x y', 'é', '-rf', '*', 'c', 'd']
    outside = os.path.join(base, 'outside')
    put(outside, tree(d, 2, names) or {'f': b'1'})
    if r.random() < .5:
        put(outside, {'precious/file': b'p', 'precious/other': b''})
    inside = os.path.join(base, 'place', 'inside')
    os.makedirs(os.path.dirname(inside))
    put(inside, tree(d, 3, names))
    # neighbours with similar names
    put(os.path.join(base, 'place'), {'inside2/f': b'n', 'insid': b'n', 'inside.zip': b'z'})
    return inside, outside


def around(base, gone):
    s = snapshot(base)
    rel = './' + os.path.relpath(gone, base)
    return {k: v for k, v in s.items() if k != rel and not k.startswith(rel + '/')}


@case(30)
def rmtree_of_a_random_tree(d):
    r = d.rng
    base = os.path.join(d.tmp, 'base')
    inside, outside = scene(d, base)
    make_links(d, inside, outside)
    modes(d, outside)
    modes(d, inside)
    before = around(base, inside)
    fs.rmtree(inside if r.random() < .5 else Path(inside))
    expect(not os.path.lexists(inside), 'rmtree leaves something of the tree', left=sorted(snapshot(inside)))
    unchanged(before, around(base, inside), 'rmtree changes something outside of the tree')


@case(8)
def rmtree_of_a_link(d):
    '''deletes nothing of what the link points to'''
    r = d.rng
    base = os.path.join(d.tmp, 'base')
    inside, outside = scene(d, base)
    modes(d, outside)
    link = os.path.join(base, 'link')
    os.symlink(r.choice([outside, 'outside', 'place/inside', 'nowhere']), link)
    before = around(base, link)
    try:
        fs.rmtree(Path(link))
    except OSError:
        pass
    unchanged(before, around(base, link), 'rmtree of a link changes what is behind the link')


@case(10)
def permissions(d):
    r = d.rng
    p = os.path.join(d.tmp, 'p')
    isdir = r.random() < .5
    if isdir:
        put(p, {'f': b'x', 'g/h': b'y'})
    else:
        put(d.tmp, {'p': b'x'})
    put(d.tmp, {'q': b'x'})
    for i in range(40):
        m = r.randrange(0o10000)
        os.chmod(p, m)
        m = stat.S_IMODE(os.stat(p).st_mode)    # some bits may not be set
        if isdir and m & 0o500 != 0o500:
            rest = None
        else:
            rest = around(d.tmp, p)
        on = r.random() < .5
        (fs.make_writable if on else fs.make_readonly)(Path(p))
        now = stat.S_IMODE(os.stat(p).st_mode)
        expect(bool(now & 0o200) == on, 'the owner-write permission is not as asked', before=oct(m), after=oct(now), writable=on)
        expect((now & ~0o200) == (m & ~0o200), 'another permission is changed', before=oct(m), after=oct(now), writable=on)
        if rest is not None and isdir:
            unchanged(rest, around(d.tmp, p), 'permissions of something else are changed')
            os.chmod(p, 0o700)
            expect([stat.S_IMODE(os.stat(os.path.join(p, n)).st_mode) & 0o200 for n in ('f', 'g', 'g/h')] == [0o200] * 3, 'permissions of what is in the folder are changed')


def a_workspace(d, base, kind):
    r = d.rng
    place = r.choice(['place'] * 4 + ['inside', 'output'])
    inside, outside = os.path.join(base, place, r.choice(['inside'] * 5 + ['output', 'input', 'temp', 'x y', 'inside ', '.hidden', '-rf', '*'])), os.path.join(base, 'outside')
    names = ['a', 'b', 'f.txt', '.h', 'x y', 'é', '-rf', '.nfs1', '.git']
    put(outside, tree(d, 2, names) or {'f': b'1'})
    os.makedirs(os.path.dirname(inside))
    put(os.path.join(base, place), {'inside2/f': b'n', 'insid': b'n', 'inside.zip': b'z'})
    make_workspace(inside, code=tree(d, 1, names), output=tree(d, 1, names))
    os.chmod(os.path.join(inside, 'input'), 0o755)
    put(os.path.join(inside, 'input'), tree(d, 2, names))
    ok = True
    if kind != 'valid':
        ok = False
        for part in r.sample(['input', 'output', 'temp', '.bead-meta', '.bead-meta/bead'], r.choice([1, 1, 2, 5])):
            p = os.path.join(inside, part)
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.remove(p)
    make_links(d, inside, outside)
    modes(d, outside)
    return inside, outside, ok


@case(14)
def discard(d):
    r = d.rng
    base = os.path.join(d.tmp, 'base')
    inside, outside, ok = a_workspace(d, base, r.choice(['valid', 'valid', 'partial']))
    force = r.random() < .5
    # what the command needs stays readable
    for t, ds, fs_ in os.walk(inside, topdown=False):
        if r.random() < .5:
            os.chmod(t, r.choice([0o755, 0o555, 0o500]))
        for n in fs_:
            p = os.path.join(t, n)
            if not os.path.islink(p) and r.random() < .5 and '.bead-meta' not in t:
                os.chmod(p, r.choice(MODES_F))
    sub = [t for t, ds, fs_ in os.walk(inside)]
    how = r.choice(['cwd', 'cwd', 'deep'] if ok else ['cwd'])
    cwd = inside if how == 'cwd' else r.choice(sub)
    before = around(base, inside)
    all_before = snapshot(base)
    cli = Cli(d)
    res = cli('discard', *(['--force'] if force else []), cwd=cwd)
    data = dict(result=res, valid=ok, force=force, cwd=cwd)
    unchanged(before, around(base, inside), 'discard changes something outside of the workspace', **data)
    if ok or force:
        expect(res.ok, 'discard fails', **data)
        expect(not os.path.lexists(inside), 'discard leaves something', left=sorted(snapshot(inside)), **data)
    else:
        unchanged(all_before, snapshot(base), 'an invalid workspace is discarded without force', **data)
        expect(not res.ok, 'an invalid workspace is discarded without force', **data)


@case(10)
def removing_input_data(d):
    '''unload, delete_input: only the data of that input goes'''
    r = d.rng
    base = os.path.join(d.tmp, 'base')
    names = ['a', 'b', 'f.txt', '.h', 'x y', 'é', '-rf', '.nfs1', '.git']
    inside, outside = os.path.join(base, 'place', 'inside'), os.path.join(base, 'outside')
    put(outside, tree(d, 2, names) or {'f': b'1'})
    nicks = r.sample(['x', 'xy', 'x1', 'b', 'input'], 2)
    spec = {n: dict(kind='k', content_id='c', freeze_time=stamp(5)) for n in nicks}
    make_workspace(inside, inputs=spec)
    os.chmod(os.path.join(inside, 'input'), 0o755)
    for n in nicks:
        if n == nicks[0] or r.random() < .7:
            put(os.path.join(inside, 'input', n), tree(d, 2, names))
            make_links(d, os.path.join(inside, 'input', n), outside)
            modes(d, os.path.join(inside, 'input', n))
    modes(d, outside)
    os.chmod(os.path.join(inside, 'input'), 0o555)
    gone = os.path.join(inside, 'input', nicks[0])
    before = around(base, gone)
    how = r.choice(['unload', 'delete', 'workspace'])
    if how == 'workspace':
        Workspace(inside).unload(nicks[0])
        res = None
    else:
        res = Cli(d)('input', how, nicks[0], cwd=inside)
        expect(res.ok, f'input {how} fails', result=res)
    expect(not os.path.lexists(gone), f'{how} leaves something of the input data', result=res, left=sorted(snapshot(gone)))
    after = around(base, gone)
    unchanged(before, after, f'{how} changes something outside of the input data', result=res,
              ignore=lambda p: how == 'delete' and '.bead-meta/bead' in p)


main()
