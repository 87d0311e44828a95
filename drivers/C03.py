import shutil

from clilib import *
from bead.workspace import Workspace

SKIP = ('input', 'output', 'temp', '.bead-meta')
STAMP = '20150301T120000000000+0000'


def expected(files):
    '''entries of the sections, by the property'''
    out = {}
    for p, b in files.items():
        if p.startswith('output/'):
            out['data/' + p[len('output/'):]] = b
        elif p.split('/')[0] not in SKIP:
            out['code/' + p] = b
    return out


def check(zip_path, files, **data):
    with zipfile.ZipFile(zip_path) as z:
        names = z.namelist()
        expect(len(names) == len(set(names)), 'an entry is stored twice', names=names, **data)
        got = {n: z.read(n) for n in names}
    exp = expected(files)
    sections = {n: b for n, b in got.items() if n.startswith(('data/', 'code/')) and not n.endswith('/')}
    diff = {k: (exp.get(k, '-'), sections.get(k, '-')) for k in sorted(set(exp) | set(sections)) if exp.get(k) != sections.get(k)}
    expect(not diff, 'the archive does not hold exactly the output and code files', diff=diff, **data)
    expect(got.keys() - sections.keys() - {n for n in got if n.endswith('/')} == {'meta/bead', 'meta/manifest'},
           'unexpected entries', names=names, **data)
    manifest = json.loads(got['meta/manifest'])
    listed = {n: H(got[n]) for n in got if n in exp or n == 'meta/bead'}
    diff = {k: (listed.get(k, '-'), manifest.get(k, '-')) for k in sorted(set(listed) | set(manifest)) if listed.get(k) != manifest.get(k)}
    expect(not diff, 'the manifest does not list exactly the entries with their hashes', diff=diff, **data)


NAMES = ['a', 'b', 'input', 'output', 'temp', '.bead-meta', 'data', 'code', 'meta', '.hidden', 'é', 'x y', 'Input', 'temp2', 'outputs',
         '.git', 'a.zip', '__pycache__', 'x.pyc', '#x#', 'x~', '.DS_Store', 'manifest', 'bead', 'a\\b', 'ab', 'a.b', '-', 'input.txt', ' lead', 'trail ', 'e\u0301', 'output.py', 'temp.', '.bead-meta.bak', 'input ', 'line\n', 'x.', 'A', '.keep', '.gitkeep', '.gitignore', 'node_modules', 'Thumbs.db', 'venv', '.ipynb_checkpoints', 'core', 'nul', 'tmp']


def fill(d, root):
    r = d.rng
    files = {}
    big = r.random() < .03
    for sub, depth in (('', r.randrange(3)), ('output/', r.randrange(3))):
        for p, b in tree(d, depth, NAMES, big).items():
            if not sub and p.split('/')[0] in SKIP:
                continue
            if not (sub + p).startswith('.bead-meta/bead'):
                files[sub + p] = b
    if r.random() < .1:
        files[r.choice(['', 'output/']) + 'nest/' + '/'.join(r.choice(['a', 'b', 'deep', 'output', 'é']) for _ in range(r.choice([5, 9, 17, 40]))) + '/end'] = content(d)
        files = {p: b for p, b in files.items() if p.startswith('output/') or p.split('/')[0] not in SKIP}
    if r.random() < .03:
        top = r.choice(['many', 'output', 'output/many'])
        files.update({f'{top}/m{i}': b'%d' % (i % 7) for i in range(r.choice([70, 300]))})
    for s in ('temp', '.bead-meta', 'input', 'input/x', 'temp/output', 'input/x/y'):
        if r.random() < .3:
            files[s + '/extra'] = b'not to be stored'
    put(root, files)
    return only_files(files)


def make_ws(d, name='w s'):
    root = os.path.join(d.tmp, name)
    if d.rng.random() < .7:
        make_workspace(root)
        os.chmod(os.path.join(root, 'input'), 0o755)
    else:
        Workspace(root).create('kind')
        os.chmod(os.path.join(root, 'input'), 0o755)
    return root


def compression(d):
    os.environ.pop('BEAD_ZIP_COMPRESSION', None)
    c = d.rng.choice([None, None, 'off', 'stored', 'deflated', 'lzma', 'x'])
    if c:
        os.environ['BEAD_ZIP_COMPRESSION'] = c
    return c


@case()
def pack(d):
    r = d.rng
    root = make_ws(d, r.choice(['w', 'output', 'input', 'w s', 'temp', 'a_b', 'meta']))
    files = fill(d, root)
    c = compression(d)
    for i in range(r.choice([1, 1, 2])):
        target = os.path.join(d.tmp, f'saved-{i}.zip')
        Workspace(root).pack(target, STAMP, r.choice(['', 'é comment']))
        check(target, files, compression=c)
        # a change in between two saves of the same workspace
        for p in list(files):
            if r.random() < .3:
                os.unlink(os.path.join(root, p))
                del files[p]
            elif r.random() < .3:
                files[p] = content(d)
                put(root, {p: files[p]})


@case(3)
def links(d):
    '''links are followed: the content of a linked file or folder is stored'''
    r = d.rng
    root = make_ws(d)
    files = fill(d, root)
    outside = os.path.join(d.tmp, 'elsewhere')
    put(outside, {'one': b'1', 'sub/two': b'22'})
    for where in ('', 'output/'):
        if r.random() < .7:
            os.symlink(os.path.join(outside, 'one'), os.path.join(root, where + 'link-file'))
            files[where + 'link-file'] = b'1'
        if r.random() < .7:
            os.symlink(outside, os.path.join(root, where + 'link-dir'))
            files[where + 'link-dir/one'] = b'1'
            files[where + 'link-dir/sub/two'] = b'22'
    if r.random() < .4:
        out = {p[len('output/'):]: b for p, b in files.items() if p.startswith('output/')}
        os.symlink(r.choice(['output', os.path.join(root, 'output')]), os.path.join(root, 'results'))
        files.update({'results/' + p: b for p, b in out.items()})
    if r.random() < .3:
        put(root, {'temp/kept': b'kept', 'a.txt': b'aa'})
        files['a.txt'] = b'aa'
        os.symlink('../temp/kept', os.path.join(root, 'output', 'from-temp'))
        files['output/from-temp'] = b'kept'
        if os.path.isdir(os.path.join(root, 'results')):
            files['results/from-temp'] = b'kept'
    target = os.path.join(d.tmp, 'saved.zip')
    Workspace(root).pack(target, STAMP, '')
    check(target, files)


@case(3)
def hardlinks_and_empty(d):
    r = d.rng
    root = make_ws(d)
    files = {'code': b'', 'output/e': b'', 'x/y/z': b'', 'output/d/e': b'same', 'same': b'same'}
    put(root, files)
    os.link(os.path.join(root, 'same'), os.path.join(root, 'output/same'))
    files['output/same'] = b'same'
    os.makedirs(os.path.join(root, 'empty/er'))
    for p in files:
        if r.random() < .5:
            os.chmod(os.path.join(root, p), r.choice([0o400, 0o444, 0o644, 0o755]))
        if r.random() < .3:
            os.utime(os.path.join(root, p), (1e9, r.choice([1e9, 315532800 + 10**6, 4e9])))
    target = os.path.join(d.tmp, 'saved.zip')
    Workspace(root).pack(target, STAMP, '')
    check(target, files)


@case(3)
def save_command(d):
    r = d.rng
    cli = Cli(d)
    box = os.path.join(d.tmp, 'box')
    os.makedirs(box)
    if r.random() < .5:
        box2 = os.path.join(d.tmp, 'box2')
        os.makedirs(box2)
        expect(cli('box', 'add', 'box2', box2).ok, 'box add failed', log=cli.log)
    expect(cli('box', 'add', 'box', box).ok, 'box add failed', log=cli.log)
    root = make_ws(d, 'ws')
    files = fill(d, root)
    compression(d)
    sub = r.choice(['.', '.', 'output', 'temp'])
    res = cli('save', 'box', cwd=os.path.join(root, sub))
    expect(res.ok, 'save failed', log=cli.log)
    saved = [f for f in os.listdir(box) if f.endswith('.zip')]
    expect(len(saved) == 1, 'not exactly one archive is saved', saved=saved, log=cli.log)
    check(os.path.join(box, saved[0]), files)


main('C03')
