from pathlib import Path
import posixpath

from clilib import *
from bead.ziparchive import ZipArchive
from bead.workspace import Workspace

PLAIN = ['a', 'b', 'f.txt', 'd/e', 'd/f', 'd/g/h', 'x y', 'é', '.h', '-x', 'a\\b', '...', '..x', 'x..', 'code/x', 'data/x', 'data', 'code', 'meta/bead', 'q/data/z', '.../f', '..a/b', 'Data/1', 'c:x', '~', '%s', 'a.zip', 'dataa', 'x/..y/z', 'x/...', ' lead', 'trail ', ' d/x', 'd /y', 'tab\t', 'line\n', 'e\u0301', 'x.', 'LPT1', 'a:b', 'a*', 'é/é', 'X', 'F.txt']
ODD = ['.', 'k/', 'd/', '', 'd/e/x/../y', './n', 'd//m', 'd/./p', 'k/../r', 'd/g/../g/s', 'k/l/../../t', 'x/.']
OUT = ['../o1', '../target2/o', '../targe', '../../o2', 'd/../../o3', './../o4', 'k/../../o5', 'd//../../o6', '..', '../', '../target/../o7', 'x/../..', '../a/../../o8', '../.']
BACK = ['../target/in1', 'd/../../target/in2']


def land(target, rel):
    return posixpath.normpath(posixpath.join(target, rel))


def under(target, p):
    return p == target or p.startswith(target + '/')


def section_names(d, target):
    r = d.rng
    k = r.random()
    names = r.sample(PLAIN, r.randrange(0, 9))
    names += r.sample(['run.sh', 'x/y.sh', 'data.csv', 'n.txt', 'a.gz', 'm.ipynb', 'Makefile'], r.choice([0, 0, 1, 2]))
    if k < .3:
        names += r.sample(ODD, r.randrange(1, 4))
    if .25 < k < .6:
        names += r.sample(OUT, r.randrange(1, 3))
        if r.random() < .3:
            names.append(posixpath.join(d.tmp, 'abs', 'o9'))
        if r.random() < .2:
            names.append('/' + posixpath.join(d.tmp, 'abs', 'o10'))
    elif k < .65:
        names += r.sample(BACK, 1)
    elif k > .9:
        names.append(posixpath.join(target, 'in3') if r.random() < .5 else 'deep/' * 30 + 'f')
    if .15 < k < .25:     # nothing else is wrong
        names = [n for n in names if not n.startswith('.')] + [r.choice(['', '/', '//']) + posixpath.join(d.tmp, 'abs', r.choice(['o11', 'new/o12', 'keep']))]
    r.shuffle(names)
    return list(dict.fromkeys(names))


def odd_content(d):
    '''contents that something which is not a plain copy would change'''
    r = d.rng
    return r.choice([b'#!/bin/sh\nexit\n\x00\x00', b'#!/bin/sh\r\nexit\r\n', b'x' * 70000 + b'\ny\n', b'\xef\xbb\xbftext', b'a\x1ab', b'no end of line', b'\n\n\n', b'x\x00' * 9, b' trailing \n \t\n'])


def entries_of(d, target, sections=('data', 'code')):
    out = {}
    for s in sections:
        for n in section_names(d, target):
            out[f'{s}/{n}'] = content(d, big=True) if d.rng.random() < .93 else odd_content(d)
    if d.rng.random() < .02:
        out.update({f'{d.rng.choice(sections)}/many/{i}': b'%d' % (i % 7) for i in range(d.rng.choice([70, 300]))})
    for n in d.rng.sample(['database/x', 'data.txt', 'code2/y', 'codex', 'other', 'Data/a', 'meta/extra', 'xdata/a', 'xcode/d/e'], 3):
        out[n] = content(d)
    return out


def expected(entries, section, target):
    '''what must be there afterwards: ('refused', {}) or ('files', {...}) or ('odd', {})'''
    files, odd = {}, False
    for n, b in entries.items():
        if not n.startswith(section + '/'):
            continue
        rel = n[len(section) + 1:]
        p = land(target, rel)
        if not under(target, p):
            return 'refused', {}
        if posixpath.isabs(rel) or rel.split('/')[0] == '..' or posixpath.normpath(rel).split('/')[0] == '..':
            odd = True      # lands inside, in a strange way
        if p == target or rel.endswith('/') or rel.endswith('/.') or p in files:
            odd = True
        files[p] = b
    for p in files:
        if any(q.startswith(p + '/') for q in files):
            odd = True
    return ('odd', {}) if odd else ('files', {p[len(target) + 1:]: b for p, b in files.items()})


def place(d):
    base = os.path.join(d.tmp, 'x', 'y', 'z')
    target = os.path.join(base, 'target')
    put(base, {'target2/f': b'n', 'targe': b't', 'o1': b'old', 'a/k': b'', 'd/e': b'outside d e'})
    put(d.tmp, {'x/y/o2': b'old', 'abs/keep': b'1'})
    return base, target


def outside(d, target):
    rel = './' + os.path.relpath(target, d.tmp)
    return {k: v for k, v in snapshot(d.tmp).items() if k != rel and not k.startswith(rel + '/')}


@case(40)
def unpack_a_section(d):
    r = d.rng
    base, target = place(d)
    e = entries_of(d, target)
    full = parts()
    full.update(e)
    path = os.path.join(d.tmp, 'bead_20200101T000000000000+0000.zip')
    write(path, full)
    section = r.choice(['data', 'code'])
    there = {}
    k = r.random()
    if k < .3:
        os.makedirs(target)
    elif k < .5:
        there = {'keep/this': b'1', 'zz': b'2', 'unrelated': b''}
        put(target, there)
    elif k < .7 and expected(full, section, target)[0] == 'files':
        # some of the files are there with other content
        there = {n: r.choice([b'', b'other', b + b' and more', bytes(len(b)), b[::-1], content(d, big=True)]) for n, b in expected(full, section, target)[1].items() if r.random() < .5}
        put(target, there)
    before = outside(d, target)
    form = r.choice(['abs', 'rel', 'dots'])
    if form == 'abs':
        fs_dir = Path(target)
    elif form == 'rel':
        os.chdir(base)
        fs_dir = Path('target')
    else:
        os.makedirs(os.path.join(base, 'a'), exist_ok=True)
        os.chdir(os.path.join(base, 'a'))
        fs_dir = Path('../target')
    a = ZipArchive(path)
    error = None
    try:
        getattr(a, f'unpack_{section}_to')(fs_dir)
    except Exception as x:
        error = x
    os.chdir(d.tmp)
    data = dict(names=sorted(n for n in e if n.startswith(section + '/')), target=form, error=error)
    unchanged(before, outside(d, target), 'unpacking changes something outside of the target folder', **data)
    verdict, files = expected(full, section, target)
    if verdict == 'refused':
        expect(error is not None, 'an archive with an entry that lands outside is not refused', **data)
    elif verdict == 'files':
        expect(error is None, 'unpacking fails', **data)
        now = read_tree(target)
        expect(now == dict(there, **files), 'the files are not those of the section', diff=differences(dict(there, **files), now), **data)
    else:
        d.nontrivial = False


@case(12)
def unpack_damaged(d):
    '''a damaged entry is an error, and never changes anything outside'''
    r = d.rng
    base, target = place(d)
    path = os.path.join(d.tmp, 'bead_20200101T000000000000+0000.zip')
    data = {n: content(d) + b'0123456789abcdef' for n in r.sample(PLAIN[:10], 4)}
    write(path, parts(data=data), compression=zipfile.ZIP_STORED)
    raw = bytearray(open(path, 'rb').read())
    with zipfile.ZipFile(path) as z:
        i = z.getinfo('data/' + r.choice(sorted(data)))
    at = i.header_offset + 30 + len(i.filename.encode()) + r.randrange(i.file_size)
    raw[at] ^= 1 + r.randrange(255)
    open(path, 'wb').write(raw)
    before = outside(d, target)
    error = None
    try:
        ZipArchive(path).unpack_data_to(Path(target))
    except Exception as x:
        error = x
    unchanged(before, outside(d, target), 'unpacking changes something outside of the target folder', error=error)
    expect(error is not None, 'a damaged file is unpacked without an error', entry=i.filename)


@case(12)
def unpack_to_a_workspace(d):
    r = d.rng
    base, target = place(d)
    e = entries_of(d, target)
    inputs = {'i1': dict(kind='k1', content_id='c1', freeze_time=stamp(3))} if r.random() < .5 else {}
    full = parts(inputs=inputs)
    full.update(e)
    path = os.path.join(d.tmp, 'bead_20200101T000000000000+0000.zip')
    write(path, full)
    before = outside(d, target)
    ws = Workspace(Path(target))
    error = None
    try:
        ZipArchive(path).unpack_to(ws)
    except Exception as x:
        error = x
    data = dict(names=sorted(n for n in e if n.startswith('code/')), error=error)
    unchanged(before, outside(d, target), 'unpacking changes something outside of the workspace', **data)
    verdict, files = expected(full, 'code', target)
    if verdict == 'refused':
        expect(error is not None, 'an archive with an entry that lands outside is not refused', **data)
    elif verdict == 'files':
        expect(error is None, 'unpacking fails', **data)
        now = {p: b for p, b in read_tree(target).items() if p != '.bead-meta/bead'}
        expect(now == files, 'the files are not the code of the bead', diff=differences(files, now), **data)
        expect(ws_meta(target)['inputs'] == inputs and ws_meta(target)['kind'] == 'kind', 'the meta data is not that of the bead', meta=ws_meta(target), **data)
    else:
        d.nontrivial = False


@case(10)
def commands(d):
    '''edit, input add and load: beads made by an adversary, that pass validation'''
    r = d.rng
    base, target = place(d)
    cmd = r.choice(['edit', 'review', 'add'])
    plain = r.random() < .4
    names = lambda t: [n for n in (r.sample(PLAIN, 5) if plain else section_names(d, t))]
    intarget = target if cmd != 'add' else os.path.join(target, 'input', 'nick')
    outtarget = os.path.join(target, 'output')
    dt = {n: content(d) for n in names(intarget if cmd == 'add' else outtarget)}
    ct = {n: content(d) for n in names(target)}
    box = os.path.join(d.tmp, 'box')
    os.makedirs(box)
    write(os.path.join(box, 'bead_20200101T000000000000+0000.zip'), parts(data=dt, code=ct))
    cli = Cli(d)
    expect(cli('box', 'add', 'box', box).ok, 'box add fails')
    if cmd == 'add':
        make_workspace(target)
        before_in = snapshot(target)
    cli('nosuchcommand')
    before = outside(d, target)
    ignore = lambda p: p.startswith('./config') or p.startswith('./box/.')
    if cmd == 'add':
        res = cli('input', 'add', 'nick', 'bead', cwd=target)
        t, sec = os.path.join(target, 'input', 'nick'), 'data'
    else:
        res = cli('edit', *(['--review'] if cmd == 'review' else []), 'bead', 'target', cwd=base)
        t, sec = target, 'code'
    data = dict(command=cmd, result=res, data=sorted(dt), code=sorted(ct))
    unchanged(before, outside(d, target), 'something outside of the workspace is changed', ignore=ignore, **data)
    full = parts(data=dt, code=ct)
    verdict, files = expected(full, sec, t)
    if cmd == 'add':
        after_in = snapshot(target)
        keep = lambda s: {p: x for p, x in s.items() if not p.startswith('./input') and not p.startswith('./.bead-meta')}
        unchanged(keep(before_in), keep(after_in), 'something outside of the input folder is changed', **data)
    if cmd == 'review':
        v2, f2 = expected(full, 'data', outtarget)
        if verdict == 'refused' or v2 == 'refused':
            verdict = 'refused'
        elif 'odd' in (verdict, v2):
            verdict = 'odd'
        elif any(p == 'output' or p.startswith('output/') for p in files):
            verdict = 'odd'
        else:
            files = dict(files, **{'output/' + p: b for p, b in f2.items()})
    if cmd != 'add' and any(p.split('/')[0] in ('input', 'output', 'temp', '.bead-meta') for p in ct):
        verdict = 'odd'
    if verdict == 'refused':
        expect(not res.ok, 'a bead with an entry that lands outside is not refused', **data)
    elif verdict == 'files':
        expect(res.ok, 'the command fails', **data)
        now = {p: b for p, b in read_tree(t).items() if not p.startswith('.bead-meta/')}
        expect(now == files, 'the files are not those of the bead', diff=differences(files, now), **data)
    else:
        d.nontrivial = False


main()
