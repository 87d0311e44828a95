from clilib import *


def damage(d, path, e):
    '''make a valid archive invalid; e: its entries. None when not damaged.'''
    r = d.rng
    how = r.choice(['content', 'content', 'bytes', 'extra', 'missing', 'future', 'meta', 'manifest', 'truncated', 'code', 'extra-code'])
    e = dict(e)
    data = sorted(n for n in e if n.startswith('data/'))
    code = sorted(n for n in e if n.startswith('code/'))
    if how == 'content' and data:
        n = r.choice(data)
        b = e[n]
        e[n] = r.choice([b + b'\n', b[:-1] if b else b'x', bytes([b[0] ^ 1]) + b[1:] if b else b'y'])
    elif how == 'code' and code:
        e[r.choice(code)] += b'#'
    elif how == 'extra':
        e[r.choice(['data/zz-extra', 'data/d/extra', 'data/.x'])] = b'extra'
    elif how == 'extra-code':
        e['code/zz-extra'] = b'extra'
    elif how == 'missing' and data:
        del e[r.choice(data)]
    elif how == 'future':
        m = json.loads(e['meta/bead'])
        m['freeze_time'] = '29990101T000000000000+0000'
        e['meta/bead'] = dumps(m)
        man = json.loads(e['meta/manifest'])
        man['meta/bead'] = H(e['meta/bead'])
        e['meta/manifest'] = dumps(man)
    elif how == 'meta':
        m = json.loads(e['meta/bead'])
        del m[r.choice(['freeze_name', 'meta_version', 'inputs'])]
        e['meta/bead'] = dumps(m)
        man = json.loads(e['meta/manifest'])
        man['meta/bead'] = H(e['meta/bead'])
        e['meta/manifest'] = dumps(man)
    elif how == 'manifest':
        man = json.loads(e['meta/manifest'])
        k = r.choice(sorted(man))
        man[k] = H(b'other')
        e['meta/manifest'] = dumps(man)
    elif how == 'truncated':
        raw = open(path, 'rb').read()
        with open(path, 'wb') as f:
            f.write(raw[:-r.randrange(1, len(raw) // 2)])
        return how
    elif how == 'bytes' and any(e[n] for n in data):
        write(path, e, compression=zipfile.ZIP_STORED)
        with zipfile.ZipFile(path) as z:
            i = z.getinfo(r.choice([n for n in data if e[n]]))
        raw = bytearray(open(path, 'rb').read())
        at = i.header_offset + 30 + len(i.filename.encode()) + r.randrange(i.file_size)
        raw[at] ^= 1 << r.randrange(8)
        with open(path, 'wb') as f:
            f.write(raw)
        return how
    else:
        return None
    write(path, e)
    return how


NAMES = ['a', 'b', 'f.txt', 'd', 'é']


class Scene:
    def __init__(s, d):
        s.d = d
        r = d.rng
        s.box = os.path.join(d.tmp, 'box')
        s.late = []
        os.makedirs(s.box)
        s.archives = []     # dict(path, name, kind, n, entries, damaged, data, content_id)
        late = r.random() < .4
        for i in range(r.randrange(2, 7)):
            name = r.choice(['alpha', 'beta'])
            n = r.randrange(1, 50)
            if any(a['n'] == n for a in s.archives):
                continue
            data = only_files(tree(d, 1, NAMES)) or {'f': str(i).encode()}
            data['id'] = str(n).encode()
            code = only_files(tree(d, 1, ['src', 'm.py', 'lib']))
            kind = 'kind-' + name
            inputs = {k: dict(kind='other', content_id=f'cid-{k}', freeze_time=stamp(2)) for k in r.sample(['alpha', 'in', 'x'], r.choice([0, 0, 1, 2]))}
            e = parts(kind=kind, freeze_time=stamp(n), name=name, data=data, code=code, inputs=inputs)
            path = os.path.join(s.box, f'{name}_{stamp(n)}.zip')
            write(path, e)
            a = dict(path=path, name=name, kind=kind, n=n, data=data, code=code, content_id=H(e['meta/manifest']), entries=e, damaged=None)
            s.archives.append(a)
            if r.random() < .55:
                if late:
                    s.late.append(a)
                else:
                    a['damaged'] = damage(d, path, e)
        s.cli = Cli(d)
        if r.random() < .3:
            # the names differ from those of the box: found by kind only
            pass
        expect(s.cli('box', 'add', 'box', s.box).ok, 'box add fails', log=s.cli.log)

    def damage_late(s):
        '''damaged after they were indexed'''
        for a in s.late:
            a['damaged'] = damage(s.d, a['path'], a['entries'])

    def intact(s):
        return [a for a in s.archives if not a['damaged']]

    def workspace(s):
        d, r = s.d, s.d.rng
        s.ws = os.path.join(d.tmp, 'ws')
        inputs, loaded = {}, {}
        for nick in r.sample(['alpha', 'beta', 'x', 'y'], r.randrange(0, 4)):
            a = r.choice(s.archives)
            inputs[nick] = dict(kind=a['kind'], content_id=a['content_id'], freeze_time=stamp(a['n']))
            if r.random() < .6:
                loaded[nick] = a
        make_workspace(s.ws, inputs=inputs)
        os.chmod(os.path.join(s.ws, 'input'), 0o755)
        for nick, a in loaded.items():
            put(os.path.join(s.ws, 'input', nick), a['data'])
        os.chmod(os.path.join(s.ws, 'input'), 0o555)
        return inputs, loaded

    def state(s):
        m = ws_meta(s.ws)['inputs']
        p = os.path.join(s.ws, 'input')
        return m, {n: (snapshot(os.path.join(p, n), modes=False), read_tree(os.path.join(p, n))) for n in os.listdir(p)}

    def describe(s):
        return [(os.path.basename(a['path']), a['damaged'], a['content_id'][:8]) for a in s.archives]


def check(s, before, after, **data):
    '''what is recorded or loaded is as before, or comes from an intact archive'''
    m0, l0 = before
    m1, l1 = after
    data.update(archives=s.describe())
    for n in sorted(set(m0) | set(m1)):
        if m0.get(n) != m1.get(n):
            expect(n in m1, 'the record of an input is removed', nick=n, **data)
            ok = [a for a in s.intact() if a['content_id'] == m1[n]['content_id'] and a['kind'] == m1[n]['kind'] and stamp(a['n']) == m1[n]['freeze_time']]
            expect(ok, 'an input is recorded that is not an intact archive', nick=n, record=m1[n], **data)
    for n in sorted(set(l0) | set(l1)):
        if l0.get(n) != l1.get(n):
            expect(n in l1, 'loaded data is removed', nick=n, **data)
            ok = [a for a in s.intact() if a['data'] == l1[n][1]]
            expect(ok, 'loaded data is not that of an intact archive', nick=n, files=l1[n][1], **data)
            expect(any(a['content_id'] == m1.get(n, {}).get('content_id') for a in ok), 'loaded data is not that of the recorded archive', nick=n, record=m1.get(n), **data)


def times(d, s):
    r = d.rng
    k = r.random()
    if k < .6:
        return []
    n = r.choice(s.archives)['n'] + r.choice([0, 0, 1, -1])
    return ['--time', stamp(n)]


@case(40)
def add_update_load(d):
    r = d.rng
    s = Scene(d)
    inputs, loaded = s.workspace()
    s.damage_late()
    for step in range(r.randrange(1, 4)):
        before = s.state()
        cmd = r.choice(['add', 'add', 'update', 'update', 'update-all', 'load', 'load-all'])
        ref = r.choice(['alpha', 'beta', r.choice(s.archives)['path'], r.choice(s.archives)['path']])
        nicks = sorted(before[0]) or ['alpha']
        if cmd == 'add':
            nick = r.choice(['alpha', 'beta', 'new', 'x'])
            argv = ['input', 'add', nick] + ([ref] if r.random() < .7 else []) + times(d, s)
            same = [(n, a) for n, x in before[0].items() for a in s.archives if a['content_id'] == x['content_id']]
            if same and r.random() < .3:      # again, what may be damaged since
                n, a = r.choice(same)
                argv = ['input', r.choice(['add', 'update']), n, a['path']]
        elif cmd == 'update':
            argv = ['input', 'update', r.choice(nicks)]
            k = r.random()
            if k < .4:
                argv += [ref] + times(d, s)
            elif k < .7:
                argv += [r.choice(['--next', '--prev'])]
            else:
                argv += times(d, s)
        elif cmd == 'update-all':
            argv = ['input', 'update'] + times(d, s)
        elif cmd == 'load':
            argv = ['input', 'load', r.choice(nicks)]
        else:
            argv = ['input', 'load']
        res = s.cli(*argv, cwd=s.ws)
        check(s, before, s.state(), argv=argv, result=res, step=step)


@case(16)
def edit(d):
    r = d.rng
    s = Scene(d)
    s.damage_late()
    base = os.path.join(d.tmp, 'base')
    os.makedirs(base)
    before = snapshot(d.tmp)
    ref = r.choice(['alpha', 'beta', r.choice(s.archives)['path'], r.choice(s.archives)['path'], r.choice(s.archives)['path']])
    argv = ['edit'] + (['--review'] if r.random() < .5 else []) + [ref] + times(d, s) + (['target'] if r.random() < .5 else [])
    res = s.cli(*argv, cwd=base)
    made = os.listdir(base)
    data = dict(argv=argv, result=res, archives=s.describe())
    if not made:
        return
    expect(len(made) == 1, 'more than a workspace is made', made=made, **data)
    t = os.path.join(base, made[0])
    now = read_tree(t)
    code = {p: b for p, b in now.items() if p.split('/')[0] not in ('.bead-meta', 'output')}
    out = {p[len('output/'):]: b for p, b in now.items() if p.startswith('output/')}
    ok = [a for a in s.intact() if a['code'] == code and (not out or out == a['data'])]
    if os.path.sep in ref:
        ok = [a for a in ok if a['path'] == ref]
    expect(ok, 'a workspace is made of an archive that is not intact', code=code, output=out, **data)


main()
