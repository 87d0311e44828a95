from clilib import *
from bead.workspace import Workspace

PARTS = ('input', 'output', 'temp', '.bead-meta/bead')


def place(d, p, what):
    '''make (a part of) a workspace of folder p; True when it is valid'''
    r = d.rng
    os.makedirs(p, exist_ok=True)
    ok = True
    missing = set()
    if what == 'partial':
        missing = set(r.sample(PARTS, r.choice([1, 1, 1, 2, 4])))
    for part in PARTS:
        q = os.path.join(p, part)
        if os.path.lexists(q):
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        k = r.random()
        wrong = part in missing
        if part == '.bead-meta/bead':
            if wrong:
                if k < .3:
                    os.mkdir(q)
                elif k < .5:
                    os.symlink('nowhere', q)
                elif k > .85 and not os.listdir(os.path.dirname(q)):
                    os.rmdir(os.path.dirname(q))
                    put(p, {'.bead-meta': b'a file'})
                elif k < .6:
                    put(p, {'.bead-meta/Bead': b'', '.bead-meta/bead2': b''})
            elif k < .2:
                put(p, {'meta-is-here': b'{}'})
                os.symlink(os.path.join(p, 'meta-is-here'), q)
            else:
                put(p, {part: r.choice([b'', b'{"kind": "k", "inputs": {}}', b'not json'])})
        else:
            if wrong:
                if k < .4:
                    put(p, {part: b'a file'})
                elif k < .5:
                    os.symlink('nowhere', q)
            elif k < .15:
                os.makedirs(os.path.join(p, 'elsewhere-' + part), exist_ok=True)
                os.symlink('elsewhere-' + part, q)
            else:
                os.mkdir(q)


def is_valid(p):
    '''what the property says'''
    d = lambda n: os.path.isdir(os.path.join(p, n))
    return d('input') and d('output') and d('temp') and os.path.isfile(os.path.join(p, '.bead-meta/bead'))


def nearest(p):
    q = p
    while True:
        if is_valid(q):
            return q
        if os.path.dirname(q) == q:
            return p
        q = os.path.dirname(q)


def folders(d):
    r = d.rng
    p = os.path.realpath(d.tmp)
    out = []
    for i in range(r.randrange(1, 8)):
        k = r.random()
        if k < .3 and out:
            n = r.choice(['input', 'output', 'temp', '.bead-meta'])
            q = os.path.join(p, n)
            if os.path.lexists(q) and not os.path.isdir(q):
                continue
        else:
            n = r.choice(['a', 'b b', 'é', 'ws', 'x.zip', 'input_x'])
            q = os.path.join(p, n)
        if r.random() < .05:
            q = os.path.join(q, *['deep'] * r.choice([8, 20, 60]))
        os.makedirs(q, exist_ok=True)
        p = os.path.realpath(q)
        what = r.choice(['valid', 'partial', 'partial', 'none', 'none'])
        if what != 'none':
            place(d, p, what)
        out.append(p)
    if r.random() < .2:
        for p in out[::-1]:
            for n in ('input', 'output', 'temp'):
                q = os.path.join(p, n)
                if r.random() < .2 and os.path.isdir(q) and not os.path.islink(q):
                    os.chmod(q, 0o555)
    return out


@case(20)
def nearest_workspace(d):
    ps = folders(d)
    old = os.getcwd()
    env = dict(os.environ)
    if d.rng.random() < .5:
        os.environ['HOME'] = d.rng.choice(ps)
    if d.rng.random() < .3:
        os.environ['PWD'] = d.rng.choice(ps)
    try:
        for p in ps:
            w = Workspace(p)
            expect(bool(w.is_valid) == is_valid(p), 'is_valid is wrong', path=p, there=sorted(snapshot(p))[:30])
            os.chdir(p)
            got = str(Workspace.for_current_working_directory().directory)
            exp = nearest(p)
            expect(got == exp, 'not the nearest valid workspace', cwd=p, got=got, expected=exp,
                   valid=[q for q in ps if is_valid(q)])
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)


@case(4)
def commands_use_it(d):
    '''status and save tell and store the workspace they work with'''
    r = d.rng
    cli = Cli(d)
    root = os.path.realpath(d.tmp)
    outer = os.path.join(root, 'outer-ws')
    make_workspace(outer, kind='outer')
    inner = os.path.join(outer, r.choice(['inner-ws', 'output/inner-ws', 'temp/inner-ws']))
    make_workspace(inner, kind='inner')
    broken = r.choice([None, None, 'input', 'output', 'temp', '.bead-meta/bead'])
    if broken:
        q = os.path.join(inner, broken)
        (os.rmdir if os.path.isdir(q) else os.unlink)(q)
    p = os.path.join(inner, r.choice(['.', 'output', 'temp', 'deep/er', 'input']))
    if not os.path.isdir(p):
        os.makedirs(p, exist_ok=True)
    res = cli('status', '-v', cwd=p)
    exp = os.path.basename(nearest(os.path.realpath(p)))
    expect(f'Bead Name: {exp}' in res.out, 'status is about another workspace', expected=exp, log=cli.log)
    outside = os.path.join(root, 'nothing')
    os.makedirs(outside)
    res = cli('status', cwd=outside)
    expect('Invalid workspace' in res.err and outside in res.err, 'status of a folder that is in no workspace', log=cli.log)


main('C22')
