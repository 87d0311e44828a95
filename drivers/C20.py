from pathlib import Path

from clilib import *
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from bead.box import Box
from bead.box_index import BoxIndex

TEXT = ['', 'k', 'kind-1', 'é ű', '"q"', 'a\\b', 'line\nbreak', '日本', '\U0001f600', "it's", '{}', 'null', 'x' * 200, '<&>', '0', '\x7f', 'a/b', 'None', '\u2028']
NAMES = ['in', 'a', 'b b', 'é', 'a_b', 'x.zip', '.hidden', 'kind', 'inputs', 'null', '0', 'A', 'input', 'a-b', '日本', 'x_20150101', "q'", 'a"b', 'name', 'content_id']
WS_NAMES = ['ws', 'a_b', 'é', 'w s', 'x_20150101', 'n-1', 'ws.zip', 'ws.', 'a.b', '_x', 'x_', 'ws_20150101T']


def text(d):
    r = d.rng
    return r.choice(TEXT) if r.random() < .7 else ''.join(r.choice('abéő"\\\n\t %{}[]:,0/') for _ in range(r.randrange(1, 12)))


def rand_stamp(d):
    r = d.rng
    return stamp(r.randrange(2 * 10 ** 14), r.choice(['+0000', '+0000', '-0000', '+0200', '-0330', '+1400', '-1200', '+0545', '-0001', '+0030']))


def rand_inputs(d):
    r = d.rng
    names = r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 6]))
    if r.random() < .04:
        names = [f'n{i}' for i in range(r.choice([70, 110, 260]))]
    return {n: dict(kind=text(d), content_id=r.choice([text(d), '%0128x' % r.getrandbits(512)]), freeze_time=rand_stamp(d))
            for n in names}


def as_dict(inputs):
    inputs = list(inputs)
    expect(len({i.name for i in inputs}) == len(inputs), 'an input is there twice', inputs=inputs)
    return {str(i.name): dict(kind=i.kind, content_id=i.content_id, freeze_time=i.freeze_time_str) for i in inputs}


def check_archive(path, name, kind, freeze_time, inputs, **data):
    with zipfile.ZipFile(path) as z:
        m = json.loads(z.read('meta/bead'))
    got = dict(name=m.get('freeze_name'), kind=m.get('kind'), freeze_time=m.get('freeze_time'), inputs=m.get('inputs'))
    exp = dict(name=name, kind=kind, freeze_time=freeze_time, inputs=inputs)
    expect(got == exp, 'the archive does not record what was in the workspace', got=got, expected=exp, **data)
    a = ZipArchive(path, 'box')
    got = dict(name=str(a.name), kind=a.kind, freeze_time=a.freeze_time_str, inputs=as_dict(a.inputs))
    expect(got == exp, 'reading the archive gives back other values', got=got, expected=exp, **data)
    got = as_dict(a.inputs)     # still the same
    expect(got == inputs, 'reading the inputs again gives other values', got=got, expected=inputs, **data)
    for n in inputs:
        i = a.get_input(n)
        expect(i is not None and i.content_id == inputs[n]['content_id'] and i.name == n, 'get_input gives another input', name=n, got=i)
    for n in ('', 'i', 'none') + tuple(x + 'x' for x in inputs) + tuple(x[:-1] for x in inputs) + tuple(x.swapcase() for x in inputs):
        if n not in inputs:
            expect(a.get_input(n) is None, 'get_input of a name that is not there gives an input', name=n, got=a.get_input(n))
    return a


@case(12)
def save_and_open(d):
    r = d.rng
    name = r.choice(WS_NAMES)
    root = os.path.join(d.tmp, name)
    kind, inputs = text(d), rand_inputs(d)
    if r.random() < .5:
        make_workspace(root, kind=kind, inputs=inputs)
    else:
        w = Workspace(root)
        w.create(kind)
        order = list(inputs)
        r.shuffle(order)
        for n in order:
            i = inputs[n]
            w.add_input(n, i['kind'], i['content_id'], i['freeze_time'])
        if order and r.random() < .4:       # changed later
            n = order[0]
            inputs[n] = dict(kind=text(d), content_id=text(d), freeze_time=rand_stamp(d))
            w.add_input(n, inputs[n]['kind'], inputs[n]['content_id'], inputs[n]['freeze_time'])
        if order and r.random() < .3:
            n = order[-1]
            w.delete_input(n)
            del inputs[n]
    ws = Workspace(root)
    expect(ws.kind == kind and as_dict(ws.inputs) == inputs, 'the workspace does not give back what was set', got=(ws.kind, as_dict(ws.inputs)), expected=(kind, inputs))
    put(os.path.join(root), tree(d, 0, ['code1', 'x', 'y']))
    t = rand_stamp(d)
    box = os.path.join(d.tmp, 'box-dir')
    os.mkdir(box)
    via_box = r.random() < .6
    if via_box:
        if r.random() < .5:
            BoxIndex(Path(box)).rebuild()
        b = Box('box', Path(box))
        path = b.store(ws, t)
    else:
        path = os.path.join(box, f'{name}_{t}.zip')
        ws.pack(path, t, 'comment')
    a = check_archive(path, name, kind, t, inputs)
    if via_box:
        beads = Box('box', Path(box)).all_beads()
        expect(len(beads) == 1, 'the saved bead is not in the box', beads=beads)
        bead = beads[0]
        got = dict(name=str(bead.name), kind=bead.kind, freeze_time=bead.freeze_time_str, inputs=as_dict(bead.inputs))
        expect(got == dict(name=name, kind=kind, freeze_time=t, inputs=inputs), 'the box gives back other values', got=got)
        a = Box('box', Path(box)).resolve(bead)
    # reopen
    again = os.path.join(d.tmp, 'again', r.choice(WS_NAMES))
    os.mkdir(os.path.dirname(again))
    w2 = Workspace(again)
    a.unpack_to(w2)
    w3 = Workspace(again)
    expect(w3.is_valid, 'the new workspace is not valid')
    expect(w3.kind == kind and as_dict(w3.inputs) == inputs, 'the reopened workspace has other kind or inputs', got=(w3.kind, as_dict(w3.inputs)), expected=(kind, inputs))
    # and save again
    t2 = rand_stamp(d)
    path2 = os.path.join(d.tmp, 'x_1.zip')
    w3.pack(path2, t2, '')
    with zipfile.ZipFile(path2) as z:
        m = json.loads(z.read('meta/bead'))
    got = (m['kind'], m['inputs'], m['freeze_time'], m['freeze_name'])
    expect(got == (kind, inputs, t2, os.path.basename(again)), 'saving the reopened bead changes its metadata', got=got, expected=(kind, inputs, t2))


@case(4)
def commands(d):
    r = d.rng
    cli = Cli(d)
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    cli('box', 'add', 'box', box)
    made = {}
    for i in range(r.choice([1, 2, 3])):
        n = f'in{i}'
        e = make(os.path.join(box, f'{n}_{stamp(i)}.zip'), name=n, kind=f'kind {i}', freeze_time=stamp(r.randrange(10 ** 14), r.choice(['+0000', '-0330', '+0545'])), data={'f': b'%d' % i})
        m = json.loads(e['meta/bead'])
        made[n] = dict(kind=m['kind'], content_id=H(e['meta/manifest']), freeze_time=m['freeze_time'])
    name = r.choice(['ws', 'é', 'a_b', 'w s'])
    expect(cli('new', name).ok, 'new failed', log=cli.log)
    root = os.path.join(d.tmp, name)
    kind = ws_meta(root)['kind']
    inputs = {}
    for n in made:
        if r.random() < .8:
            nick = r.choice([n, 'nick-' + n])
            res = cli('input', 'add', nick, n, cwd=root)
            expect(res.ok, 'input add failed', log=cli.log)
            inputs[nick] = made[n]
    res = cli('save', cwd=root)
    expect(res.ok, 'save failed', log=cli.log)
    saved = [f for f in os.listdir(box) if f.startswith(name + '_')]
    expect(len(saved) == 1, 'not saved', saved=saved, log=cli.log)
    path = os.path.join(box, saved[0])
    freeze = saved[0][len(name) + 1:-4]
    check_archive(path, name, kind, freeze, inputs, log=cli.log)
    os.mkdir(os.path.join(d.tmp, 'e'))
    res = cli('edit', name, *(['--review'] if r.random() < .4 else []), cwd=os.path.join(d.tmp, 'e'))
    expect(res.ok, 'edit failed', log=cli.log)
    w = Workspace(os.path.join(d.tmp, 'e', name))
    expect(w.kind == kind and as_dict(w.inputs) == inputs, 'the reopened workspace has other kind or inputs', got=(w.kind, as_dict(w.inputs)), expected=(kind, inputs), log=cli.log)


main('C20')
