from datetime import datetime, timedelta, timezone

from clilib import *
from boxlib import text

BASE = datetime(2021, 3, 4, 5, 6, 7, 890123, tzinfo=timezone.utc)
NAMES = ['alpha', 'beta', 'alp', 'x y', 'Alpha']
KINDS = ['k1', 'k2', 'k3']


class Scene:
    '''boxes with beads, a workspace with inputs'''

    def __init__(s, d):
        r = d.rng
        s.d, s.beads = d, []
        s.cli = Cli(d)
        s.boxes = [os.path.join(d.tmp, f'box{i}') for i in range(r.choice([1, 2, 2, 3]))]
        for p in s.boxes:
            os.makedirs(p)
        gap = r.choice([1, 1, 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6])
        s.gap = timedelta(microseconds=gap)
        s.elsewhere = os.path.join(d.tmp, 'elsewhere')
        os.makedirs(s.elsewhere)
        places = s.boxes * 4 + [s.elsewhere]
        one_kind = r.random() < .4
        for i in range(r.randrange(1, 12)):
            t = BASE + s.gap * r.choice(range(8))
            if r.random() < .1:
                t = datetime.now(timezone.utc) - timedelta(seconds=r.randrange(2, 100))
            t = t.astimezone(timezone(timedelta(minutes=r.choice([0, 0, 60, -60, 330, 840, -720]))))
            name = r.choice(NAMES)
            place = r.choice(places)
            path = os.path.join(place, f'{name}_{text(t)}.zip')
            if os.path.exists(path):
                continue
            kind = 'k1' if one_kind else r.choice(KINDS)
            data = {'id': b'%d' % i, 'sub/f': b'x'}
            e = parts(kind=kind, freeze_time=text(t), name=name, data=data, code={'cid': b'%d' % i})
            write(path, e)
            b = dict(path=path, name=name, kind=kind, time=t, freeze_time=text(t), id=i, content_id=H(e['meta/manifest']), known=place != s.elsewhere, box=place)
            s.beads.append(b)
            if r.random() < .1:
                # the same bead in another box, perhaps of another name
                name = r.choice(NAMES)
                copy = os.path.join(r.choice(s.boxes), f'{name}_{text(t)}.zip')
                if not os.path.exists(copy):
                    write(copy, e)
                    s.beads.append(dict(b, path=copy, name=name, known=True, box=os.path.dirname(copy)))
        for i, p in enumerate(s.boxes):
            expect(s.cli('box', 'add', f'box{i}', p).ok, 'box add fails', log=s.cli.log)
            if r.random() < .35:
                expect(s.cli('box', r.choice(['index', 'reindex']), '--box', f'box{i}').ok, 'box rebuild fails', log=s.cli.log)
        s.ws = os.path.join(d.tmp, 'ws')
        s.inputs = {}
        inputs, loaded = {}, {}
        for nick in r.sample(['alpha', 'beta', 'x', 'y', 'z', 'Alpha'], r.randrange(0, 6)):
            if not s.beads:
                break
            b = r.choice(s.beads)
            if r.random() < .15:
                # not in any box
                t = BASE + s.gap * r.choice(range(8))
                b = dict(b, id=1000 + len(inputs), content_id=H(nick.encode()), time=t, freeze_time=text(t), kind=r.choice(list(KINDS) + ['k9']))
            inputs[nick] = dict(kind=b['kind'], content_id=b['content_id'], freeze_time=b['freeze_time'])
            s.inputs[nick] = b
            if r.random() < .5:
                loaded[nick] = b
        make_workspace(s.ws, inputs=inputs)
        os.chmod(os.path.join(s.ws, 'input'), 0o755)
        for nick, b in loaded.items():
            put(os.path.join(s.ws, 'input', nick), {'id': b'%d' % b['id'], 'sub/f': b'x'})
        os.chmod(os.path.join(s.ws, 'input'), 0o555)
        s.files(s.ws)

    def files(s, cwd):
        '''archives that have the name of a bead'''
        s.here = {}
        if s.beads and s.d.rng.random() < .15:
            b = s.d.rng.choice(s.beads)
            n = s.d.rng.choice(NAMES)
            if not os.path.exists(os.path.join(cwd, n)):
                shutil.copy(b['path'], os.path.join(cwd, n))
                s.here[n] = b

    def state(s):
        m = ws_meta(s.ws)['inputs']
        p = os.path.join(s.ws, 'input')
        return {n: (m[n], s.loaded(n)) for n in m}, sorted(os.listdir(p))

    def loaded(s, n):
        p = os.path.join(s.ws, 'input', n, 'id')
        return int(open(p, 'rb').read()) if os.path.exists(p) else None

    def known(s, **kw):
        return [b for b in s.beads if b['known'] and all(b[k] == x for k, x in kw.items())]

    def describe(s):
        return [(b['id'], os.path.basename(b['box']), b['name'], b['kind'], b['freeze_time'], b['content_id'][:6]) for b in s.beads]

    # times
    def limit(s):
        '''(arguments, limit)'''
        r = s.d.rng
        if r.random() < .5:
            return [], None
        t = BASE + s.gap * r.choice(range(-1, 9))
        if s.beads and r.random() < .5:
            t = r.choice(s.beads)['time']
        t += timedelta(microseconds=r.choice([0, 0, 0, 1, -1]))
        t = t.astimezone(timezone(timedelta(minutes=r.choice([0, 0, 120, -570]))))
        k = r.randrange(4)
        if k == 0:
            t = t.replace(microsecond=0)
            arg = t.strftime('%Y-%m-%dT%H:%M:%S%z')
        elif k == 1:
            arg = t.strftime('%Y-%m-%dT%H:%M:%S.%f%z')
        else:
            arg = text(t)
        return r.choice([['--time', arg], ['-t', arg], [f'--time={arg}']]), t

    def ref(s, nick=None):
        '''(argument, function limit -> beads meant)'''
        r = s.d.rng
        if s.beads and r.random() < .35:
            b = r.choice(s.beads)
            return b['path'], lambda limit: [b]
        n = r.choice(NAMES + ['none']) if nick is None else nick
        if n in s.here:
            return n, lambda limit: [s.here[n]]
        return n, lambda limit: latest(before(s.known(name=n), limit))


def before(beads, limit):
    return [b for b in beads if limit is None or b['time'] <= limit]


def latest(beads):
    t = max((b['time'] for b in beads), default=None)
    return [b for b in beads if b['time'] == t]


def earliest(beads):
    t = min((b['time'] for b in beads), default=None)
    return [b for b in beads if b['time'] == t]


def becomes(old, new, nick, meant, **data):
    '''the input is one of the beads meant, or as it was'''
    data.update(nick=nick, meant=[b['id'] for b in meant], old=old.get(nick), new=new.get(nick))
    if not meant:
        expect(old.get(nick) == new.get(nick), 'something is loaded though there is no such bead', **data)
        return
    expect(nick in new, 'the bead is not loaded', **data)
    rec, id = new[nick]
    ok = [b for b in meant if rec == dict(kind=b['kind'], content_id=b['content_id'], freeze_time=b['freeze_time'])]
    expect(ok, 'the recorded input is not the bead meant', **data)
    expect(id is not None, 'the data of the bead is not loaded', **data)
    expect(any(id == b['id'] for b in ok), 'the loaded data is not that of the bead meant', **data)


@case(50)
def workspace_inputs(d):
    r = d.rng
    s = Scene(d)
    for step in range(r.randrange(1, 5)):
        old, dirs = s.state()
        cmd = r.choice(['add', 'update-ref', 'update', 'update', 'offset', 'offset', 'offset', 'update-all', 'update-all', 'load', 'load-all'])
        nicks = sorted(old)
        if not nicks and cmd not in ('add', 'update-all', 'load-all'):
            cmd = 'add'
        nick = r.choice(nicks) if nicks else None
        data = dict(step=step)
        targ, limit = s.limit()
        times = {n: datetime.strptime(old[n][0]['freeze_time'], '%Y%m%dT%H%M%S%f%z') for n in nicks}
        kind = lambda n: s.known(kind=old[n][0]['kind'])
        if cmd == 'add':
            nick = r.choice(['alpha', 'beta', 'x', 'new', 'x y', 'x y', 'Alpha'])
            if r.random() < .3:
                arg, meant = s.ref(nick)
                if arg != nick:
                    continue
                arg = []
            else:
                arg, meant = s.ref()
                arg = [arg]
            argv = ['input', 'add', nick] + arg + targ
            goal = {nick: meant(limit)}
        elif cmd == 'update-ref':
            arg, meant = s.ref()
            argv = ['input', 'update', nick, arg] + targ
            goal = {nick: meant(limit)}
        elif cmd == 'update':
            argv = ['input', 'update', nick] + targ
            goal = {nick: latest(before(kind(nick), limit))}
        elif cmd == 'offset':
            o = r.choice(['--next', '-N', '--prev', '--previous', '-P'])
            argv = ['input', 'update', nick, o]
            if o in ('--next', '-N'):
                goal = {nick: earliest([b for b in kind(nick) if b['time'] > times[nick]])}
            else:
                goal = {nick: latest([b for b in kind(nick) if b['time'] < times[nick]])}
        elif cmd == 'update-all':
            argv = ['input', 'update'] + targ
            goal = {n: latest(before(kind(n), limit)) for n in nicks}
        else:
            argv = ['input', 'load'] + ([nick] if cmd == 'load' else [])
            goal = {n: [] if old[n][1] is not None else s.known(content_id=old[n][0]['content_id']) for n in ([nick] if cmd == 'load' else nicks)}
        inside = r.random() < .7 or s.here
        if not inside:
            argv += r.choice([['--workspace', s.ws], ['-w', s.ws]])
        res = s.cli(*argv, cwd=s.ws if inside else d.tmp)
        new, dirs2 = s.state()
        data.update(argv=argv, result=res, beads=s.describe())
        for n in sorted(set(old) | set(new)):
            becomes(old, new, n, goal.get(n, []), **data)
        expect(set(dirs2) - set(new) <= set(dirs) - set(old), 'a folder is left that is no input', folders=dirs2, **data)


@case(20)
def edit(d):
    r = d.rng
    s = Scene(d)
    base = os.path.join(d.tmp, 'base')
    os.makedirs(base)
    s.files(base)
    arg, meant = s.ref()
    targ, limit = s.limit()
    target = 'target'
    argv = ['edit'] + targ + [arg, target] + (['--review'] if r.random() < .5 else [])
    res = s.cli(*argv, cwd=base)
    meant = meant(limit)
    data = dict(argv=argv, result=res, beads=s.describe(), meant=[b['id'] for b in meant])
    made = os.path.join(base, target)
    if not meant:
        expect(not os.path.exists(made), 'a workspace is made though there is no such bead', **data)
        return
    expect(os.path.exists(os.path.join(made, 'cid')), 'the bead is not opened', **data)
    id = int(open(os.path.join(made, 'cid'), 'rb').read())
    expect(any(b['id'] == id for b in meant), 'another bead is opened', got=id, **data)
    if '--review' in argv:
        out = int(open(os.path.join(made, 'output/id'), 'rb').read())
        expect(out == id, 'the output is of another bead', got=out, **data)


main()
