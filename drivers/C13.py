from clilib import *
from bead.box import Box
from bead.tech.fs import Path
from bead_cli.environment import Environment


def listing(env):
    return [(b.name, str(b.location)) for b in env.get_boxes()]


NAMES = ['a', 'b', 'A', 'ab', 'box', 'x y', 'é', '', 'None', '0', 'a.b', 'long' * 20, '"', '\\', 'a\nb', 'a ', ' a', 'a*', 'aa']


@case(30)
def environment(d):
    r = d.rng
    cfg = os.path.join(d.tmp, 'cfg')
    os.makedirs(cfg)
    dirs = [os.path.join(d.tmp, n) for n in ('d1', 'd2', 'D1', 'd1/sub', 'é', 'x y', 'd 3', 'd1x', 'd1/d1', 'sub2/d1', 'x y/é', 'd1 ', 'D1/sub', '$HOME', '${HOME}x', '~', '%s')]
    for x in dirs:
        os.makedirs(x, exist_ok=True)
    env = Environment.from_dir(cfg)
    model = []
    log = []
    saved = []
    for _ in range(r.randrange(1, 25)):
        k = r.random()
        n = r.choice(NAMES) if r.random() < .8 else d.name()
        p = r.choice(dirs)
        if k < .5:
            log.append(('add', n, p))
            clash = any(m == n or q == p for m, q in model)
            try:
                env.add_box(n, Path(p))
            except ValueError:
                expect(clash, 'add_box refuses a new name and location', log=log)
            else:
                expect(not clash, 'add_box accepts a name or location already in use', log=log)
                model.append((n, p))
        elif k < .7:
            log.append(('forget', n))
            env.forget_box(n)
            model = [m for m in model if m[0] != n]
        elif k < .85:
            log.append('save, load')
            env.save()
            env = Environment.from_dir(cfg)
            saved = list(model)
        elif k < .87 and len(dirs) > 3:
            gone = r.choice(dirs)
            log.append(('the folder is gone', gone))
            if os.path.isdir(gone):
                os.rename(gone, os.path.join(d.tmp, f'gone{len(log)}'))
        elif k < .9:
            log.append('reload without save')
            env = Environment.from_dir(cfg)
            model = list(saved)
        else:
            log.append(('get', n))
            want = [m for m in model if m[0] == n]
            got = env.get_box(n)
            expect((got is not None) == bool(want), 'get_box', log=log)
            if got is not None:
                expect((got.name, str(got.location)) == want[0], 'get_box gives another box', log=log, got=(got.name, str(got.location)))
            expect(env.is_known_box(n) == bool(want), 'is_known_box', log=log)
        got = listing(env)
        expect(got == model, 'the list of boxes is not as asked', log=log, got=got, want=model)
    d.nontrivial = len(log) > 3


@case(15)
def commands(d):
    r = d.rng
    cli = Cli(d)
    dirs = {n: os.path.join(d.tmp, n) for n in ('d1', 'd2', 'D1', 'd3', 'sub/d1', 'd2/d1')}
    for x in dirs.values():
        os.makedirs(x)
    os.symlink(dirs['d2'], os.path.join(d.tmp, 'link2'))
    spell = {'d1': 'd1', './d1': 'd1', 'd1/': 'd1', 'd2/../d1': 'd1', 'd2': 'd2', 'link2': 'd2', 'D1': 'D1', 'd3': 'd3', 'sub/d1': 'sub/d1', 'd2/d1': 'd2/d1', dirs['d3']: 'd3'}
    model = []
    for _ in range(r.randrange(1, 10)):
        n = r.choice(['a', 'b', 'c', 'A', 'ab', 'x y', 'a ', 'aa'])
        if r.random() < .65:
            if r.random() < .15:
                cli('box', 'add', n, r.choice(['missing', 'config/env.json']))
            else:
                s = r.choice(list(spell))
                p = os.path.realpath(dirs[spell[s]])
                cli('box', 'add', n, s)
                if not any(m == n or q == p for m, q in model):
                    model.append((n, p))
        else:
            cli('box', 'forget', n)
            model = [m for m in model if m[0] != n]
        got = listing(Environment.from_dir(cli.config))
        expect(got == model, 'the list of boxes is not as asked', log=cli.log, got=got, want=model)
    res = cli('box', 'list')
    pos = -1
    for n, p in model:
        at = res.out.find(f'{n}: {p}\n')
        expect(at > pos, 'a box is not listed, or not in order', out=res.out, want=model)
        pos = at


main('one evaluation = one sequence of box definitions, removals, saves and loads against a list')
