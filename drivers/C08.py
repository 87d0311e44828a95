import shutil
from collections import Counter

from boxlib import *
from bead.box import Box, search
from bead.box_index import BoxIndex
from pathlib import Path


def boxes(d, n=None, indexed=False):
    '''[(Box, beads)]: beads can be in more boxes and under more names'''
    r = d.rng
    out, files = [], []
    one_name = r.random() < .1
    for k in range(n or r.choice([1, 1, 2, 3])):
        path = os.path.join(d.tmp, f'box{k}')
        os.makedirs(path)
        beads = []
        for _ in range(r.choice([0, 0, 1, 2, 3, 6])):
            if files and r.random() < .4:
                src = r.choice(files)
                name = r.choice([src['name'], r.choice(NAMES)])
                dst = os.path.join(path, name + r.choice(['', '_20200101', '_20210101T000000000000+0000']) + '.zip')
                if os.path.exists(dst) or indexed and any((b['name'], b['content_id']) == (name, src['content_id']) for b in beads):
                    continue
                shutil.copy(src['path'], dst)
                beads.append(info(dst, name))
            else:
                b = bead(d, path, past=indexed)
                if b:
                    beads.append(b)
                    files.append(b)
        if indexed and r.random() < .5:
            BoxIndex(Path(path)).rebuild()
        for b in beads:
            b['box'] = 'box' if one_name else f'box{k}'
        out.append((Box('box' if one_name else f'box{k}', path), beads))
    return out


def bkey(b):
    return key(b) + (b['box'],)


def fkey(b):
    return found(b) + (b.box_name,)


def start(d, bs, conds):
    s = bs[0][0].search() if len(bs) == 1 and d.rng.random() < .5 else search([b for b, _ in bs])
    for h, x in conds:
        s = getattr(s, h)(x)
    return s


def setting(d, indexed=False):
    bs = boxes(d, indexed=indexed)
    every = [b for _, l in bs for b in l]
    conds = [condition(d, every) for _ in range(d.rng.choice([0, 0, 0, 1, 1, 2]))]
    return bs, conds, wanted(every, conds)


def ask(f):
    try:
        return f()
    except LookupError:
        return None


def selections(d, indexed):
    bs, conds, want = setting(d, indexed)
    r = d.rng
    times = sorted(b['time'] for b in want)
    n = len(want)
    keys = Counter(map(bkey, want))
    data = dict(conditions=conds, beads=[(b['name'], b['freeze_time_str'], b['box']) for b in want])
    got = start(d, bs, conds).all()
    expect(Counter(map(fkey, got)) == keys, 'all() is not all the matching beads', found=list(map(fkey, got)), **data)
    order = [('oldest', (), 0), ('newest', (), n - 1), ('newer', (), 1), ('older', (), n - 2)]
    order += [('newer', (k,), k) for k in r.sample(range(n + 2), min(3, n + 2))]
    order += [('older', (k,), n - 1 - k) for k in r.sample(range(n + 2), min(3, n + 2))]
    for how, args, pos in order:
        b = ask(lambda: getattr(start(d, bs, conds), how)(*args))
        if not 0 <= pos < n:
            expect(b is None, f'{how}{args} of {n} beads finds one', found=b and fkey(b), **data)
            continue
        expect(b is not None, f'{how}{args} of {n} beads finds none', **data)
        expect(fkey(b) in keys, f'{how}{args}: not a matching bead', found=fkey(b), **data)
        expect(b.freeze_time == times[pos], f'{how}{args}: not the bead at position {pos}', found=fkey(b), **data)
    b = ask(start(d, bs, conds).first)
    expect((b is None) == (n == 0), 'first()', found=b and fkey(b), **data)
    if b:
        first_box = next(x['box'] for x in want)
        expect(fkey(b) in keys and b.box_name == first_box, 'first() is not of the first box that has one', found=fkey(b), **data)


@case(20)
def select(d):
    selections(d, False)


@case(8)
def select_from_indexed_boxes(d):
    selections(d, True)


@case(12)
def unique(d):
    bs, conds, want = setting(d)
    data = dict(conditions=conds, beads=[(b['name'], b['content_id'][:5], b['box']) for b in want])
    got = start(d, bs, conds).unique().all()
    keys = Counter(map(bkey, want))
    expect(Counter(b.content_id for b in got) == Counter({b['content_id'] for b in want}), 'not one bead for each content id', found=list(map(fkey, got)), **data)
    b = ask(start(d, bs, conds).unique().first)
    expect((b is None) == (not want), 'first() of the unique ones', found=b and fkey(b), **data)
    if b:
        expect(fkey(b) in keys and b.box_name == want[0]['box'], 'first() is not of the first box that has one', found=fkey(b), **data)
    for b in got:
        first = next(x for x in want if x['content_id'] == b.content_id)
        expect(fkey(b) in keys, 'not a matching bead', found=fkey(b), **data)
        expect(b.box_name == first['box'], 'not the first one found', found=fkey(b), **data)
    times = sorted({b['content_id']: b['time'] for b in want}.values())
    n = len(times)
    for how, args, pos in [('oldest', (), 0), ('newest', (), n - 1), ('newer', (1,), 1), ('older', (1,), n - 2), ('newer', (n,), n), ('older', (2,), n - 3)]:
        b = ask(lambda: getattr(start(d, bs, conds).unique(), how)(*args))
        expect((b is not None) == (0 <= pos < n), f'unique {how}{args} of {n}', found=b and fkey(b), **data)
        if b:
            expect(b.freeze_time == times[pos] and fkey(b) in keys, f'unique {how}{args}: not the bead at position {pos}', found=fkey(b), **data)


@case(3)
def unique_again(d):
    '''asked for more than once, and in any order with the conditions'''
    bs, conds, want = setting(d)
    s = start(d, bs, conds)
    for _ in range(d.rng.choice([2, 2, 3, 4])):
        s = s.unique()
    got = s.all()
    expect(Counter(b.content_id for b in got) == Counter({b['content_id'] for b in want}), 'not one bead for each content id', found=list(map(fkey, got)), conditions=conds)
    s = start(d, bs, []).unique()
    for h, x in conds:
        s = getattr(s, h)(x)
    got = s.all()
    expect(Counter(b.content_id for b in got) == Counter({b['content_id'] for b in want}), 'not one bead for each content id', found=list(map(fkey, got)), conditions=conds)


@case(6)
def asked_twice(d):
    '''a search can be asked again, and is not changed by the answers'''
    bs, conds, want = setting(d)
    s = start(d, bs, conds)
    a = s.all()
    if a:
        a.pop()
    if want:
        s.older(0), s.newer(0), s.newest(), s.oldest()
    expect(Counter(map(fkey, s.all())) == Counter(map(bkey, want)), 'a second answer is different', conditions=conds)


@case(4)
def copies_with_other_metadata(d):
    '''equal content ids, but other freeze times can not come from archives, only from a box that gives such beads'''
    from bead.bead import Bead
    r = d.rng

    def make_bead(k):
        b = Bead()
        b.name, b.kind, b.inputs, b.content_id, b.box_name = f'n{k}', 'k', [], r.choice(ids), 'box'
        b.freeze_time_str = text(some_time(r))
        return b
    ids = r.choice(['abc', ['a', 'A', 'b'], ['a' * 127 + c for c in '123'], ['1' + 'a' * 127, '2' + 'a' * 127], ['a' * 64 + c * 64 for c in 'xy']])
    lists = [[make_bead((i, k)) for k in range(r.randrange(5))] for i in range(r.choice([1, 2, 3]))]
    bs = []
    for i, l in enumerate(lists):
        path = os.path.join(d.tmp, f'x{i}')
        os.makedirs(path)
        b = Box(f'box{i}', path)
        b.resolver.get_beads = lambda conditions, box_name, l=l: list(l)
        bs.append(b)
    flat = [b for l in lists for b in l]
    firsts = []
    for b in flat:
        if b.content_id not in {x.content_id for x in firsts}:
            firsts.append(b)
    got = search(bs).unique().all()
    expect([x.name for x in got] == [x.name for x in firsts] or sorted(map(str, (x.name for x in got))) == sorted(map(str, (x.name for x in firsts))),
           'not the first of each content id', found=[(x.name, x.content_id) for x in got], beads=[(x.name, x.content_id) for x in flat])
    if firsts:
        b = search(bs).unique().newest()
        expect(b.freeze_time == max(x.freeze_time for x in firsts), 'newest of the unique ones')


if __name__ == '__main__':
    main('selections from random boxes with copies, against the same selections made from a list of what is in the boxes')
