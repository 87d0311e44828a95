from collections import Counter
from pathlib import Path

from boxlib import *
from bead.box import Box
from bead.box_index import BoxIndex
from bead.box_query import QueryCondition
from bead.box_rawfs import RawFilesystemResolver
from bead.tech.timestamp import time_from_timestamp


def a_box(d, n=None):
    '''a box with valid archives, no two of them of the same bead'''
    r = d.rng
    box = os.path.join(d.tmp, r.choice(['box', 'b[x]', 'b?x', 'b%41', 'b#x', 'b x', 'é']))
    os.makedirs(box)
    names = r.sample(NAMES, r.choice([2, 3, 5, len(NAMES)])) if r.random() < .7 else r.choice([['a', 'A'], ['bead', 'Bead', 'BEAD'], ['é', 'e\u0301', 'É'], ['a_b', 'a%b', 'axb'], ['x', 'x ', 'xx']])
    beads = {}
    for _ in range(r.randrange(1, 9) if n is None else n):
        if beads and r.random() < .2:
            # the same content under another name
            name = r.choice(names)
            path = os.path.join(box, name + '_20200101.zip')
            if os.path.exists(path):
                continue
            shutil.copy(r.choice(list(beads.values()))['path'], path)
            b = info(path, name)
        else:
            b = bead(d, box, names, past=True)
        if b is None:
            continue
        if key(b) in beads or any(b['name'] == x['name'] and b['content_id'] == x['content_id'] for x in beads.values()):
            os.unlink(b['path'])
            continue
        beads[key(b)] = b
    for _ in range(r.choice([0, 0, 1, 3])):
        damaged(d, box)
    return box, list(beads.values())


def index(d, box, beads):
    '''index it one way or other'''
    r = d.rng
    k = r.randrange(4)
    p = r.choice([Path(box), box])
    ix = BoxIndex(p)
    if k == 0:
        ix.rebuild()
    elif k == 1:
        ix.sync()
    elif k == 2:
        for b in r.sample(beads, len(beads)):
            ix.index_archive_file(Path(b['path']))
    else:
        for b in r.sample(beads, len(beads) // 2):
            ix.index_archive_file(Path(b['path']))
        ix.sync()
    return BoxIndex(p) if r.random() < .5 else ix


def condition_list(d, beads):
    return [condition(d, beads) for _ in range(d.rng.choice([0, 1, 1, 1, 2, 2, 3]))]


def raw_conditions(conds):
    return [(QueryCondition[TAGS[h]], time_from_timestamp(x) if not h.startswith('by_') and isinstance(x, str) else x) for h, x in conds]


def same(got, want, **data):
    expect(Counter(map(found, got)) == Counter(map(key, want)), 'the indexed box finds other beads than those that match', found=list(map(found, got)), want=list(map(key, want)), **data)


@case(30)
def queries(d):
    path, beads = a_box(d)
    ix = index(d, path, beads)
    box = Box('box', path)
    plain = RawFilesystemResolver(Path(path))
    for _ in range(6):
        conds = condition_list(d, beads)
        try:
            got = ix.get_beads(raw_conditions(conds), 'box')
            got2 = box.get_beads(raw_conditions(conds))
            s = box.search()
            for h, x in conds:
                s = getattr(s, h)(x)
            got3 = s.all()
        except Exception as e:
            expect(False, f'the query failed: {e!r}', conditions=conds, files=os.listdir(path))
        want = wanted(beads, conds)
        for g in (got, got2, got3):
            same(g, want, conditions=conds, files=os.listdir(path))
            expect(all(b.box_name == 'box' for b in g), 'wrong box name')
        p = plain.get_beads(raw_conditions(conds), 'box')
        expect(Counter(map(found, p)) == Counter(map(found, got)), 'the indexed and the plain box differ', conditions=conds, plain=list(map(found, p)), indexed=list(map(found, got)))
        expect(sorted(b.freeze_time for b in p) == sorted(b.freeze_time for b in got), 'freeze times differ')


@case(15)
def lookups(d):
    path, beads = a_box(d)
    ix = index(d, path, beads)
    for _ in range(8):
        name = d.rng.choice([b['name'] for b in beads] + NAMES) if beads else 'x'
        cid = d.rng.choice([b['content_id'] for b in beads] + [H(b'none')])
        want = [b['path'] for b in beads if b['name'] == name and b['content_id'] == cid]
        for r in (ix, RawFilesystemResolver(Path(path))):
            try:
                got = os.fspath(r.get_file_path(name, cid))
            except LookupError:
                got = None
            except Exception as e:
                expect(False, f'the lookup failed: {e!r}', name=name)
            expect([got] == want if want else got is None, 'another file is found', name=name, content_id=cid, got=got, want=want, resolver=type(r).__name__)


@case(1)
def many(d):
    '''a box with many beads'''
    r = d.rng
    path = os.path.join(d.tmp, 'box')
    os.makedirs(path)
    beads = []
    n = r.choice([70, 130, 270])
    t = some_time(r, past=True)
    for k in range(n):
        x = text(t - timedelta(seconds=k))
        p = os.path.join(path, f'n{k % 3}_{x}.zip')
        make(p, freeze_time=x, kind=f'k{k % 2}', name=f'n{k % 3}')
        beads.append(info(p, f'n{k % 3}'))
    ix = BoxIndex(Path(path))
    r.choice([ix.rebuild, ix.sync])()
    for conds in ([], [('by_name', 'n1')], [('by_kind', 'k1')], [('by_kind', 'k0'), ('by_name', 'n2')]):
        same(ix.get_beads(raw_conditions(conds), 'box'), wanted(beads, conds), conditions=conds)


@case(15)
def close_times(d):
    path = os.path.join(d.tmp, 'box')
    os.makedirs(path)
    t = some_time(d.rng, past=True)
    beads = []
    for k in range(3):
        p = os.path.join(path, f'n{k}.zip')
        x = (t + timedelta(microseconds=k)).astimezone(timezone(timedelta(minutes=d.rng.choice([0, 60, -330, 840]))))
        make(p, freeze_time=text(x), kind='k')
        beads.append(info(p, f'n{k}'))
    ix = index(d, path, beads)
    for h in list(CONDITIONS)[3:]:
        for b in beads:
            x = b['time'].astimezone(timezone(timedelta(minutes=d.rng.choice([0, 60, -330, 840]))))
            same(ix.get_beads(raw_conditions([(h, x)]), 'box'), wanted(beads, [(h, x)]), how=h, time=text(x))


if __name__ == '__main__':
    main('searches of random indexed boxes against the plain box and a brute-force evaluation of the conditions')
