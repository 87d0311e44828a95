from collections import Counter

from boxlib import *
from bead.box import Box
from bead.box_query import QueryCondition


def a_box(d, n=None, bad=None):
    r = d.rng
    box = os.path.join(d.tmp, r.choice(['box', 'b[x]', 'b*x']))
    os.makedirs(box)
    names = r.sample(NAMES, r.choice([2, 3, 5, len(NAMES)]))
    beads = [bead(d, box, names) for _ in range(r.randrange(1, 9) if n is None else n)]
    beads = [b for b in beads if b]
    for _ in range(r.choice([0, 1, 3]) if bad is None else bad):
        damaged(d, box)
    if r.random() < .2:     # below the folder of the box
        make(os.path.join(box, r.choice(['sub', 'x.zip', '.sub']), r.choice(names) + '_20200101.zip'), kind=r.choice(KINDS) or 'k', freeze_time=text(some_time(r)))
    # what the damage made may be a readable bead only where the file of a bead was left alone
    return box, beads


def query(box, d, conds):
    if d.rng.random() < .5:
        s = box.search()
        for h, x in conds:
            s = getattr(s, h)(x)
        return s.all()
    from bead.tech.timestamp import time_from_timestamp
    return box.get_beads([(QueryCondition[TAGS[h]], time_from_timestamp(x) if not h.startswith('by_') and isinstance(x, str) else x) for h, x in conds])


@case(20)
def search_finds_what_matches(d):
    path, beads = a_box(d, bad=d.rng.choice([0, 0, 1, 4]))
    box = Box('box', path)
    for _ in range(6):
        conds = [condition(d, beads) for _ in range(d.rng.choice([0, 1, 1, 1, 2, 2, 3]))]
        want = wanted(beads, conds)
        try:
            got = query(box, d, conds)
        except Exception as e:
            expect(False, f'the search failed: {e!r}', conditions=conds, files=os.listdir(path))
        # a file that is not readable as far as this can tell is ignored, other files of the box are beads
        mine = {b['path'] for b in beads}
        others = [f for f in os.listdir(path) if os.path.join(path, f) not in mine]
        expect(Counter(map(found, got)) == Counter(map(key, want)), 'the search found other beads than those that match', conditions=conds,
               found=list(map(found, got)), want=list(map(key, want)), other_files=others)
        expect(all(b.box_name == 'box' for b in got), 'wrong box name')


@case(10)
def damaged_files_are_ignored(d):
    path, beads = a_box(d, bad=6)
    found_ = Box('box', path).all_beads()
    expect(Counter(map(found, found_)) == Counter(map(key, beads)), 'damaged files change what is in the box',
           found=list(map(found, found_)), want=list(map(key, beads)), files=os.listdir(path))


@case(6)
def two_times_a_microsecond_apart(d):
    path = os.path.join(d.tmp, 'box')
    os.makedirs(path)
    t = some_time(d.rng)
    beads = []
    for k in (0, 1):
        p = os.path.join(path, f'n{k}.zip')
        make(p, freeze_time=text(t + timedelta(microseconds=k)), kind='k')
        beads.append(info(p, f'n{k}'))
    box = Box('box', path)
    for h in list(CONDITIONS)[3:]:
        for x in (beads[0]['time'], beads[1]['time']):
            got = query(box, d, [(h, x)])
            expect(sorted(map(found, got)) == sorted(map(key, wanted(beads, [(h, x)]))), 'times a microsecond apart', how=h)


@case(4)
def the_search_is_repeatable(d):
    path, beads = a_box(d)
    box = Box('box', path)
    conds = [condition(d, beads)]
    a = sorted(map(found, query(box, d, conds)))
    more = bead(d, path)
    if more is None:
        raise Skip('name taken')
    beads.append(more)
    b = sorted(map(found, query(box, d, conds)))
    expect(b == sorted(map(key, wanted(beads, conds))), 'a bead stored after the first search', conditions=conds, first=a)


@case(2)
def empty_conditions_are_refused(d):
    path, _ = a_box(d)
    for h in ('by_name', 'by_kind', 'by_content_id'):
        try:
            getattr(Box('b', path).search(), h)('')
        except ValueError:
            continue
        expect(False, 'an empty value is accepted', how=h)


if __name__ == '__main__':
    main('searches of random boxes with odd names and damaged files against a brute-force evaluation of the conditions')
