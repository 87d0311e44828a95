from lib import *
from weblib import *
from bead_cli.web.graph import toposort, group_by_dest, group_by_src, node_index_from_edges, refs_from_edges
from bead_cli.web.commands import LoadAll


def check_web(sk, bs, what='web'):
    refs = [ref(b) for b in sk.beads]
    expect(len(set(refs)) == len(refs), f'{what}: two nodes for a bead', refs=refs)
    given = {}
    for b in bs:
        given.setdefault(ref(b), []).append(b)
    wanted = set(given)
    stand_ins = {}
    for b in sk.beads:
        for i in b.inputs:
            if (i.name, i.content_id) not in given:
                stand_ins.setdefault((i.name, i.content_id), []).append(i)
    expect(set(refs) == wanted | set(stand_ins), f'{what}: nodes', got=sorted(refs), want=sorted(wanted | set(stand_ins)))
    for b in sk.beads:
        if ref(b) in given:
            expect(value(b) in [value(x) for x in given[ref(b)]], f'{what}: node differs from the bead', got=value(b))
        else:
            expect(value(b) in [phantom(i) for i in stand_ins[ref(b)]], f'{what}: stand-in', got=value(b))
    expect(sorted(map(link, sk.edges)) == links_of(sk.beads), f'{what}: links', got=sorted(map(link, sk.edges)), want=links_of(sk.beads))
    by_ref = {ref(b): b for b in sk.beads}
    for e in sk.edges:
        expect(by_ref[ref(e.src)] is e.src and by_ref[ref(e.dest)] is e.dest, f'{what}: link between other nodes', edge=link(e))


@case()
def from_beads(d):
    bs = beads(d)
    d.nontrivial = len(bs) > 2
    values = list(map(value, bs))
    sk = Sketch.from_beads(d.rng.choice([list, tuple])(bs))
    check_web(sk, bs)
    expect(list(map(value, bs)) == values, 'beads are changed')


@case(3)
def from_bead_objects(d):
    '''Dummy.from_bead of things that look like beads'''
    class B:
        pass
    bs, objs = beads(d), []
    for x in bs:
        b = B()
        b.__dict__.update(name=x.name, content_id=x.content_id, kind=x.kind, freeze_time_str=x.freeze_time_str,
                          inputs=list(x.inputs), box_name=x.box_name)
        x.freshness = F.SUPERSEDED
        objs.append(b)
    got = [Dummy.from_bead(b) for b in objs]
    expect(list(map(value, got)) == list(map(value, bs)), 'Dummy.from_bead', got=list(map(value, got)), want=list(map(value, bs)))
    check_web(Sketch.from_beads(got), bs)


def acyclic(pairs):
    nodes = {x for p in pairs for x in p}
    pairs = set(pairs)
    while nodes:
        free = {n for n in nodes if not any(b == n for a, b in pairs)}
        if not free:
            return False
        nodes -= free
        pairs = {(a, b) for a, b in pairs if a not in free}
    return True


@case()
def ordering(d):
    bs = beads(d, acyclic=d.rng.random() < .6)
    sk = Sketch.from_beads(bs)
    edges = list(sk.edges)
    d.rng.shuffle(edges)
    d.nontrivial = len(edges) > 2
    pairs = [(ref(e.src), ref(e.dest)) for e in edges]
    try:
        order = toposort(tuple(edges))
    except ValueError:
        expect(not acyclic(pairs), 'refused without a cycle', pairs=pairs)
        return
    expect(acyclic(pairs), 'not refused with a cycle', pairs=pairs)
    got = [ref(b) for b in order]
    expect(sorted(got) == sorted({x for p in pairs for x in p}), 'nodes of the ordering', got=got, pairs=pairs)
    for a, b in pairs:
        expect(got.index(a) < got.index(b), 'input comes later', got=got, pair=(a, b))
    expect(set(map(id, order)) <= set(map(id, sk.beads)), 'other nodes')


@case(3)
def indexes(d):
    sk = Sketch.from_beads(beads(d))
    bd, bsrc = group_by_dest(sk.edges), group_by_src(sk.edges)
    expect({(r.name, r.content_id): list(map(link, es)) for r, es in bd.items() if es} ==
           {ref(b): [link(e) for e in sk.edges if ref(e.dest) == ref(b)] for b in sk.beads if any(ref(e.dest) == ref(b) for e in sk.edges)}, 'group_by_dest')
    expect({(r.name, r.content_id): list(map(link, es)) for r, es in bsrc.items() if es} ==
           {ref(b): [link(e) for e in sk.edges if ref(e.src) == ref(b)] for b in sk.beads if any(ref(e.src) == ref(b) for e in sk.edges)}, 'group_by_src')
    ix = node_index_from_edges(sk.edges)
    want = {ref(x): x for e in sk.edges for x in (e.src, e.dest)}
    expect({(r.name, r.content_id): id(b) for r, b in ix.items()} == {k: id(b) for k, b in want.items()}, 'node index')
    expect({(r.name, r.content_id) for r in refs_from_edges(sk.edges)} == set(want), 'refs_from_edges')


@case(2)
def equal_but_other_objects(d):
    '''the same bead twice, from two boxes, also when it is an input'''
    bs = beads(d, nmax=3)
    if not bs:
        raise Skip('empty')
    bs = bs + copy.deepcopy(d.rng.sample(bs, d.rng.randint(1, len(bs))))
    for b in bs:
        if d.rng.random() < .5:
            b.box_name = 'elsewhere'
    d.rng.shuffle(bs)
    check_web(Sketch.from_beads(bs), bs, 'duplicates')


if __name__ == '__main__':
    main('random webs with duplicates, missing inputs and cycles; nodes, links and order computed independently')
