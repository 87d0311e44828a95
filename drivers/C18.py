from lib import *
from weblib import *
from bead_cli.web.sketch import color_beads
from bead_cli.web.commands import SetFreshness


def head_of(bs):
    '''newest of a name, if it is not missing (any of those at the same time)'''
    m = max(time_from_timestamp(b.freeze_time_str) for b in bs)
    return [b for b in bs if time_from_timestamp(b.freeze_time_str) == m and b.freshness != F.PHANTOM]


def check(d, bs):
    sk = Sketch.from_beads(bs)
    phantoms = {ref(b) for b in sk.beads if b.freshness == F.PHANTOM}
    before = [value(b)[:5] + value(b)[6:] for b in sk.beads]
    by_name = {}
    for b in sk.beads:
        by_name.setdefault(b.name, []).append(b)
    newest = {n: {ref(b) for b in head_of(x)} for n, x in by_name.items()}
    if d.rng.random() < .5:
        color_beads(sk)
    else:
        sk2 = SetFreshness([])(sk)
        expect(sk2 is sk, 'color gives another web')
    after = [value(b)[:5] + value(b)[6:] for b in sk.beads]
    expect(before == after, 'coloring changes more than freshness')
    colour = {ref(b): b.freshness for b in sk.beads}
    expect({r for r, c in colour.items() if c == F.PHANTOM} == phantoms, 'missing beads', got=colour, want=phantoms)
    for n, x in by_name.items():
        heads = [b for b in x if colour[ref(b)] in (F.UP_TO_DATE, F.OUT_OF_DATE)]
        expect(len(heads) == (1 if newest[n] else 0), 'number of newest beads', name=n, got={ref(b): colour[ref(b)] for b in x},
               newest=newest[n])
        for b in heads:
            expect(ref(b) in newest[n], 'not the newest one', name=n, got=ref(b), newest=newest[n])
        for b in x:
            if b not in heads and ref(b) not in phantoms:
                expect(colour[ref(b)] == F.SUPERSEDED, 'superseded', bead=ref(b), got=colour[ref(b)])
            if b in heads:
                ok = all(colour[(i.name, i.content_id)] == F.UP_TO_DATE for i in b.inputs)
                expect((colour[ref(b)] == F.UP_TO_DATE) == ok, 'freshness of newest', bead=ref(b), got=colour[ref(b)],
                       inputs=[(i.name, i.content_id, colour[(i.name, i.content_id)]) for i in b.inputs])


@case()
def color(d):
    check(d, beads(d, acyclic=True))


@case()
def chain(d):
    '''long chains of current beads, one of them may be outdated'''
    n = d.rng.choice([1, 2, 3, 5, 9])
    bs = []
    for k in range(n):
        ins = [InputSpec(name=f'n{k-1}', kind='k', content_id=f'c{k-1}', freeze_time_str=TIMES[0])] if k else []
        bs.append(Dummy(name=f'n{k}', content_id=f'c{k}', kind='k', freeze_time_str=TIMES[0], inputs=ins))
    if d.rng.random() < .5:
        k = d.rng.randrange(n)
        bs.append(Dummy(name=f'n{k}', content_id='newer', kind='k', freeze_time_str=TIMES[4]))
    if d.rng.random() < .3:
        bs.pop(d.rng.randrange(len(bs)))
    d.rng.shuffle(bs)
    check(d, bs)


@case(4)
def versions(d):
    '''several versions in one cluster, with equal times in different zones and missing ones'''
    r = d.rng
    bs = [Dummy(name='v', content_id=f'c{k}', kind='k', freeze_time_str=r.choice(TIMES)) for k in range(r.randint(1, 6))]
    for k in range(r.randint(0, 3)):
        bs.append(Dummy(name='u', content_id=f'u{k}', kind='k', freeze_time_str=r.choice(TIMES), inputs=[
            InputSpec(name='v', kind='k', content_id=r.choice(['c0', 'c1', 'gone']), freeze_time_str=r.choice(TIMES)) for _ in range(r.randint(0, 2))]))
    check(d, bs)


if __name__ == '__main__':
    main('random webs without cycles; freshness computed from its definition')
