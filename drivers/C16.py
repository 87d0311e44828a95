from lib import *
from weblib import *
from bead_cli.web import sketch as S
from bead_cli.web.commands import Filter, parse_commands
from bead_cli.web.io import write_beads, read_beads


def reach(pairs, roots):
    seen = set(roots)
    while True:
        new = {b for a, b in pairs if a in seen} - seen
        if not new:
            return seen
        seen |= new


def check(before, after, wanted_names, what):
    kept = [e for e in before.edges if e.src.name in wanted_names and e.dest.name in wanted_names]
    expect(sorted(map(link, after.edges)) == sorted(map(link, kept)), f'{what}: links', before=list(map(link, before.edges)),
           got=list(map(link, after.edges)), want=list(map(link, kept)), wanted=sorted(wanted_names))
    on_links = {n for e in kept for n in (e.src.name, e.dest.name)}
    got = sorted(ref(b) for b in after.beads)
    want = sorted(ref(b) for b in before.beads if b.name in on_links)
    expect(got == want, f'{what}: beads', got=got, want=want)
    by_ref = {ref(b): b for b in before.beads}
    for b in after.beads:
        o = by_ref[ref(b)]
        expect((b.kind, b.freeze_time_str, b.freshness, b.box_name) == (o.kind, o.freeze_time_str, o.freshness, o.box_name),
               f'{what}: bead changed', bead=value(b), was=value(o))
        ins = [inp(i) for i in o.inputs if i.name in wanted_names and b.name in wanted_names]
        expect([inp(i) for i in b.inputs] == ins, f'{what}: inputs', got=value(b), want=ins)


def web(d):
    bs = beads(d)
    d.nontrivial = len(bs) > 2
    return Sketch.from_beads(bs)


def pick(d, sk):
    pool = sorted({b.name for b in sk.beads}) + ['nosuch']
    return [d.rng.choice(pool) for _ in range(d.rng.choice([1, 1, 2, 3] + [len(pool) // 2 + 1, 2 * len(pool)] * (d.rng.random() < .1)))]


@case()
def sources(d):
    sk = web(d)
    roots = pick(d, sk)
    pairs = {(e.src.name, e.dest.name) for e in sk.edges}
    have = {b.name for b in sk.beads}
    check(sk, S.set_sources(sk, d.rng.choice([list, set, tuple])(roots)), reach(pairs, set(roots) & have), f'sources {roots}')


@case()
def sinks(d):
    sk = web(d)
    roots = pick(d, sk)
    pairs = {(e.dest.name, e.src.name) for e in sk.edges}
    have = {b.name for b in sk.beads}
    check(sk, S.set_sinks(sk, d.rng.choice([list, set, tuple])(roots)), reach(pairs, set(roots) & have), f'sinks {roots}')


@case()
def filter_command(d):
    sk = web(d)
    so, si = d.rng.choice([[], pick(d, sk)]), d.rng.choice([[], pick(d, sk)])
    so, si = [n for n in so if n != '..'], [n for n in si if n != '/']
    if any(n in ('..', '/') for n in so + si):
        raise Skip('delimiter')
    words = so + ['..'] + si + ['/'] + ['rest']
    args = words[::-1]
    f = Filter(args)
    expect(args == ['rest'], 'the filter takes more words than its own', args=args)
    got = f(sk)
    step = sk
    if so:
        w = reach({(e.src.name, e.dest.name) for e in sk.edges}, set(so) & {b.name for b in sk.beads})
        step = S.set_sources(sk, so)
        check(sk, step, w, 'filter sources')
    if si:
        w = reach({(e.dest.name, e.src.name) for e in step.edges}, set(si) & {b.name for b in step.beads})
        check(step, got, w, 'filter sinks')
    elif not so:
        expect(got is sk or sorted(map(link, got.edges)) == sorted(map(link, sk.edges)), 'empty filter')
    else:
        check(sk, got, reach({(e.src.name, e.dest.name) for e in sk.edges}, set(so) & {b.name for b in sk.beads}), 'filter only sources')


if __name__ == '__main__':
    main('random webs with cycles, missing beads and several versions; reachability computed independently')
