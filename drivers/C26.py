from lib import *
from weblib import *
from bead_cli.web.sketch import heads_of
from bead_cli.web.commands import KeepOnlyHeads


def check(d, sk, got, inputs_dropped):
    by_name = {}
    for b in sk.beads:
        by_name.setdefault(b.name, []).append(b)
    heads = set()
    grefs = {ref(b) for b in got.beads}
    dests = {ref(e.dest) for e in got.edges}
    for n, x in by_name.items():
        top = max(map(order, x))
        best = [ref(b) for b in x if order(b) == top]
        ins = {(i.name, i.content_id) for b in sk.beads for i in b.inputs}
        have = [r for r in best if r in grefs]
        expect(have, 'newest version is not kept', name=n, best=best, got=sorted(grefs))
        with_links = [r for r in best if r in dests]
        if with_links:
            expect(len(with_links) == 1, 'two newest versions', name=n, got=with_links)
            heads.add(with_links[0])
        elif len(have) == 1:
            heads.add(have[0])
        else:
            no_links = [r for r in have if not any(ref(e.dest) == r for e in sk.edges)]
            expect(no_links, 'links of the newest version are not kept', name=n, got=have)
            heads.add(no_links[0])
    want_edges = sorted(link(e) for e in sk.edges if ref(e.dest) in heads)
    expect(sorted(map(link, got.edges)) == want_edges, 'links', got=sorted(map(link, got.edges)), want=want_edges, heads=sorted(heads))
    allowed = heads | {ref(e.src) for e in sk.edges if ref(e.dest) in heads}
    got_refs = sorted(ref(b) for b in got.beads)
    ties = any(len([b for b in x if order(b) == max(map(order, x))]) > 1 for x in by_name.values())
    if not ties:
        expect(set(got_refs) == allowed, 'beads', got=got_refs, want=sorted(allowed))
    expect(len(set(got_refs)) == len(got_refs), 'bead twice', got=got_refs)
    orig = {ref(b): b for b in sk.beads}
    kept = {(ref(e.src), ref(e.dest)) for e in got.edges}
    for b in got.beads:
        o = orig[ref(b)]
        v = list(value(o))
        if inputs_dropped:
            v[4] = tuple(inp(i) for i in o.inputs if ((i.name, i.content_id), ref(o)) in kept)
        expect(value(b) == tuple(v), 'bead changed', got=value(b), want=v)


@case()
def heads(d):
    sk = Sketch.from_beads(beads(d))
    d.nontrivial = len(sk.beads) > 2
    check(d, sk, heads_of(sk), False)


@case()
def heads_command(d):
    sk = Sketch.from_beads(beads(d))
    d.nontrivial = len(sk.beads) > 2
    check(d, sk, KeepOnlyHeads([])(sk), True)


if __name__ == '__main__':
    main('random webs; newest versions and their links computed independently')
