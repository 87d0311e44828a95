import json
import os
from lib import *
from weblib import *
from bead_cli.web.io import write_beads, read_beads, dumps, loads
from bead_cli.web.commands import Save, Load

ODD = ['', 'null', '@class', '@encoding', 'attrs', 'enum', 'value', '"', '\\', '\n', '\0', '\ud800', 'é', '\u2028', '😀', '{"a": 1}', 'Dummy',
       'True', '1', 'a' * 300, ' x ', '\r\n', '\x7f', 'PHANTOM', '%s', '<&>']


def odd(d, valid_name=False):
    r = d.rng
    while True:
        s = r.choice(ODD) if r.random() < .6 else ''.join(chr(r.choice([r.randrange(1, 128), r.randrange(1, 0xd7ff), r.randrange(0xe000, 0x10ffff)]))
                                                          for _ in range(r.randint(0, 6)))
        if d.literals and r.random() < .1:
            s = r.choice(d.literals)
        if not valid_name or (s not in ('', '.', '..') and '/' not in s and '__' not in s):
            return s


def any_beads(d):
    r = d.rng
    out = []
    for k in range(r.choice([0, 1, 2, 3, 6])):
        ins = [InputSpec(name=odd(d, True), kind=odd(d), content_id=odd(d), freeze_time_str=odd(d)) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        out.append(Dummy(name=odd(d), content_id=odd(d), kind=odd(d), freeze_time_str=odd(d), inputs=ins, freshness=r.choice(list(F)), box_name=odd(d)))
    return out


def same(got, want, what):
    expect(isinstance(got, (list, tuple)) and len(got) == len(want), f'{what}: number of beads', got=got, want=want)
    for a, b in zip(got, want):
        expect(type(a) is Dummy and value(a) == value(b), f'{what}: bead', got=value(a) if isinstance(a, Dummy) else a, want=value(b))
        expect(a.freshness is b.freshness and all(type(i) is InputSpec for i in a.inputs), f'{what}: types', got=a.freshness)


@case()
def file(d):
    bs = any_beads(d)
    want = [Dummy(**{f: getattr(b, f) for f in ('name', 'content_id', 'kind', 'freeze_time_str', 'inputs', 'freshness', 'box_name')}) for b in bs]
    f = os.path.join(d.tmp, 'x.web')
    write_beads(f, d.rng.choice([list, tuple])(bs))
    same(read_beads(f), want, 'file')
    same(bs, want, 'beads written')


@case()
def text(d):
    bs = any_beads(d)
    same(loads(dumps(bs)), bs, 'text')


@case(4)
def commands(d):
    sk = Sketch.from_beads(beads(d))
    f = os.path.join(d.tmp, 'x.web')
    if d.rng.random() < .5:
        with open(f, 'w') as o:
            o.write('x' * 100000)
    got = Save([f])(sk)
    expect(got is sk, 'save gives another web')
    sk2 = read_beads(f)
    same(sk2, sk.beads, 'saved')
    sk3 = Load([f])(Sketch.from_beads([]))
    # phantoms in the file are beads of the loaded web
    want = sorted((value(b)[:5] for b in sk.beads), key=repr)
    expect(sorted((value(b)[:5] for b in sk3.beads), key=repr) == want, 'loaded web: beads', got=sorted(map(value, sk3.beads), key=repr), want=want)
    expect(sorted(map(link, sk3.edges)) == sorted(map(link, sk.edges)), 'loaded web: links')


@case(4)
def colored(d):
    sk = Sketch.from_beads(beads(d, acyclic=True))
    sk.color_beads()
    f = os.path.join(d.tmp, 'x.web')
    sk.to_file(f)
    same(read_beads(f), sk.beads, 'colored')
    sk3 = Load([f])(Sketch.from_beads([]))
    for b in sk3.beads:
        o = [x for x in sk.beads if ref(x) == ref(b)]
        expect(len(o) == 1 and b.freshness is o[0].freshness and b.box_name == o[0].box_name, 'loaded web: freshness', got=value(b), want=list(map(value, o)))
    sk4 = Sketch.from_file(f)
    same(sk4.beads, sk.beads, 'from_file')


if __name__ == '__main__':
    main('beads with arbitrary strings and all freshness values written and read back')
