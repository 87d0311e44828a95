'''Random webs and the oracle for them.'''
import copy

from bead.meta import InputSpec
from bead.tech.timestamp import time_from_timestamp
from bead_cli.web.dummy import Dummy, Ref
from bead_cli.web.freshness import Freshness
from bead_cli.web.sketch import Sketch
from bead_cli.web.graph import Edge

F = Freshness
TIMES = ['20210101T000000000000+0000', '20210101T000000000001+0000', '20210101T010000000000+0100', '20201231T235959999999+0000',
         '20220101T000000000000+0000', '20190305T120000000000-0500', '20300101T000000000000+0000', '19700101T000000000000+0000']


def ref(b):
    return (b.name, b.content_id)


def names(d, n):
    pool = ['a', 'b', 'c', 'd', 'e', 'f', 'A', 'a1', 'é', 'e\u0301', 'x y', '*', 'ab', ' a', 'a ']
    if d.rng.random() < .2:
        pool += [h for h in list(d.hints) + list(d.literals) if h not in ('', '.', '..') and '/' not in h and '__' not in h]
    d.rng.shuffle(pool)
    return pool[:n]


def beads(d, acyclic=False, dups=True, nmax=None):
    '''Beads as found in boxes: [Dummy], some inputs refer to no bead, the same bead may be there several times.'''
    r = d.rng
    n = r.choice([1, 2, 3, 4, 6]) if nmax is None else nmax
    ns = names(d, n)
    out = []
    refs = []
    shape = r.choice(['random', 'random', 'chain', 'dense', 'star'] + ['fan'] * (nmax is None and r.random() < .2))
    many = nmax is None and r.random() < .03
    if many:
        ns = ns + [f'n{i}' for i in range(r.choice([10, 70, 120]))]
    for k in range(r.choice([70, 130]) if many else r.choice([0, 1, 2, 3, 5, 8, 12])):
        name = r.choice(ns)
        cid = f'c{k}' if r.random() < .8 else r.choice(['c0', 'c1', 'c2', name])
        if (name, cid) in refs:
            continue
        refs.append((name, cid))
    for k, (name, cid) in enumerate(refs):
        ins = []
        cand = refs[:k] if acyclic else [x for x in refs if x != (name, cid) or r.random() < .2]
        m = dict(random=r.choice([0, 0, 1, 2, 3]), chain=1, dense=4, star=1, fan=r.choice([0, 0, 1, 60, 110]))[shape]
        for j in range(m):
            if r.random() < .2 or not cand:
                tgt = (r.choice(ns + ['zz', 'qq']), r.choice(['gone1', 'gone2', 'c0']))
                if acyclic and tgt in refs:
                    continue
            elif shape == 'chain':
                tgt = cand[-1]
            elif shape == 'star':
                tgt = cand[0]
            else:
                tgt = r.choice(cand)
            ins.append(InputSpec(name=tgt[0], kind=r.choice(['k1', 'k2']),
                                 content_id=tgt[1], freeze_time_str=r.choice(TIMES)))
        # the name of an input in the web is the name of the bead
        out.append(Dummy(name=name, content_id=cid, kind=r.choice(['k1', 'k2']), freeze_time_str=r.choice(TIMES), inputs=ins,
                         freshness=r.choice([F.SUPERSEDED, F.SUPERSEDED, F.UP_TO_DATE, F.OUT_OF_DATE]), box_name=r.choice(['', 'box1', 'box2'])))
    if dups and out and r.random() < .3:
        b = copy.deepcopy(r.choice(out))
        b.box_name = 'other'
        out.append(b)
    r.shuffle(out)
    return out


def value(b):
    return (b.name, b.content_id, b.kind, b.freeze_time_str, tuple(inp(i) for i in b.inputs), b.freshness, b.box_name)


def inp(i):
    return (i.name, i.kind, i.content_id, i.freeze_time_str)


def phantom(i):
    return (i.name, i.content_id, i.kind, i.freeze_time_str, (), F.PHANTOM, '')


def link(e):
    return (ref(e.src), ref(e.dest), e.label)


def links_of(bs):
    '''the links of a web of these beads (one for each reference)'''
    return sorted(((i.name, i.content_id), ref(b), i.name) for b in bs for i in b.inputs)


def order(b):
    return (b.freshness != F.PHANTOM, time_from_timestamp(b.freeze_time_str))
