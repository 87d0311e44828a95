'''C26: heads_of keeps the newest versions and their inputs.'''
from .clusters import *

ASSUMPTIONS = ['Dummy objects are compared by identity here, there is one for a reference (C17)',
               'parsing of freeze times is an arbitrary function from strings to instants (C11)']


def heads_unit(v):
    t = types_obj(v)
    sk, beads, edges = sketch(v, t)
    hb, he = lambda b: t.DUMMIES.has(beads, b), lambda e: t.EDGES.has(edges, e)
    v.assume(one_for_ref(v, t, beads, assumed=True))
    v.assume(v.forall(t.EDGE, lambda e: Implies(he(e), And(hb(t.src(e)), hb(t.dest(e)))), patterns=lambda e: [he(e)]))
    index_stub(v, t)
    refs_from_edges_stub(v, t)
    r = v.call(S + ':heads_of', sk)
    rb, re = v.t(v.getattr(r, 'beads'), t.DUMMIES), v.t(v.getattr(r, 'edges'), t.EDGES)
    hrb, hre = lambda b: t.DUMMIES.has(rb, b), lambda e: t.EDGES.has(re, e)
    head = lambda n: t.CLUSTER.acc('head')(t.cluster_of(n))
    is_h = lambda b: head(t.name(b)) == b
    v.check('the newest version of each name is kept', v.forall(t.DUMMY, lambda b: Implies(hb(b), And(
        hrb(head(t.name(b))), Not(less(t, head(t.name(b)), b))))), keep=False)
    v.check('exactly the links to the newest versions are kept', v.forall(t.EDGE, lambda e: hre(e) == And(he(e), is_h(t.dest(e)))), keep=False)
    v.check('inputs of the newest versions are kept', v.forall(t.EDGE, lambda e: Implies(And(he(e), is_h(t.dest(e))), hrb(t.src(e)))), keep=False)
    v.check('no other beads are kept', v.forall(t.DUMMY, lambda b: Implies(hrb(b), And(hb(b), Or(is_h(b), v.exists(t.EDGE, lambda e: And(
        he(e), is_h(t.dest(e)), t.src(e) == b)))))), keep=False)
    v.check('one bead for a reference', one_for_ref(v, t, rb), keep=False)
    v.check('number of links', v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < t.EDGES.n(re), v.forall(
        [INT, INT], lambda a, b: Implies(And(0 <= a, a < b, b < t.EDGES.n(edges)), t.EDGES.get(edges, a) != t.EDGES.get(edges, b)))),
        t.EDGES.get(re, i) != t.EDGES.get(re, j))), keep=False)


UNITS = CLUSTER_UNITS + [
    Unit('heads_of', heads_unit, mode='abstract'),
]
