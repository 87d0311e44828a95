'''C18: freshness of beads.'''
from .clusters import *

ASSUMPTIONS = ['Dummy objects are compared by identity here, there is one for a reference (C17)',
               'parsing of freeze times is an arbitrary function from strings to instants (C11)',
               'the links of the web have no cycle (a web with a cycle is refused by toposort, C17)']
NOT_COVERED = ['graphviz rendering of the colors', 'the value returned by color_beads']


def first_facts(v, t):
    '''contract of Cluster.beads: which one is first'''
    first = z3.Function('first_version', t.CLUSTER.sort, t.DUMMY.sort)
    chead = t.CLUSTER.acc('head')
    return first, lambda c: And(
        t.DUMMIES.has(t.vals(c), first(c)),
        Or(t.phantom(first(c)), first(c) == chead(c)))


def color_unit(v):
    t = types_obj(v)
    FR = t.FRESH.cls.members
    P, UP, OUT, SUP = (t.FRESH.of(x) for x in ('PHANTOM', 'UP_TO_DATE', 'OUT_OF_DATE', 'SUPERSEDED'))
    g, fresh = color_ghost(v, t)
    set_freshness_stub(v, t, g)
    sk, beads, edges = sketch(v, t)
    hb, he = lambda b: t.DUMMIES.has(beads, b), lambda e: t.EDGES.has(edges, e)
    v.assume(one_for_ref(v, t, beads, assumed=True))
    v.assume(v.forall(t.EDGE, lambda e: Implies(he(e), And(hb(t.src(e)), hb(t.dest(e)))), patterns=lambda e: [he(e)]))
    # no cycles: a rank
    rank = v.I.ctx.fresh_fun('rank', t.DUMMY.sort, z3.IntSort())
    v.assume(v.forall(t.EDGE, lambda e: Implies(he(e), rank(t.src(e)) < rank(t.dest(e))), patterns=lambda e: [he(e)]))
    v.assume(v.forall(t.DUMMY, lambda b: rank(b) < 0, patterns=lambda b: [rank(b)]))
    index_stub(v, t)
    first, first_fact = first_facts(v, t)
    color0 = v.t(g, t.COLOR)
    fresh_of = lambda c: (lambda b: If(t.phantom(b), P, t.COLOR.get(c, b)))
    gh = {}

    chead, C = t.CLUSTER.acc('head'), t.cluster_of
    is_h = lambda b: chead(C(t.name(b))) == b
    newest = lambda b: first(C(t.name(b))) == b
    v.assume(v.forall(STR, lambda n: first_fact(C(n)), patterns=lambda n: [C(n)]))

    def heads_stub(I, f, a, k):
        v.getattr(a[0], 'clusters')
        r, rb, re = sketch(v, t, 'heads')
        hrb, hre = lambda b: t.DUMMIES.has(rb, b), lambda e: t.EDGES.has(re, e)
        v.assume(v.forall(t.EDGE, lambda e: hre(e) == And(he(e), is_h(t.dest(e))), patterns=lambda e: [hre(e), he(e)]))
        v.assume(v.forall(t.EDGE, lambda e: Implies(hre(e), And(hrb(t.src(e)), hrb(t.dest(e)))), patterns=lambda e: [hre(e)]))
        v.assume(v.forall(t.DUMMY, lambda b: Implies(hrb(b), hb(b)), patterns=lambda b: [hrb(b)]))
        v.assume(v.forall(t.DUMMY, lambda b: Implies(And(hb(b), is_h(b)), hrb(b)), patterns=lambda b: [hb(b)]))
        v.assume(one_for_ref(v, t, rb, assumed=True))
        return r
    v.stub(S + ':heads_of', heads_stub)

    def sink_stub(I, f, a, k):
        ib, ie = v.t(v.getattr(a[0], 'beads'), t.DUMMIES), v.t(v.getattr(a[0], 'edges'), t.EDGES)
        sink = v.const('sink', t.DUMMY)
        s = sink.t
        gh['sink'] = s
        v.assume(Not(hb(s)))
        v.assume(v.forall(t.DUMMY, lambda b: Implies(hb(b), t.name(b) != t.name(s)), patterns=lambda b: [hb(b)]))
        v.assume(And(Not(t.phantom(s)), t.COLOR.get(color0, s) == UP))
        r, rb, re = sketch(v, t, 'with_sink')
        has, hre = lambda b: t.DUMMIES.has(rb, b), lambda e: t.EDGES.has(re, e)
        v.assume(v.forall(t.DUMMY, lambda b: has(b) == Or(t.DUMMIES.has(ib, b), b == s), patterns=lambda b: [has(b), t.DUMMIES.has(ib, b)]))
        link = v.I.ctx.fresh_fun('to_sink', t.DUMMY.sort, t.EDGE.sort)
        v.assume(v.forall(t.EDGE, lambda e: Implies(hre(e), Or(t.EDGES.has(ie, e), And(t.dest(e) == s, t.DUMMIES.has(ib, t.src(e))))), patterns=lambda e: [hre(e)]))
        v.assume(v.forall(t.EDGE, lambda e: Implies(t.EDGES.has(ie, e), hre(e)), patterns=lambda e: [t.EDGES.has(ie, e)]))
        v.assume(v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(ib, b), And(hre(link(b)), t.src(link(b)) == b, t.dest(link(b)) == s)),
                          patterns=lambda b: [t.DUMMIES.has(ib, b)]))
        return (r, sink)
    v.stub(S + ':add_final_sink_to', sink_stub)

    def toposort_stub(I, f, a, k):
        E = t.EDGES.unwrap(I, PBlist(v, a[0]))
        gh['E'] = E
        hx = lambda e: t.EDGES.has(E, e)
        s = gh['sink']
        r2 = lambda b: If(b == s, 0, rank(b))
        v.check('precondition of toposort: no cycle', v.forall(t.EDGE, lambda e: Implies(hx(e), r2(t.src(e)) < r2(t.dest(e)))), keep=False)
        v.check('precondition of toposort: one node for a reference', And(*[v.forall([t.EDGE, t.EDGE], lambda a, b: Implies(
            And(hx(a), hx(b), t.ref(p(a)) == t.ref(q(b))), p(a) == q(b))) for p in (t.src, t.dest) for q in (t.src, t.dest)]), keep=False)
        r = v.const('order', t.DUMMIES)
        R = v.t(r, t.DUMMIES)
        gh['order'] = R
        at, n = lambda i: t.DUMMIES.get(R, i), t.DUMMIES.n(R)
        pos = v.I.ctx.fresh_fun('pos', t.DUMMY.sort, z3.IntSort())
        gh['pos'] = pos
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < n), pos(at(i)) == i), patterns=lambda i: [at(i)]))
        v.assume(v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(R, b), And(0 <= pos(b), pos(b) < n, at(pos(b)) == b)),
                          patterns=lambda b: [t.DUMMIES.has(R, b)]))
        v.assume(v.forall(t.EDGE, lambda e: Implies(hx(e), And(t.DUMMIES.has(R, t.src(e)), t.DUMMIES.has(R, t.dest(e)),
                                                              pos(t.src(e)) < pos(t.dest(e)))), patterns=lambda e: [hx(e)]))
        by = v.I.ctx.fresh_fun('node_of', t.DUMMY.sort, t.EDGE.sort)
        v.assume(v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(R, b), And(hx(by(b)), Or(t.src(by(b)) == b, t.dest(by(b)) == b))),
                          patterns=lambda b: [t.DUMMIES.has(R, b)]))
        return r
    v.stub(G + ':toposort', toposort_stub)
    v.stub(S + ':toposort', toposort_stub)

    def reset(I, s, a, k):
        c = s.t
        old = fresh_of(v.t(g, t.COLOR))
        v.become(g, t.COLOR, v.t(v.const('color', t.COLOR), t.COLOR))
        new = fresh_of(v.t(g, t.COLOR))
        V_ = t.vals(c)
        v.assume(v.forall(t.DUMMY, lambda b: new(b) == If(t.phantom(b), P, If(t.DUMMIES.has(V_, b), If(b == first(c), UP, SUP), old(b))),
                          patterns=lambda b: [t.COLOR.get(v.t(g, t.COLOR), b)]))
        return None
    t.CLUSTER.methods['reset_freshness'] = reset

    def inv(L):
        cur = fresh_of(v.t(g, t.COLOR))
        old = fresh_of(color0)
        col = lambda b: t.COLOR.get(v.t(g, t.COLOR), b)
        if L.view.ty is t.CLUSTER or L.view.ty is STR:
            at = L.view.at if L.view.ty is t.CLUSTER else lambda j: C(L.view.at(j))
            in_ = lambda j, b: And(0 <= j, j < L.i, t.DUMMIES.has(t.vals(at(j)), b))
            return [
                ('clusters are reset', v.forall([INT, t.DUMMY], lambda j, b: Implies(in_(j, b), cur(b) == If(
                    t.phantom(b), P, If(b == first(at(j)), UP, SUP))),
                    patterns=lambda j, b: [z3.MultiPattern(L.view.at(j), col(b))])),
                ('others are as they were', v.forall(t.DUMMY, lambda b: Implies(Not(hb(b)), cur(b) == old(b)), patterns=lambda b: [col(b)])),
            ]
        if L.view.ty is t.EDGE:     # looking for a link from a bead that is not up to date
            if z3.is_int_value(L.i) and L.i.as_long() == 0:
                gh['start'] = v.t(g, t.COLOR)
            return [('colors stay until one is found', v.t(g, t.COLOR) == gh['start']),
                    ('links before are from beads that are up to date', v.forall(INT, lambda j: Implies(
                        And(0 <= j, j < L.i), cur(t.src(L.view.at(j))) == UP), patterns=lambda j: [L.view.at(j)]))]
        if 'order' not in gh:
            raise Unsupported('color_beads: which loop is it?')
        s, R, pos = gh['sink'], gh['order'], gh['pos']
        reset_ = lambda b: If(t.phantom(b), P, If(newest(b), UP, SUP))
        E = gh['E']
        ok = lambda b: v.forall(t.EDGE, lambda e: Implies(And(t.EDGES.has(E, e), t.dest(e) == b), cur(t.src(e)) == UP),
                                patterns=lambda e: [t.EDGES.has(E, e)])
        done = lambda b: And(t.DUMMIES.has(R, b), pos(b) < L.i)
        return [
            ('done beads', v.forall(t.DUMMY, lambda b: Implies(And(hb(b), done(b), newest(b), Not(t.phantom(b))), cur(b) == If(ok(b), UP, OUT)),
                                    patterns=lambda b: [t.DUMMIES.has(R, b)])),
            ('others are as after reset', v.forall(t.DUMMY, lambda b: Implies(And(hb(b), Not(And(done(b), newest(b)))), cur(b) == reset_(b)),
                                                   patterns=lambda b: [hb(b), col(b)])),
        ]
    v.loop('bead_cli.web.*', inv)
    o = v.attempt(lambda: v.call(S + ':color_beads', sk))
    v.check('no error', z3.BoolVal(o.ok))
    cur = fresh_of(v.t(g, t.COLOR))
    inputs_ok = lambda b: v.forall(t.EDGE, lambda e: Implies(And(he(e), t.dest(e) == b), cur(t.src(e)) == UP))
    v.check('missing beads stay missing', v.forall(t.DUMMY, lambda b: Implies(And(hb(b), t.phantom(b)), cur(b) == P)), keep=False)
    v.check('versions that are not the newest are superseded', v.forall(t.DUMMY, lambda b: Implies(
        And(hb(b), Not(t.phantom(b)), Not(newest(b))), cur(b) == SUP)), keep=False)
    v.check('the newest is up to date when all its inputs are', v.forall(t.DUMMY, lambda b: Implies(
        And(hb(b), Not(t.phantom(b)), newest(b), inputs_ok(b)), cur(b) == UP)), keep=False)
    v.check('the newest is out of date when an input is not up to date', v.forall(t.EDGE, lambda e: Implies(
        And(he(e), Not(t.phantom(t.dest(e))), newest(t.dest(e)), cur(t.src(e)) != UP), cur(t.dest(e)) == OUT)), keep=False)


def sink_unit(v):
    from .web import types
    t = types(v)
    sk, beads, edges = sketch(v, t)
    hb, he = lambda b: t.DUMMIES.has(beads, b), lambda e: t.EDGES.has(edges, e)
    refs_from_edges_stub(v, t)
    wf_sketch(v, t, beads, edges, full=False)
    r, sink = v.items(v.call(S + ':add_final_sink_to', sk))
    s = v.t(sink, t.DUMMY)
    rb, re = v.t(v.getattr(r, 'beads'), t.DUMMIES), v.t(v.getattr(r, 'edges'), t.EDGES)
    hrb, hre = lambda b: t.DUMMIES.has(rb, b), lambda e: t.EDGES.has(re, e)
    v.check('the name of the sink is no name of a bead', v.forall(t.DUMMY, lambda b: Implies(hb(b), t.name(b) != t.name(s))), keep=False)
    v.check('the sink is up to date', t.DUMMY.f('freshness', s) == t.FRESH.of('UP_TO_DATE'), keep=False)
    v.check('the beads and the sink', v.forall(t.DUMMY, lambda b: hrb(b) == Or(hb(b), b == s)), keep=False)
    v.check('links are kept', v.forall(t.EDGE, lambda e: Implies(he(e), hre(e))), keep=False)
    v.check('new links go to the sink', v.forall(t.EDGE, lambda e: Implies(hre(e), Or(he(e), And(t.dest(e) == s, hb(t.src(e)))))), keep=False)
    v.check('every bead is linked to the sink', v.forall(t.DUMMY, lambda b: Implies(hb(b), v.exists(t.EDGE, lambda e: And(
        hre(e), t.src(e) == b, t.dest(e) == s)))), keep=False)


UNITS = [
    Unit('add_final_sink_to', sink_unit, mode='abstract'),
    Unit('Cluster.beads', order_unit, mode='abstract'),
    Unit('set_freshness', set_freshness_unit, mode='abstract'),
    Unit('reset_freshness', reset_unit, mode='abstract'),
    Unit('color_beads', color_unit, mode='abstract'),
]
