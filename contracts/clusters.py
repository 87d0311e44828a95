"""Clusters and Dummy objects with identity (their freshness changes), shared by C18 and C26."""
from .web import *
from pyded.interp import ExtClass

DUM = DM + ':Dummy'


def types_obj(v):
    '''Dummy objects: what is immutable are functions of the object, freshness is ghost state'''
    I = v.I
    if hasattr(v, 'obj_types'):
        t = v.obj_types
    else:
        t = v.obj_types = Types()
        t.REF = Rec('Ref', dict(name=STR, content_id=STR), cls=DM + ':Ref')
        t.FRESH = I.enum_ty(v.get('bead_cli.web.freshness:Freshness'))
        t.DUMMY = Abs('DummyObj', attrs=dict(name=STR, content_id=STR, kind=STR, freeze_time_str=STR), cls=DUM)
        t.EDGE = Rec('EdgeObj', dict(src=t.DUMMY, dest=t.DUMMY, label=STR), cls=G + ':Edge', opaque=True)
        t.DUMMIES = ListOf(t.DUMMY)
        t.EDGES = ListOf(t.EDGE)
        t.REFS = SetOf(t.REF)
        t.INDEX = DictOf(t.REF, t.DUMMY)
        t.COLOR = DictOf(t.DUMMY, t.FRESH)
        t.CLUSTER = Abs('ClusterObj', attrs=dict(name=STR, head=t.DUMMY))
        t.CLUSTERS = DictOf(STR, t.CLUSTER)
        I.records.update({DM + ':Ref': t.REF, G + ':Edge': t.EDGE})
        t.name = lambda b: t.DUMMY.acc('name')(b)
        t.ref = lambda b: t.REF.mk(t.name(b), t.DUMMY.acc('content_id')(b))
        t.src, t.dest, t.label = (lambda e: t.EDGE.f('src', e)), (lambda e: t.EDGE.f('dest', e)), (lambda e: t.EDGE.f('label', e))
        t.phantom = z3.Function('is_phantom', t.DUMMY.sort, z3.BoolSort())
        t.instant = z3.Function('instant_of', STR.sort, INSTANT.sort)
        t.time = lambda b: t.instant(t.DUMMY.acc('freeze_time_str')(b))
        t.vals = z3.Function('versions', t.CLUSTER.sort, t.DUMMIES.sort)   # beads of a cluster in the order they were added
        t.cluster_of = z3.Function('cluster_of', STR.sort, t.CLUSTER.sort)
    v.stub('bead.tech.timestamp:time_from_timestamp', lambda I, f, a, k: INSTANT.wrap(I, t.instant(v.t(a[0], STR))))
    v.stub(DUM + '.is_not_phantom', lambda I, f, a, k: BOOL.wrap(I, Not(t.phantom(v.t(a[0], t.DUMMY)))))
    return t


# order of beads for the choice of the head, and for sorting
def less(t, a, b):
    '''head_order(a) < head_order(b)'''
    pa, pb = t.phantom(a), t.phantom(b)
    return Or(And(pa, Not(pb)), And(pa == pb, t.time(a) < t.time(b)))


def is_head(v, t, L, h):
    '''h is the last one of those that no other one exceeds'''
    at, n = lambda i: t.DUMMIES.get(L, i), t.DUMMIES.n(L)
    k = v.I.ctx.fresh_fun('head_at', t.DUMMIES.sort, t.DUMMY.sort, z3.IntSort())(L, h)
    return And(0 <= k, k < n, at(k) == h,
               v.forall(INT, lambda j: Implies(And(0 <= j, j < n), Not(less(t, h, at(j)))), patterns=lambda j: [at(j)]),
               v.forall(INT, lambda j: Implies(And(k < j, j < n), less(t, at(j), h)), patterns=lambda j: [at(j)]))


def is_head_goal(v, t, L, h):
    at, n = lambda i: t.DUMMIES.get(L, i), t.DUMMIES.n(L)
    return v.exists(INT, lambda k: And(0 <= k, k < n, at(k) == h,
                                       v.forall(INT, lambda j: Implies(And(0 <= j, j < n), Not(less(t, h, at(j))))),
                                       v.forall(INT, lambda j: Implies(And(k < j, j < n), less(t, at(j), h)))))


# ---------------------------------------------------------------- Cluster

def versions_class(v, t):
    '''Model of beads_by_content_id: an insertion ordered dict, the content ids of its values are its keys.'''
    def vals(I, o):
        return I.h(o).fields['vals']

    def has(I, o, key):
        L = v.t(vals(I, o), t.DUMMIES)
        k = v.t(key, STR)
        return v.exists(t.DUMMY, lambda b: And(t.DUMMIES.has(L, b), t.DUMMY.acc('content_id')(b) == k))

    def contains(I, o, a, k):
        return BOOL.wrap(I, has(I, o, a[0]))

    def setitem(I, o, a, k):
        v.check('key of a version is its content id', v.t(a[0], STR) == t.DUMMY.acc('content_id')(v.t(a[1], t.DUMMY)))
        v.check('a version is not replaced by another one', Not(has(I, o, a[0])))
        I.mutate(vals(I, o), 'append', a[1])
        return None
    return ExtClass('dict of versions', dict(
        __contains__=contains, __setitem__=setitem,
        values=lambda I, o, a, k: vals(I, o),
        __len__=lambda I, o, a, k: INT.wrap(I, t.DUMMIES.n(v.t(vals(I, o), t.DUMMIES)))))


def a_cluster(v, t):
    L = v.const('versions', t.DUMMIES)
    name = v.const('name', STR)
    d = v.I.alloc(HInst(versions_class(v, t), dict(vals=L)))
    head = v.const('head', t.DUMMY)
    c = v.new(CL + ':Cluster', name=name, beads_by_content_id=d, head=head)
    return c, L, name, head


def add_unit(v):
    t = types_obj(v)
    c, vals, name, head = a_cluster(v, t)
    L0 = v.t(vals, t.DUMMIES)
    v.assume(Implies(t.DUMMIES.n(L0) > 0, is_head(v, t, L0, head.t)))
    b = v.const('bead', t.DUMMY)
    cid = t.DUMMY.acc('content_id')
    v.assume(t.name(b.t) == name.t)
    v.assume(v.forall(t.DUMMY, lambda x: Implies(t.DUMMIES.has(L0, x), cid(x) != cid(b.t)), patterns=lambda x: [t.DUMMIES.has(L0, x)]))
    o = v.attempt(lambda: v.method(c, 'add', b))
    v.check('no error', z3.BoolVal(o.ok))
    L = v.t(vals, t.DUMMIES)
    n = t.DUMMIES.n(L0)
    v.check('the bead is added', And(t.DUMMIES.n(L) == n + 1, t.DUMMIES.get(L, n) == b.t,
            v.forall(INT, lambda i: Implies(And(0 <= i, i < n), t.DUMMIES.get(L, i) == t.DUMMIES.get(L0, i)))))
    v.check('the head is the newest present bead', is_head_goal(v, t, L, v.t(v.getattr(c, 'head'), t.DUMMY)))
    v.check('the name is as it was', v.t(v.getattr(c, 'name'), STR) == name.t)


def new_cluster_unit(v):
    t = types_obj(v)
    # the initial head is a made up bead
    name = v.const('name', STR)
    v.stub(DUM + '.set_freshness', lambda I, f, a, k: None)
    c = v.call(CL + ':Cluster', name)
    v.check('the name of the cluster', v.t(v.getattr(c, 'name'), STR) == name.t)
    v.check('a new cluster is empty', z3.BoolVal(v.items(v.getattr(c, 'beads_by_content_id')) in ((), [])))


def order_unit(v):
    """Cluster.beads: time ordered, and which one is first"""
    t = types_obj(v)
    c, vals, name, head = a_cluster(v, t)
    L = v.t(vals, t.DUMMIES)
    v.assume(t.DUMMIES.n(L) > 0)
    v.assume(is_head(v, t, L, head.t))
    r = v.t(v.method(c, 'beads'), t.DUMMIES)
    at, n = lambda i: t.DUMMIES.get(r, i), t.DUMMIES.n(r)
    v.check('all versions', v.forall(t.DUMMY, lambda b: t.DUMMIES.has(r, b) == t.DUMMIES.has(L, b)))
    v.check('each once', n == t.DUMMIES.n(L))
    v.check('newest first', v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < n), t.time(at(j)) <= t.time(at(i)))))
    v.check('the first one is the head, unless it is missing', Or(t.phantom(at(0)), at(0) == head.t))
    v.check('a missing bead is first only when it is newer than the head', Implies(And(t.phantom(at(0)), Not(t.phantom(head.t))),
            t.time(at(0)) > t.time(head.t)))


# ---------------------------------------------------------------- ghost state: colors

def color_ghost(v, t):
    '''freshness of Dummy objects that are not phantoms'''
    g = v.I.alloc(HSym(t.COLOR, v.t(v.const('color', t.COLOR), t.COLOR)))
    P = t.FRESH.of('PHANTOM')
    get = lambda b: t.COLOR.get(v.t(g, t.COLOR), b)
    fresh = lambda b: If(t.phantom(b), P, get(b))

    def read(I, s):
        I.content(g)
        return t.FRESH.wrap(I, fresh(s.t))

    def write(I, s, value):
        x = v.t(value, t.FRESH)
        v.check('a bead is not made a missing one', Or(t.phantom(s.t), x != P), keep=False)
        v.check('freshness of a missing bead stays', Implies(t.phantom(s.t), x == P), keep=False)
        I.mutate(g, 'store', s, t.FRESH.wrap(I, x))
    t.DUMMY.attrs['freshness'] = read
    t.DUMMY.methods['set:freshness'] = write
    return g, fresh


def set_freshness_unit(v):
    t = types_obj(v)
    g, fresh = color_ghost(v, t)
    b = v.const('bead', t.DUMMY)
    x = v.const('freshness', t.FRESH)
    P = t.FRESH.of('PHANTOM')
    v.assume(x.t != P)
    old = v.t(g, t.COLOR)
    v.assume(v.forall(t.DUMMY, lambda c: t.COLOR.get(old, c) != P))
    v.method(b, 'set_freshness', x)
    new = v.t(g, t.COLOR)
    v.check('a missing bead stays missing, others get the freshness', fresh(b.t) == If(t.phantom(b.t), P, x.t))
    v.check('other beads are as they were', v.forall(t.DUMMY, lambda c: Implies(c != b.t, t.COLOR.get(new, c) == t.COLOR.get(old, c))))
    v.I.stubs.pop(DUM + '.is_not_phantom')
    r = v.getattr(b, 'is_not_phantom')
    v.check('is_not_phantom', v.truth(r) == Not(t.phantom(b.t)))


def set_freshness_stub(v, t, g):
    P = t.FRESH.of('PHANTOM')

    def stub(I, f, a, k):
        b = a[0]
        x = a[1] if len(a) > 1 else k['freshness']
        v.check('precondition of set_freshness: not for missing beads', v.t(x, t.FRESH) != P, keep=False)
        if I.branch(t.phantom(v.t(b, t.DUMMY)), 'missing'):
            return None
        I.mutate(g, 'store', b, x)
        return None
    v.stub(DUM + '.set_freshness', stub)


def reset_facts(v, t, vals, n0, first, fresh0, fresh1):
    """effect of reset_freshness on the beads, first: what is first in the order of time"""
    FR = t.FRESH.cls.members
    P, UP, SUP = (t.FRESH.of(x) for x in ('PHANTOM', 'UP_TO_DATE', 'SUPERSEDED'))
    return v.forall(t.DUMMY, lambda b: fresh1(b) == If(t.phantom(b), P, If(t.DUMMIES.has(vals, b), If(b == first, UP, SUP), fresh0(b))))


def reset_unit(v):
    t = types_obj(v)
    g, fresh = color_ghost(v, t)
    set_freshness_stub(v, t, g)
    c, vals, name, head = a_cluster(v, t)
    L = v.t(vals, t.DUMMIES)
    order = {}

    def beads_stub(I, f, a, k):
        r = v.const('ordered', t.DUMMIES)
        R = v.t(r, t.DUMMIES)
        v.assume(v.forall(t.DUMMY, lambda b: t.DUMMIES.has(R, b) == t.DUMMIES.has(L, b)))
        n = t.DUMMIES.n(R)
        v.assume(n == t.DUMMIES.n(L))
        v.assume(v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < n), t.DUMMIES.get(R, i) != t.DUMMIES.get(R, j)),
                          patterns=lambda i, j: [z3.MultiPattern(t.DUMMIES.get(R, i), t.DUMMIES.get(R, j))]))
        order['first'] = t.DUMMIES.get(R, 0)
        return r
    v.stub(CL + ':Cluster.beads', beads_stub)
    c0 = v.t(g, t.COLOR)
    P = t.FRESH.of('PHANTOM')
    fresh_at = lambda c: (lambda b: If(t.phantom(b), P, t.COLOR.get(c, b)))
    v.method(c, 'reset_freshness')
    c1 = v.t(g, t.COLOR)
    if 'first' in order:
        v.check('the newest is up to date, all others are superseded', Implies(
            t.DUMMIES.n(L) > 0, reset_facts(v, t, L, None, order['first'], fresh_at(c0), fresh_at(c1))))
        v.check('nothing changes without beads', Implies(t.DUMMIES.n(L) == 0, v.forall(t.DUMMY, lambda b: t.COLOR.get(c0, b) == t.COLOR.get(c1, b))))
    else:
        v.fail('the order of beads is used')


# ---------------------------------------------------------------- create_cluster_index

def index_unit(v):
    t = types_obj(v)
    beads = v.const('beads', t.DUMMIES)
    B = v.t(beads, t.DUMMIES)
    v.assume(one_for_ref(v, t, B))
    VALS = DictOf(t.CLUSTER, t.DUMMIES)
    ghost = v.I.alloc(HDict(()))
    C, cname = t.cluster_of, t.CLUSTER.acc('name')
    v.assume(v.forall(STR, lambda n: cname(C(n)) == n, patterns=lambda n: [C(n)]))
    vals = lambda: v.t(ghost, VALS)

    def new(I, f, a, k):
        n = v.t(a[0], STR)
        v.check('one cluster for a name', Not(VALS.has(vals(), C(n))), keep=False)
        I.mutate(ghost, 'store', t.CLUSTER.wrap(I, C(n)), v.I.alloc(HSym(t.DUMMIES, t.DUMMIES.empty())))
        return t.CLUSTER.wrap(I, C(n))
    v.stub(CL + ':Cluster', new)

    def add(I, s, a, k):
        b = v.t(a[0], t.DUMMY)
        L = VALS.get(vals(), s.t)
        v.check('precondition of add: name', t.name(b) == cname(s.t), keep=False)
        v.check('precondition of add: it is a new version', v.forall(t.DUMMY, lambda x: Implies(
            t.DUMMIES.has(L, x), t.DUMMY.acc('content_id')(x) != t.DUMMY.acc('content_id')(b))), keep=False)
        I.mutate(ghost, 'store', s, v.I.alloc(HSym(t.DUMMIES, t.DUMMIES.append(L, b))))
        return None
    t.CLUSTER.methods['add'] = add

    def facts(D, V, at, m):
        has = lambda n: t.CLUSTERS.has(D, n)
        return [
            ('clusters of the names', v.forall(STR, lambda n: Implies(has(n), And(
                t.CLUSTERS.get(D, n) == C(n), VALS.has(V, C(n)))), patterns=lambda n: [has(n)])),
            ('a cluster for each name', v.forall(INT, lambda i: Implies(And(0 <= i, i < m), And(
                has(t.name(at(i))), t.DUMMIES.has(VALS.get(V, C(t.name(at(i)))), at(i)))), patterns=lambda i: [at(i)])),
            ('only beads of the name', v.forall([STR, t.DUMMY], lambda n, b: Implies(And(VALS.has(V, C(n)), t.DUMMIES.has(VALS.get(V, C(n)), b)), And(
                has(n), t.name(b) == n, v.exists(INT, lambda i: And(0 <= i, i < m, at(i) == b)))),
                patterns=lambda n, b: [t.DUMMIES.has(VALS.get(V, C(n)), b)])),
            ('no empty clusters', v.forall(STR, lambda n: Implies(VALS.has(V, C(n)), And(has(n), t.DUMMIES.n(VALS.get(V, C(n))) > 0)),
                                           patterns=lambda n: [VALS.has(V, C(n))])),
        ]

    def inv(L):
        D = L.roles('clusters', ['cluster_by_name'], lambda x: L.is_container('dict')(x) and x.id != ghost.id)[0]
        return facts(v.t(D, t.CLUSTERS), vals(), L.view.at, L.i)
    v.loop(CL + ':*', inv)
    r = v.call(CL + ':create_cluster_index', beads)
    for label, f in facts(v.t(r, t.CLUSTERS), vals(), lambda i: t.DUMMIES.get(B, i), t.DUMMIES.n(B)):
        v.check(label, f)


def index_stub(v, t):
    '''contract of create_cluster_index and the invariant of Cluster'''
    def stub(I, f, a, k):
        B = t.DUMMIES.unwrap(I, PBlist(v, a[0]))
        v.check('precondition of create_cluster_index: one bead for a reference', one_for_ref(v, t, B), keep=False)
        d = v.const('clusters', t.CLUSTERS)
        D = v.t(d, t.CLUSTERS)
        C, cname, chead = t.cluster_of, t.CLUSTER.acc('name'), t.CLUSTER.acc('head')
        v.assume(v.forall(STR, lambda n: cname(C(n)) == n, patterns=lambda n: [C(n)]))
        has = lambda n: t.CLUSTERS.has(D, n)
        hb = lambda b: t.DUMMIES.has(B, b)
        of = lambda n: t.vals(C(n))
        v.assume(v.forall(STR, lambda n: Implies(has(n), t.CLUSTERS.get(D, n) == C(n)), patterns=lambda n: [has(n), t.CLUSTERS.get(D, n)]))
        v.assume(v.forall(t.DUMMY, lambda b: Implies(hb(b), And(has(t.name(b)), t.DUMMIES.has(of(t.name(b)), b))), patterns=lambda b: [hb(b)]))
        v.assume(v.forall([STR, t.DUMMY], lambda n, b: Implies(And(has(n), t.DUMMIES.has(of(n), b)), And(t.name(b) == n, hb(b))),
                          patterns=lambda n, b: [t.DUMMIES.has(of(n), b)]))
        h = lambda n: chead(C(n))
        v.assume(v.forall(STR, lambda n: Implies(has(n), And(t.DUMMIES.n(of(n)) > 0, t.name(h(n)) == n, hb(h(n)), t.DUMMIES.has(of(n), h(n)))),
                          patterns=lambda n: [has(n)]))
        v.assume(v.forall([STR, t.DUMMY], lambda n, b: Implies(And(has(n), t.DUMMIES.has(of(n), b)), Not(less(t, h(n), b))),
                          patterns=lambda n, b: [t.DUMMIES.has(of(n), b)]))
        return d
    v.stub(CL + ':create_cluster_index', stub)


CLUSTER_UNITS = [
    Unit('Cluster.add', add_unit, mode='abstract'),
    Unit('Cluster', new_cluster_unit, mode='abstract'),
    Unit('create_cluster_index', index_unit, mode='abstract'),
]
