'''Types and contracts shared by the properties of the web.'''
import z3
from pyded.unit import *
from pyded.terms import *
from pyded.values import *

G = 'bead_cli.web.graph'
S = 'bead_cli.web.sketch'
DM = 'bead_cli.web.dummy'
CL = 'bead_cli.web.cluster'


class Types:
    pass


def types(v):
    '''Dummy, Edge, ... as values'''
    I = v.I
    if hasattr(v, 'web_types'):
        return v.web_types
    t = v.web_types = Types()
    t.REF = Rec('Ref', dict(name=STR, content_id=STR), cls=DM + ':Ref')
    t.INPUT = Rec('InputSpec', dict(name=STR, kind=STR, content_id=STR, freeze_time_str=STR), cls='bead.meta:InputSpec')
    fresh_cls = v.get('bead_cli.web.freshness:Freshness')
    t.FRESH = I.enum_ty(fresh_cls)
    t.INPUTS = ListOf(t.INPUT)
    t.DUMMY = Rec('Dummy', dict(name=STR, content_id=STR, kind=STR, freeze_time_str=STR, inputs=t.INPUTS,
                                freshness=t.FRESH, box_name=STR), cls=DM + ':Dummy', opaque=True)
    t.EDGE = Rec('Edge', dict(src=t.DUMMY, dest=t.DUMMY, label=STR), cls=G + ':Edge', opaque=True)
    t.EDGES = ListOf(t.EDGE)
    t.DUMMIES = ListOf(t.DUMMY)
    t.REFS = SetOf(t.REF)
    t.REFLIST = ListOf(t.REF)
    t.BY_REF = DictOf(t.REF, t.EDGES)
    t.INDEX = DictOf(t.REF, t.DUMMY)
    t.SKETCH = Rec('Sketch', dict(beads=t.DUMMIES, edges=t.EDGES), cls=S + ':Sketch')
    I.records.update({DM + ':Ref': t.REF, DM + ':Dummy': t.DUMMY, G + ':Edge': t.EDGE,
                      'bead.meta:InputSpec': t.INPUT})
    t.ref = lambda b: t.REF.mk(t.DUMMY.f('name', b), t.DUMMY.f('content_id', b))
    t.iref = lambda i: t.REF.mk(t.INPUT.f('name', i), t.INPUT.f('content_id', i))
    t.src = lambda e: t.EDGE.f('src', e)
    t.dest = lambda e: t.EDGE.f('dest', e)
    t.label = lambda e: t.EDGE.f('label', e)
    t.name = lambda b: t.DUMMY.f('name', b)
    t.inputs = lambda b: t.DUMMY.f('inputs', b)
    return t


def members(v, obj, ty):
    '''membership predicate of a set or list of ty'''
    c = SetOf(ty) if v.kind(obj) == 'set' else ListOf(ty)
    t = v.t(obj, c)
    return lambda x: c.has(t, x)


def PBlist(v, x):
    from pyded import pybuiltins
    if isinstance(x, Obj) and v.kind(x) in ('list', 'set'):
        return x
    return pybuiltins.to_list(v.I, x)


And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies


def sketch(v, t, name='sketch'):
    '''a Sketch object with arbitrary beads and edges (tuples)'''
    b, e = v.const(name + '.beads', t.DUMMIES), v.const(name + '.edges', t.EDGES)
    v.I.h(b).tuple = v.I.h(e).tuple = True
    o = v.new(S + ':Sketch', beads=b, edges=e)
    return o, v.t(b, t.DUMMIES), v.t(e, t.EDGES)


def same_bead(t, a, b):
    '''same bead, except for its inputs'''
    return And(*[t.DUMMY.f(f, a) == t.DUMMY.f(f, b) for f in t.DUMMY.fields if f != 'inputs'])


def sketch_facts(v, t, beads, edges, full=True, assumed=False):
    """What Sketch.from_beads establishes: [(label, term)].

    assumed: the existentials are given as functions of just what identifies the input/link, so that
    going from a link to its input and back ends.
    """
    hb, he = lambda b: t.DUMMIES.has(beads, b), lambda e: t.EDGES.has(edges, e)
    is_input = lambda e, i: And(t.INPUTS.has(t.inputs(t.dest(e)), i), t.iref(i) == t.ref(t.src(e)),
                                t.INPUT.f('name', i) == t.label(e))
    is_link = lambda b, i, e: And(he(e), t.dest(e) == b, t.ref(t.src(e)) == t.iref(i), t.label(e) == t.INPUT.f('name', i))
    if assumed:
        fi = v.I.ctx.fresh_fun('input_of', t.DUMMY.sort, t.REF.sort, STR.sort, t.INPUT.sort)
        fe = v.I.ctx.fresh_fun('link_of', t.DUMMY.sort, t.REF.sort, STR.sort, t.EDGE.sort)
        some_input = lambda e: is_input(e, fi(t.dest(e), t.ref(t.src(e)), t.label(e)))
        some_link = lambda b, i: is_link(b, i, fe(b, t.iref(i), t.INPUT.f('name', i)))
    else:
        some_input = lambda e: v.exists(t.INPUT, lambda i: is_input(e, i))
        some_link = lambda b, i: v.exists(t.EDGE, lambda e: is_link(b, i, e))
    out = [
        ('links are between beads of the web', v.forall(t.EDGE, lambda e: Implies(he(e), And(hb(t.src(e)), hb(t.dest(e)))),
                                                        patterns=lambda e: [he(e)])),
        ('one bead for a reference', one_for_ref(v, t, beads, assumed)),
        ('every link is for an input', v.forall(t.EDGE, lambda e: Implies(he(e), some_input(e)), patterns=lambda e: [he(e)])),
    ]
    if full:
        out.append(('every input has its link', v.forall([t.DUMMY, t.INPUT], lambda b, i: Implies(
            And(hb(b), t.INPUTS.has(t.inputs(b), i)), some_link(b, i)),
            patterns=lambda b, i: [z3.MultiPattern(hb(b), t.INPUTS.has(t.inputs(b), i))])))
    return out


def one_for_ref(v, t, beads, assumed=False):
    at = lambda i: t.DUMMIES.get(beads, i)
    n = t.DUMMIES.n(beads)
    if assumed:
        # the position is a function of the reference
        pos = v.I.ctx.fresh_fun('pos', t.REF.sort, z3.IntSort())
        return And(v.forall(INT, lambda i: Implies(And(0 <= i, i < n), pos(t.ref(at(i))) == i), patterns=lambda i: [at(i)]),
                   v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(beads, b), And(
                       0 <= pos(t.ref(b)), pos(t.ref(b)) < n, at(pos(t.ref(b))) == b)),
                       patterns=lambda b: [t.DUMMIES.has(beads, b)]))
    return v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < n), t.ref(at(i)) != t.ref(at(j))),
                    patterns=lambda i, j: [z3.MultiPattern(at(i), at(j))])


def wf_sketch(v, t, beads, edges, full=True):
    return [v.assume(f) for _, f in sketch_facts(v, t, beads, edges, full, assumed=True)]


def refs_from_edges_stub(v, t):
    '''refs_from_edges: the references of all ends, needs one node for a reference (see unit node_index_from_edges of C17)'''
    def stub(I, f, args, kw):
        from pyded import pybuiltins
        o = args[0]
        if not (isinstance(o, Obj) and I.h(o).kind == 'list') and not isinstance(o, tuple):
            o = pybuiltins.to_list(I, o)
        e = t.EDGES.unwrap(I, o)
        he = lambda x: t.EDGES.has(e, x)
        ends = [t.src, t.dest]
        v.check('precondition: one node for a reference', And(*[v.forall([t.EDGE, t.EDGE], lambda a, b: Implies(
            And(he(a), he(b), t.ref(p(a)) == t.ref(q(b))), p(a) == q(b))) for p in ends for q in ends]), keep=False)
        r = v.const('refs', t.REFS)
        R = v.t(r, t.REFS)
        v.assume(v.forall(t.EDGE, lambda x: Implies(he(x), And(t.REFS.has(R, t.ref(t.src(x))), t.REFS.has(R, t.ref(t.dest(x))))),
                          patterns=lambda x: [t.REFS.has(R, t.ref(t.src(x))), t.REFS.has(R, t.ref(t.dest(x)))]))
        v.assume(v.forall(t.REF, lambda r: Implies(t.REFS.has(R, r), v.exists(t.EDGE, lambda x: And(
            he(x), Or(t.ref(t.src(x)) == r, t.ref(t.dest(x)) == r)))), patterns=lambda r: [t.REFS.has(R, r)]))
        return r
    v.stub(G + ':refs_from_edges', stub)


def cluster_index_stub(v, t, ghost=None):
    '''create_cluster_index: its keys are the names of the beads (see C18)'''
    CLUSTER = Abs('Cluster')

    def stub(I, f, args, kw):
        beads = t.DUMMIES.unwrap(I, args[0])
        D = DictOf(STR, CLUSTER)
        d = v.const('clusters', D)
        dt = v.t(d, D)
        if ghost is not None:
            ghost['dt'] = dt
        f = v.assume(v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(beads, b), D.has(dt, t.name(b))),
                              patterns=lambda b: [t.DUMMIES.has(beads, b)]))
        if ghost is not None:
            ghost['index'] = f
        v.assume(v.forall(STR, lambda n: Implies(D.has(dt, n), v.exists(t.DUMMY, lambda b: And(
            t.DUMMIES.has(beads, b), t.name(b) == n))), patterns=lambda n: [D.has(dt, n)]))
        return d
    v.stub(CL + ':create_cluster_index', stub)
    return CLUSTER


def kept_inputs(v, t, edges):
    """kept(b): set of inputs of b that have a link (defined function)"""
    he = lambda e: t.EDGES.has(edges, e)
    I = v.I
    kept = I.ctx.fresh_fun('kept', t.DUMMY.sort, z3.ArraySort(t.INPUT.sort, z3.BoolSort()))
    # there is a link from s to d, with a witness that depends on just them
    linked = I.ctx.fresh_fun('linked', t.REF.sort, t.REF.sort, z3.BoolSort())
    by = I.ctx.fresh_fun('link', t.REF.sort, t.REF.sort, t.EDGE.sort)
    v.kept_def = [
        v.assume(v.forall(t.EDGE, lambda e: Implies(he(e), linked(t.ref(t.src(e)), t.ref(t.dest(e)))), patterns=lambda e: [he(e)])),
        v.assume(v.forall([t.REF, t.REF], lambda s, d: Implies(linked(s, d), And(
            he(by(s, d)), t.ref(t.src(by(s, d))) == s, t.ref(t.dest(by(s, d))) == d)), patterns=lambda s, d: [linked(s, d)])),
        v.assume(v.forall([t.DUMMY, t.INPUT], lambda b, i: kept(b)[i] == And(
            t.INPUTS.has(t.inputs(b), i), linked(t.iref(i), t.ref(b))),
            patterns=lambda b, i: [kept(b)[i], t.INPUTS.has(t.inputs(b), i)])),
    ]
    return kept


def drop_deleted_facts(v, t, beads, edges, rb, re, assumed=False):
    """drop_deleted_inputs: inputs without a link are dropped, otherwise beads are as they were"""
    hb, hc = lambda b: t.DUMMIES.has(beads, b), lambda c: t.DUMMIES.has(rb, c)
    kept = kept_inputs(v, t, edges)
    corr = lambda b, c: And(same_bead(t, b, c), t.INPUTS.mem(t.inputs(c)) == kept(b))
    if assumed:
        # one bead for a reference in both: one is a function of the other, and they are inverses
        D = v.I.ctx.fresh_fun('dropped_of', t.DUMMY.sort, t.DUMMY.sort)
        U = v.I.ctx.fresh_fun('original_of', t.DUMMY.sort, t.DUMMY.sort)
        return [
            ('', v.forall(t.DUMMY, lambda b: Implies(hb(b), And(hc(D(b)), corr(b, D(b)), U(D(b)) == b)), patterns=lambda b: [hb(b)])),
            ('', v.forall(t.DUMMY, lambda c: Implies(hc(c), And(hb(U(c)), corr(U(c), c), D(U(c)) == c)), patterns=lambda c: [hc(c)])),
        ]
    return [
        ('all beads stay', v.forall(t.DUMMY, lambda b: Implies(hb(b), v.exists(t.DUMMY, lambda c: And(hc(c), corr(b, c)))),
                                    patterns=lambda b: [hb(b)])),
        ('no other beads', v.forall(t.DUMMY, lambda c: Implies(hc(c), v.exists(t.DUMMY, lambda b: And(hb(b), corr(b, c)))),
                                    patterns=lambda c: [hc(c)])),
    ]


def drop_deleted_stub(v, t, lemmas=None, known=None):
    def stub(I, f, args, kw):
        sk = args[0]
        beads, edges = v.t(v.getattr(sk, 'beads'), t.DUMMIES), v.t(v.getattr(sk, 'edges'), t.EDGES)
        if lemmas:
            lemmas(beads, edges)
        for label, f in sketch_facts(v, t, beads, edges, full=False):
            v.check('precondition of drop_deleted_inputs: ' + label, f)
        r, rb, re = sketch(v, t, 'dropped')
        facts = wf_sketch(v, t, rb, re)
        for label, f in drop_deleted_facts(v, t, beads, edges, rb, re, assumed=True):
            facts.append(v.assume(f))
        if known is not None:
            known.extend(facts + v.kept_def)
            v.all_stay, v.no_other = facts[-2:]
        return r
    v.stub(S + ':drop_deleted_inputs', stub)


def from_beads_stub(v, t):
    """Sketch.from_beads, for beads with different references (see C17)"""
    def stub(I, f, args, kw):
        cls, beads = args
        B = t.DUMMIES.unwrap(I, beads)
        hb = lambda b: t.DUMMIES.has(B, b)
        v.check('precondition of from_beads here: one bead for a reference', one_for_ref(v, t, B))
        r, rb, re = sketch(v, t, 'web')
        wf_sketch(v, t, rb, re)
        v.assume(v.forall(t.DUMMY, lambda b: Implies(hb(b), t.DUMMIES.has(rb, b)), patterns=lambda b: [hb(b)]))
        for label, f in from_beads_facts(v, t, hb, rb):
            v.assume(f)
        return r
    v.stub(S + ':Sketch.from_beads', stub)


def from_beads_facts(v, t, hb, rb):
    has = lambda c: t.DUMMIES.has(rb, c)
    missing = lambda r: v.forall(t.DUMMY, lambda b: Implies(hb(b), t.ref(b) != r))
    phantom = lambda c: v.exists([t.DUMMY, t.INPUT], lambda b, i: And(
        hb(b), t.INPUTS.has(t.inputs(b), i), is_phantom_of(t, c, i), missing(t.iref(i))))
    return [
        ('references of the beads are in the web', v.forall(t.DUMMY, lambda b: Implies(hb(b), v.exists(
            t.DUMMY, lambda c: And(has(c), hb(c), t.ref(c) == t.ref(b)))), patterns=lambda b: [hb(b)])),
        ('only the beads and stand-ins for missing inputs are in the web', v.forall(t.DUMMY, lambda c: Implies(
            has(c), Or(hb(c), phantom(c))), patterns=lambda c: [has(c)])),
    ]


def is_phantom_of(t, c, i):
    FR = t.FRESH.cls.members
    return And(*[t.DUMMY.f(f, c) == t.INPUT.f(f, i) for f in ('name', 'content_id', 'kind', 'freeze_time_str')],
               t.DUMMY.f('freshness', c) == t.FRESH.of('PHANTOM'), t.INPUTS.n(t.inputs(c)) == 0)


def drop_deleted_unit(v):
    t = types(v)
    sk, beads, edges = sketch(v, t)
    wf_sketch(v, t, beads, edges, full=False)
    from_beads_stub(v, t)
    r = v.body(S + ':drop_deleted_inputs', sk)
    rb, re = v.t(v.getattr(r, 'beads'), t.DUMMIES), v.t(v.getattr(r, 'edges'), t.EDGES)
    for label, f in drop_deleted_facts(v, t, beads, edges, rb, re):
        v.check(label, f)
