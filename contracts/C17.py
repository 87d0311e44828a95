'''C17: one node for a bead, one link for an input, and a sound ordering.'''
from .web import *

ASSUMPTIONS = [
    'a generator that is consumed by the code between generator and consumer runs to its end before anything else looks at '
    'bead_index (the contract of generate_input_edges updates the index when the generator is started)',
    'beads are compared by value: Dummy objects are not changed while the web is built',
    'termination of dfs is not an obligation (every call removes an element of the finite set todo)',
]


def inputs_of(t, b):
    return t.inputs(b), t.INPUTS.n(t.inputs(b))


def index_wf(v, t, I_):
    return v.forall(t.REF, lambda r: Implies(t.INDEX.has(I_, r), t.ref(t.INDEX.get(I_, r)) == r), patterns=lambda r: [t.INDEX.has(I_, r), t.INDEX.get(I_, r)])


def gen_facts(v, t, I0, I1, bead, L, n, i):
    '''contract of generate_input_edges after the first i inputs'''
    at = lambda k: t.INPUTS.get(t.inputs(bead), k)
    some = lambda r, f: v.exists(INT, lambda k: And(0 <= k, k < i, t.iref(at(k)) == r, f(at(k))))
    has0, has1 = lambda r: t.INDEX.has(I0, r), lambda r: t.INDEX.has(I1, r)
    get0, get1 = lambda r: t.INDEX.get(I0, r), lambda r: t.INDEX.get(I1, r)
    e = lambda k: t.EDGES.get(L, k)
    return [
        ('what is in the index stays', v.forall(t.REF, lambda r: Implies(has0(r), And(has1(r), get1(r) == get0(r))),
                                                patterns=lambda r: [has0(r), has1(r)])),
        ('what is new in the index is a stand-in', v.forall(t.REF, lambda r: Implies(And(has1(r), Not(has0(r))), And(
            some(r, lambda x: is_phantom_of(t, get1(r), x)), t.ref(get1(r)) == r, t.INPUTS.n(t.inputs(get1(r))) == 0)), patterns=lambda r: [has1(r)])),
        ('all inputs are in the index', v.forall(INT, lambda k: Implies(And(0 <= k, k < i), has1(t.iref(at(k)))), patterns=lambda k: [at(k)])),
        ('number of links', n == i),
        ('a link for each input', v.forall(INT, lambda k: Implies(And(0 <= k, k < i), And(
            t.src(e(k)) == get1(t.iref(at(k))), t.dest(e(k)) == bead, t.label(e(k)) == t.INPUT.f('name', at(k)))),
            patterns=lambda k: [e(k)])),
        ('links of the inputs', v.forall(INT, lambda k: Implies(And(0 <= k, k < i), t.EDGES.has(L, link_for(t, get1, bead, at(k)))),
                                         patterns=lambda k: [at(k)])),
    ]


def link_for(t, get, bead, inp):
    return t.EDGE.mk(get(t.iref(inp)), bead, t.INPUT.f('name', inp))


def generate_unit(v):
    from pyded import pybuiltins
    t = types(v)
    ix = v.const('index', t.INDEX)
    I0 = v.t(ix, t.INDEX)
    v.assume(index_wf(v, t, I0))
    bead = v.const('bead', t.DUMMY)

    def inv(L):
        out = L.collected('links', ['links'], L.is_container('list'))
        o = v.t(out, t.EDGES)
        return gen_facts(v, t, I0, v.t(ix, t.INDEX), bead.t, o, t.EDGES.n(o), L.i)
    v.loop(G + ':*', inv)
    r = pybuiltins.to_list(v.I, v.body(G + ':generate_input_edges', ix, bead))
    R = v.t(r, t.EDGES)
    for label, f in gen_facts(v, t, I0, v.t(ix, t.INDEX), bead.t, R, t.EDGES.n(R), t.INPUTS.n(t.inputs(bead.t))):
        v.check(label, f)


def generate_stub(v, t):
    def stub(I, f, args, kw):
        ix, bead = args

        def run(step):
            b = t.DUMMY.unwrap(I, bead)
            I0 = v.t(ix, t.INDEX)
            v.check('precondition of generate_input_edges: index', index_wf(v, t, I0), keep=False)
            new = v.const('index', t.INDEX)
            v.become(ix, t.INDEX, v.t(new, t.INDEX))
            L = v.const('links', t.EDGES)
            l = v.t(L, t.EDGES)
            for label, fact in gen_facts(v, t, I0, v.t(new, t.INDEX), b, l, t.EDGES.n(l), t.INPUTS.n(t.inputs(b))):
                v.assume(fact)
            I.iterate(L, step)
        return GenVal(run, 'generate_input_edges')
    v.stub(G + ':generate_input_edges', stub)


def from_beads_unit(v):
    t = types(v)
    beads = v.const('beads', t.DUMMIES)
    B = v.t(beads, t.DUMMIES)
    hb = lambda b: t.DUMMIES.has(B, b)
    generate_stub(v, t)
    refs_from_edges_stub(v, t)
    g = {}
    off = v.I.ctx.fresh_fun('first_link', z3.IntSort(), z3.IntSort())

    def state(L):
        ix = L.roles('index', ['bead_index'], L.is_container('dict'))[0]
        out = L.collected('links', ['edges'], L.is_container('list'))
        return v.t(ix, t.INDEX), v.t(out, t.EDGES)

    def inv(L):
        I1, o = state(L)
        bs, n = L.view.at, L.view.n
        if 'I0' not in g:
            g['I0'] = I1
            g['bs'], g['n'] = bs, n
            v.assume(off(0) == 0)
            v.assume(v.forall(INT, lambda j: Implies(And(0 <= j, j < n), off(j + 1) == off(j) + t.INPUTS.n(t.inputs(bs(j)))),
                              patterns=lambda j: [off(j + 1)]))
        return web_facts(v, t, g['I0'], I1, bs, off, o, L.i)
    v.loop(S + ':*', inv, prefer=True)
    g.clear()
    r = v.method(v.get(S + ':Sketch'), 'from_beads', beads)
    rb, re = v.t(v.getattr(r, 'beads'), t.DUMMIES), v.t(v.getattr(r, 'edges'), t.EDGES)
    has = lambda c: t.DUMMIES.has(rb, c)
    v.check('one node for a reference', one_for_ref(v, t, rb), keep=False)
    for label, f in from_beads_facts(v, t, hb, rb):
        v.check(label, f, keep=False)
    i = t.INPUTS
    v.check('stand-ins for all missing inputs', v.forall([t.DUMMY, t.INPUT], lambda c, x: Implies(
        And(has(c), i.has(t.inputs(c), x)), v.exists(t.DUMMY, lambda s: And(has(s), t.ref(s) == t.iref(x))))), keep=False)
    for label, f in sketch_facts(v, t, rb, re):
        v.check(label, f, keep=False)
    if 'bs' in g:
        # exactly one link for each input: the links are those of the beads in order
        bs = g['bs']
        v.check('nothing but a link for each input', t.EDGES.n(re) == off(g['n']))
        v.check('beads of the index have their links', v.forall(t.DUMMY, lambda c: Implies(has(c), Or(
            t.INPUTS.n(t.inputs(c)) == 0, v.exists(INT, lambda j: And(0 <= j, j < g['n'], bs(j) == c))))))


def web_facts(v, t, I0, I1, bs, off, o, m):
    has0, has1 = lambda r: t.INDEX.has(I0, r), lambda r: t.INDEX.has(I1, r)
    get0, get1 = lambda r: t.INDEX.get(I0, r), lambda r: t.INDEX.get(I1, r)
    e = lambda k: t.EDGES.get(o, k)
    at = lambda j, k: t.INPUTS.get(t.inputs(bs(j)), k)
    nin = lambda j: t.INPUTS.n(t.inputs(bs(j)))
    return [
        ('index', index_wf(v, t, I1)),
        ('beads stay', v.forall(t.REF, lambda r: Implies(has0(r), And(has1(r), get1(r) == get0(r))), patterns=lambda r: [has0(r), has1(r)])),
        ('stand-ins', v.forall(t.REF, lambda r: Implies(And(has1(r), Not(has0(r))), And(
            t.INPUTS.n(t.inputs(get1(r))) == 0,
            v.exists([INT, INT], lambda j, k: And(0 <= j, j < m, 0 <= k, k < nin(j), t.iref(at(j, k)) == r, is_phantom_of(t, get1(r), at(j, k))))
        )), patterns=lambda r: [has1(r)])),
        ('inputs', v.forall([INT, INT], lambda j, k: Implies(And(0 <= j, j < m, 0 <= k, k < nin(j)), has1(t.iref(at(j, k)))), patterns=lambda j, k: [at(j, k)])),
        ('number of links', t.EDGES.n(o) == off(m)),
        ('links', v.forall([INT, INT], lambda j, k: Implies(And(0 <= j, j < m, 0 <= k, k < nin(j)), t.EDGES.has(
            o, link_for(t, get1, bs(j), at(j, k)))), patterns=lambda j, k: [at(j, k)])),
        ('no other links', v.forall(t.EDGE, lambda x: Implies(t.EDGES.has(o, x), v.exists([INT, INT], lambda j, k: And(
            0 <= j, j < m, 0 <= k, k < nin(j), t.src(x) == get1(t.iref(at(j, k))), t.dest(x) == bs(j),
            t.label(x) == t.INPUT.f('name', at(j, k))))), patterns=lambda x: [t.EDGES.has(o, x)])),
    ]


def nodes_of(t, E):
    """(has(r, b): b is an end of a link)"""
    return lambda x, b: And(t.EDGES.has(E, x), Or(t.src(x) == b, t.dest(x) == b))


def one_node(v, t, E):
    he = lambda x: t.EDGES.has(E, x)
    return And(*[v.forall([t.EDGE, t.EDGE], lambda a, b: Implies(And(he(a), he(b), t.ref(p(a)) == t.ref(q(b))), p(a) == q(b)),
                          patterns=lambda a, b: [z3.MultiPattern(he(a), he(b))]) for p in (t.src, t.dest) for q in (t.src, t.dest)])


def index_facts(v, t, at, m, D):
    """node_index_from_edges after m links"""
    has, get = lambda r: t.INDEX.has(D, r), lambda r: t.INDEX.get(D, r)
    return [
        ('all ends are in the index', v.forall(INT, lambda k: Implies(And(0 <= k, k < m), And(*[
            And(has(t.ref(p(at(k)))), get(t.ref(p(at(k)))) == p(at(k))) for p in (t.src, t.dest)])), patterns=lambda k: [at(k)])),
        ('nothing else is in the index', v.forall(t.REF, lambda r: Implies(has(r), And(t.ref(get(r)) == r, v.exists(INT, lambda k: And(
            0 <= k, k < m, Or(t.src(at(k)) == get(r), t.dest(at(k)) == get(r)))))), patterns=lambda r: [has(r)])),
    ]


def node_index_unit(v):
    t = types(v)
    edges = v.const('edges', t.EDGES)
    E = v.t(edges, t.EDGES)
    v.assume(one_node(v, t, E))

    def inv(L):
        D = L.roles('index', ['node_by_ref'], L.is_container('dict'))[0]
        return index_facts(v, t, L.view.at, L.i, v.t(D, t.INDEX))
    v.loop(G + ':*', inv)
    o = v.attempt(lambda: v.body(G + ':node_index_from_edges', edges))
    v.check('no error', z3.BoolVal(o.ok))
    if o.ok:
        for label, f in index_facts(v, t, lambda k: t.EDGES.get(E, k), t.EDGES.n(E), v.t(o.value, t.INDEX)):
            v.check(label, f)


def refs_unit(v):
    """the contract of refs_from_edges used elsewhere"""
    t = types(v)
    edges = v.const('edges', t.EDGES)
    E = v.t(edges, t.EDGES)
    v.assume(one_node(v, t, E))
    node_index_stub(v, t)
    R = v.t(v.body(G + ':refs_from_edges', edges), t.REFS)
    v.check('references of all ends', v.forall(t.EDGE, lambda x: Implies(t.EDGES.has(E, x), And(
        t.REFS.has(R, t.ref(t.src(x))), t.REFS.has(R, t.ref(t.dest(x)))))))
    v.check('no other references', v.forall(t.REF, lambda r: Implies(t.REFS.has(R, r), v.exists(t.EDGE, lambda x: And(
        t.EDGES.has(E, x), Or(t.ref(t.src(x)) == r, t.ref(t.dest(x)) == r))))))


def node_index_stub(v, t, ghost=None):
    def stub(I, f, args, kw):
        E = t.EDGES.unwrap(I, PBlist(v, args[0]))
        v.check('precondition: one node for a reference', one_node(v, t, E), keep=False)
        D = v.const('node_by_ref', t.INDEX)
        d = v.t(D, t.INDEX)
        for label, fact in index_facts(v, t, lambda k: t.EDGES.get(E, k), t.EDGES.n(E), d):
            v.assume(fact)
        if ghost is not None:
            ghost['D'] = d
        return D
    v.stub(G + ':node_index_from_edges', stub)


# ---------------------------------------------------------------- ordering

def toposort_unit(v):
    t = types(v)
    edges = v.const('edges', t.EDGES)
    E = v.t(edges, t.EDGES)
    he = lambda x: t.EDGES.has(E, x)
    v.assume(one_node(v, t, E))
    g = {}
    node_index_stub(v, t, g)
    REFL, NODES = t.REFLIST, t.DUMMIES
    # rank is the position of a node in the output
    link = lambda a, b: v.exists(t.EDGE, lambda x: And(he(x), t.ref(t.src(x)) == a, t.ref(t.dest(x)) == b))
    linkp = v.I.ctx.fresh_fun('linked', t.REF.sort, t.REF.sort, z3.BoolSort())
    v.assume(v.forall(t.EDGE, lambda x: Implies(he(x), linkp(t.ref(t.src(x)), t.ref(t.dest(x)))), patterns=lambda x: [he(x)]))
    v.assume(v.forall([t.REF, t.REF], lambda a, b: Implies(linkp(a, b), link(a, b)), patterns=lambda a, b: [linkp(a, b)]))
    cyclic = v.I.ctx.fresh('cyclic', z3.BoolSort())

    def state_facts(todo, path, out):
        D = g['D']
        td, inpath = lambda r: t.REFS.has(todo, r), lambda r: REFL.has(path, r)
        at, n = lambda i: NODES.get(out, i), NODES.n(out)
        p, m = lambda i: REFL.get(path, i), REFL.n(path)
        done = lambda r: NODES.has(out, t.INDEX.get(D, r))
        key = lambda r: t.INDEX.has(D, r)
        return [
            ('nodes are in todo or in the output', v.forall(t.REF, lambda r: Implies(key(r), td(r) != done(r)), patterns=lambda r: [key(r)])),
            ('only nodes are in todo', v.forall(t.REF, lambda r: Implies(td(r), key(r)), patterns=lambda r: [td(r)])),
            ('only nodes are in the output', v.forall(t.DUMMY, lambda b: Implies(NODES.has(out, b), And(
                key(t.ref(b)), t.INDEX.get(D, t.ref(b)) == b)), patterns=lambda b: [NODES.has(out, b)])),
            ('nodes are once in the output', v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < n), at(i) != at(j)),
                                                      patterns=lambda i, j: [z3.MultiPattern(at(i), at(j))])),
            ('inputs are before', v.forall([t.EDGE, INT], lambda x, i: Implies(And(he(x), 0 <= i, i < n, at(i) == t.dest(x)), v.exists(
                INT, lambda j: And(0 <= j, j < i, at(j) == t.src(x)))), patterns=lambda x, i: [z3.MultiPattern(he(x), at(i))])),
            ('path is to be done', v.forall(t.REF, lambda r: Implies(inpath(r), td(r)), patterns=lambda r: [inpath(r)])),
            ('path follows the links', v.forall(INT, lambda j: Implies(And(0 < j, j < m), linkp(p(j), p(j - 1))), patterns=lambda j: [p(j)])),
        ]

    def dfs_pre(ref, todo, path, out):
        m = REFL.n(path)
        return state_facts(todo, path, out) + [
            ('ref is to be done', t.REFS.has(todo, ref)),
            ('ref is an input of the last of the path', Implies(m > 0, linkp(ref, REFL.get(path, m - 1)))),
        ]

    def same_path(a, b):
        return And(REFL.n(a) == REFL.n(b), REFL.mem(a) == REFL.mem(b),
                   v.forall(INT, lambda i: Implies(And(0 <= i, i < REFL.n(a)), REFL.get(a, i) == REFL.get(b, i)),
                            patterns=lambda i: [REFL.get(b, i), REFL.get(a, i)]))

    def progress(todo0, path0, out0, todo1, path1, out1):
        return [
            ('todo shrinks', v.forall(t.REF, lambda r: Implies(t.REFS.has(todo1, r), t.REFS.has(todo0, r)), patterns=lambda r: [t.REFS.has(todo1, r)])),
            ('path is as it was', same_path(path1, path0)),
        ]

    def dfs_post(ref, todo0, path0, out0, todo1, path1, out1):
        return state_facts(todo1, path1, out1) + progress(todo0, path0, out0, todo1, path1, out1) + [
            ('ref is done', Not(t.REFS.has(todo1, ref))),
            ('path stays to be done', v.forall(t.REF, lambda r: Implies(REFL.has(path0, r), t.REFS.has(todo1, r)),
                                               patterns=lambda r: [REFL.has(path0, r)])),
        ]

    def closure_vars(f):
        """(todo, path, output) of the closure"""
        out = []
        fr = f.frame if hasattr(f, 'frame') else f.closure
        while fr is not None and fr.parent is not None:
            out += [x for x in v.I.h(fr.env).fields.values() if isinstance(x, Obj)]
            fr = fr.parent
        return out

    def pick(f):
        objs = closure_vars(f)
        REFS_, LISTS = [], []
        for o in objs:
            k = v.kind(o)
            if k == 'set':
                REFS_.append(o)
            elif k == 'list':
                LISTS.append(o)
        if len(REFS_) != 1:
            raise Unsupported('toposort: which is todo?')
        path = [o for o in LISTS if g.get('path') == o.id] or [o for o in LISTS if o.id != getattr(edges, 'id', None)]
        if len(path) == 2:
            # the one with references is the path
            names = {}
            fr = f.frame if hasattr(f, 'frame') else f.closure
            while fr is not None and fr.parent is not None:
                names.update({x.id: n for n, x in v.I.h(fr.env).fields.items() if isinstance(x, Obj)})
                fr = fr.parent
            path.sort(key=lambda o: names[o.id] != 'path')
            if v.I.alt % 2 and names[path[0].id] != 'path':
                path.reverse()
            return REFS_[0], path[0], path[1]
        raise Unsupported('toposort: which is the path?')

    def terms(objs):
        return v.t(objs[0], t.REFS), v.t(objs[1], REFL), v.t(objs[2], NODES)

    def dfs_stub(I, f, args, kw):
        objs = pick(f)
        if not g.get('in_dfs') and v.choose(2, 'verify dfs') == 1:
            # the body of dfs for an arbitrary state
            g['in_dfs'] = True
            v.become(objs[0], t.REFS, v.t(v.const('todo', t.REFS), t.REFS))
            v.become(objs[1], REFL, v.t(v.const('path', REFL), REFL))
            v.become(objs[2], NODES, v.t(v.const('output', NODES), NODES))
            s0 = terms(objs)
            ref = v.const('ref', t.REF)
            for label, fact in dfs_pre(v.t(ref, t.REF), *s0):
                v.assume(fact)
            g['s0'], g['objs'], g['ref'] = s0, objs, v.t(ref, t.REF)
            o = v.attempt(lambda: (setattr(I, 'force_body', f.qualname), I.call(f, [ref], {}))[1])
            s1 = terms(objs)
            if o.ok:
                v.check('dfs: inputs of ref are done before', v.forall(t.EDGE, lambda x: Implies(
                    And(he(x), t.ref(t.dest(x)) == v.t(ref, t.REF)), And(NODES.has(s1[2], t.src(x)), t.ref(t.src(x)) != v.t(ref, t.REF))),
                    patterns=lambda x: [he(x)]))
                v.check('dfs: inputs of ref are in the output', v.forall(t.EDGE, lambda x: Implies(
                    And(he(x), t.ref(t.dest(x)) == v.t(ref, t.REF)), v.exists(INT, lambda j: And(
                        0 <= j, j < NODES.n(s1[2]) - 1, NODES.get(s1[2], j) == t.src(x)))), patterns=lambda x: [he(x)]))
                for label, fact in dfs_post(v.t(ref, t.REF), *s0, *s1):
                    v.check('dfs: ' + label, fact)
            else:
                v.check('dfs: the error is ValueError', z3.BoolVal(v.is_exc(o, ValueError)))
                p, m = lambda i: REFL.get(s1[1], i), REFL.n(s1[1])
                r = v.t(ref, t.REF)
                cycle = v.exists(INT, lambda i: And(0 <= i, i < m, p(i) == r, linkp(r, p(m - 1)), v.forall(
                    INT, lambda b: Implies(And(i < b, b < m), linkp(p(b), p(b - 1))))))
                v.check('dfs: refused only with a cycle in the path', Or(cyclic, cycle))
            raise PathEnd
        ref = v.t(args[0], t.REF)
        s0 = terms(objs)
        for label, fact in dfs_pre(ref, *s0):
            v.check('precondition of dfs: ' + label, fact, keep=False)
        if v.choose(2, 'dfs fails') == 1:
            v.assume(cyclic)
            I.raise_(ValueError, 'Loop detected!')
        v.become(objs[0], t.REFS, v.t(v.const('todo', t.REFS), t.REFS))
        v.become(objs[1], REFL, v.t(v.const('path', REFL), REFL))
        v.become(objs[2], NODES, v.t(v.const('output', NODES), NODES))
        s1 = terms(objs)
        for label, fact in dfs_post(ref, *s0, *s1):
            v.assume(fact)
        return None
    v.stub(DFS, dfs_stub)

    def inv_dfs(L):
        objs = g['objs']
        s = terms(objs)
        s0, ref = g['s0'], g['ref']
        m0 = REFL.n(s0[1])
        pushed = And(REFL.n(s[1]) == m0 + 1, REFL.get(s[1], m0) == ref, v.forall(INT, lambda i: Implies(And(0 <= i, i < m0), REFL.get(
            s[1], i) == REFL.get(s0[1], i)), patterns=lambda i: [REFL.get(s[1], i), REFL.get(s0[1], i)]))
        return state_facts(*s) + [
            ('todo shrinks', v.forall(t.REF, lambda r: Implies(t.REFS.has(s[0], r), t.REFS.has(s0[0], r)), patterns=lambda r: [t.REFS.has(s[0], r)])),
            ('ref is on the path', pushed),
            ('ref is to be done', t.REFS.has(s[0], ref)),
            ('path stays to be done', v.forall(t.REF, lambda r: Implies(REFL.has(s0[1], r), t.REFS.has(s[0], r)),
                                               patterns=lambda r: [REFL.has(s0[1], r)])),
            ('inputs are done', v.forall(INT, lambda i: Implies(And(0 <= i, i < L.i), NODES.has(s[2], t.src(L.view.at(i)))),
                                         patterns=lambda i: [L.view.at(i)])),
        ]
    v.loop(DFS, inv_dfs, prefer=True)

    def inv(L):
        sets = [x for fr in L.frames() for x in v.I.h(fr.env).fields.values() if isinstance(x, Obj) and v.kind(x) == 'set']
        fs = [x for fr in L.frames() for x in v.I.h(fr.env).fields.values() if isinstance(x, FuncVal)]
        objs = pick(fs[0])
        s = terms(objs)
        return state_facts(*s) + [('path is empty', REFL.n(s[1]) == 0)]
    v.loop(G + ':*', inv)
    o = v.attempt(lambda: v.body(G + ':toposort', edges))
    if o.ok:
        R = v.t(o.value, NODES)
        at, n = lambda i: NODES.get(R, i), NODES.n(R)
        v.check('every node is in the ordering', v.forall(t.EDGE, lambda x: Implies(he(x), And(NODES.has(R, t.src(x)), NODES.has(R, t.dest(x))))), keep=False)
        v.check('only nodes are in the ordering', v.forall(t.DUMMY, lambda b: Implies(NODES.has(R, b), v.exists(t.EDGE, lambda x: And(
            he(x), Or(t.src(x) == b, t.dest(x) == b))))), keep=False)
        v.check('nodes are there once', v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < n), at(i) != at(j))), keep=False)
        v.check('nodes come after all their inputs (so there is no cycle)', v.forall([t.EDGE, INT], lambda x, i: Implies(
            And(he(x), 0 <= i, i < n, at(i) == t.dest(x)), v.exists(INT, lambda j: And(0 <= j, j < i, at(j) == t.src(x))))), keep=False)
    else:
        v.check('the error is ValueError', z3.BoolVal(v.is_exc(o, ValueError)))
        v.check('refused only when there is a cycle', cyclic)


DFS = G + ':toposort.dfs'

UNITS = [
    Unit('generate_input_edges', generate_unit, mode='abstract'),
    Unit('from_beads', from_beads_unit, mode='abstract'),
    Unit('node_index_from_edges', node_index_unit, mode='abstract'),
    Unit('refs_from_edges', refs_unit, mode='abstract'),
    Unit('toposort', toposort_unit, mode='abstract'),
]
