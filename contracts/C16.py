'''C16: web filters keep exactly the clusters connected to the named ones.'''
from .web import *

ASSUMPTIONS = [
    'the web being filtered is one built by Sketch.from_beads (C17 proves that it satisfies the preconditions used here)',
    'termination of closure is not an obligation (the loop invariant shows that every iteration adds a new bead to the '
    'result, which is a subset of a finite set)',
]
NOT_COVERED = ['the order of the kept beads and links']


def closed_under(v, t, E, C):
    return v.forall([t.REF, t.EDGE], lambda x, e: Implies(And(C(x), t.EDGES.has(t.BY_REF.get(E, x), e)),
                                                          C(t.ref(t.dest(e)))))


def closure_unit(v):
    t = types(v)
    roots = v.const('roots', t.REFLIST)
    ebs = v.const('edges_by_src', t.BY_REF)
    v.I.h(ebs).default = 'list'
    R, E = v.t(roots, t.REFLIST), v.t(ebs, t.BY_REF)
    v.I.total(t.BY_REF, E)      # a defaultdict(list): what is not in it is an empty list
    Cs = v.t(v.const('C', t.REFS), t.REFS)
    C = lambda x: t.REFS.has(Cs, x)
    v.assume(v.forall(t.REF, lambda x: Implies(t.REFLIST.has(R, x), C(x))))
    v.assume(closed_under(v, t, E, C))

    def inv(L):
        a, b = L.roles('closure', ['reachable', 'todo'], L.is_container('set', 'list'))
        done, todo = members(v, a, t.REF), members(v, b, t.REF)
        cur = v.t(ebs, t.BY_REF)
        # in a loop over links: the ones that come later
        ahead = lambda e: v.exists(INT, lambda j: And(L.i <= j, j < L.n, L.view.at(j) == e)) if L.view is not None and L.view.ty is t.EDGE else z3.BoolVal(False)
        # beads are reachable when their links have been followed, or already when they are found
        late = L.variant('closed', 2) == 0
        followed = done if late else lambda x: And(done(x), Not(todo(x)))
        return [
            ('roots', v.forall(t.REF, lambda x: Implies(t.REFLIST.has(R, x), Or(done(x), todo(x))))),
            ('closed', v.forall([t.REF, t.EDGE], lambda x, e: Implies(
                And(followed(x), t.EDGES.has(t.BY_REF.get(E, x), e)),
                Or(done(t.ref(t.dest(e))), todo(t.ref(t.dest(e))), ahead(e))))),
            ('found ones', z3.BoolVal(True) if late else v.forall(t.REF, lambda x: Implies(todo(x), done(x)))),
            ('no more', v.forall(t.REF, lambda x: Implies(Or(done(x), todo(x)), C(x)))),
            ('edges are kept', v.forall([t.REF, t.EDGE], lambda x, e: t.EDGES.has(t.BY_REF.get(cur, x), e) ==
                                        t.EDGES.has(t.BY_REF.get(E, x), e))),
        ]
    v.loop(G + ':*', inv)
    r = v.t(v.body(G + ':closure', roots, ebs), t.REFS)
    v.check('the roots are reachable', v.forall(t.REF, lambda x: Implies(t.REFLIST.has(R, x), t.REFS.has(r, x))))
    v.check('the result is closed under the edges', closed_under(v, t, E, lambda x: t.REFS.has(r, x)))
    v.check('the result is the least closed set', v.forall(t.REF, lambda x: Implies(t.REFS.has(r, x), C(x))))


def closure_stub(v, t, Cpred, ghost, lemmas=None):
    '''contract of closure, the least set property is used for Cpred only'''
    def stub(I, f, args, kw):
        roots, ebs = args
        roots = members(v, PBlist(v, roots), t.REF)
        E = v.t(ebs, t.BY_REF)
        K = v.const('reachable', t.REFS)
        k = v.t(K, t.REFS)
        K_ = lambda x: t.REFS.has(k, x)
        if lemmas:
            lemmas(roots, E)
        c = ghost['closure'] = {}
        c['roots'] = v.assume(v.forall(t.REF, lambda x: Implies(roots(x), K_(x))))
        c['closed'] = v.assume(closed_under(v, t, E, K_))
        v.assume(Implies(And(v.forall(t.REF, lambda x: Implies(roots(x), Cpred(x))), closed_under(v, t, E, Cpred)),
                         v.forall(t.REF, lambda x: Implies(K_(x), Cpred(x)))))
        # the same for the set of the roots and the ends of the edges: it is closed
        fx, fe = v.I.ctx.fresh_fun('from', t.REF.sort, t.REF.sort), v.I.ctx.fresh_fun('by', t.REF.sort, t.EDGE.sort)
        c['from'] = v.assume(v.forall(t.REF, lambda x: Implies(K_(x), Or(roots(x), And(
            t.EDGES.has(t.BY_REF.get(E, fx(x)), fe(x)), t.ref(t.dest(fe(x))) == x))), patterns=lambda x: [K_(x)]))
        ghost['K'] = k
        return K
    v.stub(G + ':closure', stub)
    v.stub(S + ':closure', stub)


def filter_unit(which):
    def unit(v):
        t = types(v)
        sk, beads, edges = sketch(v, t)
        web = wf_sketch(v, t, beads, edges)
        names = v.const('names', SetOf(STR))
        Nn = v.t(names, SetOf(STR))
        named = lambda n: SetOf(STR).has(Nn, n)
        # an arbitrary set of names that has the named clusters and is closed under the links
        Cs = v.t(v.const('closed_names', SetOf(STR)), SetOf(STR))
        C = lambda n: SetOf(STR).has(Cs, n)
        has_b, has_e = lambda b: t.DUMMIES.has(beads, b), lambda e: t.EDGES.has(edges, e)
        frm, to = (t.src, t.dest) if which == 'set_sources' else (t.dest, t.src)
        v.assume(v.forall(t.DUMMY, lambda b: Implies(And(has_b(b), named(t.name(b))), C(t.name(b)))))
        v.assume(v.forall(t.EDGE, lambda e: Implies(And(has_e(e), C(t.name(frm(e)))), C(t.name(to(e))))))
        ghost = {}
        facts = {}

        def root_lemmas(roots, E):
            dt, D = ghost['dt'], DictOf(STR, ghost['CLUSTER'])
            n_ = lambda r: t.REF.f('name', r)
            facts['edges'] = v.lemma('one reference for a name (links)', v.forall([t.REF, t.REF, t.EDGE, t.EDGE], lambda x, y, e, f: Implies(And(
                t.EDGES.has(t.BY_REF.get(E, x), e), t.EDGES.has(t.BY_REF.get(E, y), f)), And(
                t.ref(t.src(e)) == x,
                Implies(n_(x) == n_(y), x == y),
                Implies(t.name(t.dest(e)) == n_(y), t.ref(t.dest(e)) == y),
                Implies(t.name(t.dest(e)) == t.name(t.dest(f)), t.ref(t.dest(e)) == t.ref(t.dest(f)))))))
            facts['roots'] = v.lemma('one reference for a name (roots)', v.forall([t.REF, t.REF, t.EDGE], lambda r, x, e: Implies(And(
                roots(r), t.EDGES.has(t.BY_REF.get(E, x), e)), And(
                Implies(n_(r) == n_(x), r == x), Implies(t.name(t.dest(e)) == n_(r), t.ref(t.dest(e)) == r)))))
            enc = lambda e, x, f: And(t.EDGES.has(t.BY_REF.get(E, x), f), n_(x) == t.name(frm(e)), t.name(t.dest(f)) == t.name(to(e)))
            facts['encoded'] = v.lemma('links are encoded', v.forall(t.EDGE, lambda e: Implies(has_e(e), v.exists([t.REF, t.EDGE], lambda x, f: enc(e, x, f)))))
            facts['named'] = v.lemma('the named clusters are roots', v.forall(STR, lambda n: Implies(And(named(n), D.has(dt, n)), v.exists(t.REF, lambda r: And(
                roots(r), n_(r) == n)))))
        closure_stub(v, t, lambda r: C(t.REF.f('name', r)), ghost, root_lemmas)
        refs_from_edges_stub(v, t)
        ghost['CLUSTER'] = cluster_index_stub(v, t, ghost)

        def kept_names():
            # names of the references closure returned
            if 'kn' not in ghost:
                k = ghost['K']
                kn = v.I.ctx.fresh_fun('kept_name', STR.sort, z3.BoolSort())
                w = v.I.ctx.fresh_fun('kept_cid', STR.sort, STR.sort)
                k1 = v.assume(v.forall(t.REF, lambda r: Implies(t.REFS.has(k, r), kn(t.REF.f('name', r))),
                                       patterns=lambda r: [t.REFS.has(k, r)]))
                k2 = v.assume(v.forall(STR, lambda n: Implies(kn(n), t.REFS.has(k, t.REF.mk(n, w(n)))),
                                       patterns=lambda n: [kn(n)]))
                ghost['kn'] = kn
                c = ghost['closure']
                v.check('named clusters are kept', v.forall(t.DUMMY, lambda b: Implies(And(has_b(b), named(t.name(b))), kn(t.name(b)))),
                        using=[facts['named'], c['roots'], k1, ghost['index']], keep=False)
                v.check('what is connected to a kept one is kept', v.forall(t.EDGE, lambda e: Implies(
                    And(has_e(e), kn(t.name(frm(e)))), kn(t.name(to(e))))),
                    using=[facts['edges'], facts['roots'], facts['encoded'], c['closed'], c['from'], k1, k2], keep=False)
                v.check('only what is connected is kept', v.forall(STR, lambda n: Implies(kn(n), C(n))), keep=False)
            return ghost['kn']

        def kept_(e):
            K = kept_names()
            return And(has_e(e), K(t.name(t.src(e))), K(t.name(t.dest(e))))

        def selected(I, f, args, kw):
            # names of the links kept
            out = members(v, PBlist(v, args[1]), t.EDGE)
            same = lambda e, f: And(t.name(t.src(e)) == t.name(t.src(f)), t.name(t.dest(e)) == t.name(t.dest(f)))
            v.check('lemma: kept links are encoded', v.forall(t.EDGE, lambda e: Implies(kept_(e), v.exists(t.EDGE, lambda f: And(out(f), same(e, f))))))
            ghost['out'] = out
            ghost['of'] = v.lemma('encoded links are of kept links', v.forall(t.EDGE, lambda f: Implies(out(f), v.exists(t.EDGE, lambda e: And(kept_(e), same(e, f))))))
            v.I.force_body = f.qualname
            return v.I.call(f, args, kw)
        v.stub(S + ':ClusterFilter.get_filtered_by_edges', selected)

        def lemmas(fb, fe):
            all_kept = v.lemma('kept links are selected', v.forall(t.EDGE, lambda e: Implies(kept_(e), t.EDGES.has(fe, e))))
            web.append(all_kept)
            web.append(v.lemma('selected links are kept links', v.forall(t.EDGE, lambda e: Implies(t.EDGES.has(fe, e), kept_(e)))))
            linked = lambda n: v.exists(t.EDGE, lambda e: And(t.EDGES.has(fe, e), Or(t.name(t.src(e)) == n, t.name(t.dest(e)) == n)))
            web.append(v.lemma('selected beads are beads', v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(fb, b), has_b(b)))))
            out = ghost['out']
            named = v.lemma('selected beads are of encoded links', v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(fb, b), v.exists(
                t.EDGE, lambda e: And(out(e), Or(t.name(t.src(e)) == t.name(b), t.name(t.dest(e)) == t.name(b)))))))
            is_linked = v.forall(t.DUMMY, lambda b: Implies(t.DUMMIES.has(fb, b), linked(t.name(b))))
            web.append(v.lemma('selected beads are linked', is_linked, using=[named, ghost['of'], all_kept]))
            ghost['stay'] = v.lemma('linked beads are selected', v.forall([t.DUMMY, t.EDGE], lambda b, e: Implies(And(
                has_b(b), t.EDGES.has(fe, e), Or(t.name(t.src(e)) == t.name(b), t.name(t.dest(e)) == t.name(b))), t.DUMMIES.has(fb, b))))
            web.append(ghost['stay'])
            ghost['all_kept'] = all_kept
        drop_deleted_stub(v, t, lemmas, web)
        r = v.call(f'{S}:{which}', sk, names)
        K = kept_names()
        rb, re = v.t(v.getattr(r, 'beads'), t.DUMMIES), v.t(v.getattr(r, 'edges'), t.EDGES)
        kept = lambda e: And(has_e(e), K(t.name(t.src(e))), K(t.name(t.dest(e))))
        same = lambda a, b: And(t.ref(t.src(a)) == t.ref(t.src(b)), t.ref(t.dest(a)) == t.ref(t.dest(b)),
                                t.label(a) == t.label(b))
        v.check('links between kept names are in the result, with their labels', v.forall(t.EDGE, lambda e: Implies(
            kept(e), v.exists(t.EDGE, lambda f: And(t.EDGES.has(re, f), same(e, f))))), using=web, keep=False)
        v.check('links of the result are links between kept names', v.forall(t.EDGE, lambda f: Implies(
            t.EDGES.has(re, f), v.exists(t.EDGE, lambda e: And(kept(e), same(e, f))))), using=web, keep=False)
        linked = lambda n: v.exists(t.EDGE, lambda e: And(kept(e), Or(t.name(t.src(e)) == n, t.name(t.dest(e)) == n)))
        v.check('all versions of a linked kept name are in the result', v.forall(t.DUMMY, lambda b: Implies(
            And(has_b(b), linked(t.name(b))), v.exists(t.DUMMY, lambda c: And(
                t.DUMMIES.has(rb, c), same_bead(t, b, c))))), using=[ghost['stay'], ghost['all_kept'], v.all_stay], keep=False)
        v.check('beads of the result are of a linked kept name', v.forall(t.DUMMY, lambda c: Implies(
            t.DUMMIES.has(rb, c), v.exists(t.DUMMY, lambda b: And(has_b(b), linked(t.name(b)), same_bead(t, b, c))))), using=web, keep=False)
    return unit


CMD = 'bead_cli.web.commands'
WORDS = ListOf(STR)
NAMES = SetOf(STR)


def arguments_unit(v):
    '''
    Filter(words): the words are in reverse order. SOURCES .. SINKS / are taken
    from them, when there are no other delimiters among them; an error otherwise.
    '''
    args = v.const('words', WORDS)
    A = v.t(args, WORDS)
    n = WORDS.n(A)
    dots, slash = v.t('..', STR), v.t('/', STR)
    delimiter = lambda x: Or(x == dots, x == slash)
    at = lambda j: WORDS.get(A, j)
    v.assume(n >= 0)
    p, q = v.t(v.const('middle', INT), INT), v.t(v.const('end', INT), INT)
    good = lambda p, q: And(0 <= q, q < p, p < n, at(p) == dots, at(q) == slash,
                            v.forall(INT, lambda j: Implies(And(q < j, j < n, j != p), Not(delimiter(at(j)))), patterns=lambda j: [at(j)]))

    def inv(L):
        names = L.roles('names', ['names'], L.is_container('set', 'list'))[0]
        has = members(v, names, STR)
        cur, start = v.t(args, WORDS), L.at_entry(args, WORDS)
        k, k0 = WORDS.n(cur), WORDS.n(start)
        return [
            ('words are left', And(0 <= k, k <= k0, k0 <= n)),
            ('the rest is as it was', v.forall(INT, lambda j: Implies(And(0 <= j, j < k), WORDS.get(cur, j) == at(j)), patterns=lambda j: [WORDS.get(cur, j)])),
            ('they are no delimiters', v.forall(INT, lambda j: Implies(And(k <= j, j < k0), Not(delimiter(at(j)))), patterns=lambda j: [at(j)])),
            ('words taken are names', v.forall(INT, lambda j: Implies(And(k <= j, j < k0), has(at(j))), patterns=lambda j: [at(j)])),
            ('names are words taken', v.forall(STR, lambda x: Implies(has(x), v.exists(INT, lambda j: And(k <= j, j < k0, at(j) == x))))),
        ]
    v.loop(CMD + ':*', inv)
    well_formed = v.branch(good(p, q), 'well formed')
    if not well_formed:
        v.assume(v.forall([INT, INT], lambda a, b: Not(good(a, b)), patterns=lambda a, b: [z3.MultiPattern(at(a), at(b))]))
    r = v.attempt(lambda: v.call(CMD + ':Filter', args))
    if not well_formed:
        v.check('other words are an error', z3.BoolVal(r.exc is not None))
        return
    v.check('no error', z3.BoolVal(r.exc is None))
    if r.exc is not None:
        return
    for what, lo, hi in (('sources', p, n), ('sinks', q, p)):
        names = members(v, v.getattr(r.value, what), STR)
        v.check(f'the words are {what}', v.forall(INT, lambda j: Implies(And(lo < j, j < hi), names(at(j)))))
        v.check(f'all {what} are of the words', v.forall(STR, lambda x: Implies(names(x), v.exists(INT, lambda j: And(lo < j, j < hi, at(j) == x)))))
    rest = v.t(args, WORDS)
    v.check('what comes after is left', And(WORDS.n(rest) == q, v.forall(INT, lambda j: Implies(And(0 <= j, j < q), WORDS.get(rest, j) == at(j)))))


def filter_call_unit(v):
    '''a Filter applies set_sources, set_sinks for the sets that are not empty'''
    so, si = v.const('sources', NAMES), v.const('sinks', NAMES)
    So, Si = v.t(so, NAMES), v.t(si, NAMES)
    f = v.new(CMD + ':Filter', sources=so, sinks=si)
    first = v.new(S + ':Sketch')
    steps = []

    def stub(what):
        def called(I, fn, args, kw):
            names = members(v, PBlist(v, kw.get('cluster_names', args[-1])), STR)
            r = v.new(S + ':Sketch')
            steps.append((what, args[0], names, r))
            return r
        return called
    for what in ('set_sources', 'set_sinks'):
        v.stub(f'{S}:{what}', stub(what))
    r = v.call(f, first)
    has = {'set_sources': lambda x: NAMES.has(So, x), 'set_sinks': lambda x: NAMES.has(Si, x)}
    used = [s[0] for s in steps]
    v.check('each filter is used at most once', z3.BoolVal(len(set(used)) == len(used)))
    for what in has:
        if what not in used:
            v.check(f'{what} is left out for no names only', v.forall(STR, lambda x: Not(has[what](x))))
    web = first
    for what, sk, names, out in steps:
        v.check(f'{what} is used only when there are names', v.exists(STR, lambda x: has[what](x)))
        v.check(f'{what} is applied to the web', z3.BoolVal(sk is web or sk == web))
        v.check(f'{what} is applied to its names', v.forall(STR, lambda x: names(x) == has[what](x)))
        web = out
    v.check('the result is the filtered web', z3.BoolVal(r == web))


UNITS = [
    Unit('closure', closure_unit, mode='abstract'),
    Unit('set_sources', filter_unit('set_sources'), mode='abstract'),
    Unit('set_sinks', filter_unit('set_sinks'), mode='abstract'),
    Unit('drop_deleted_inputs', drop_deleted_unit, mode='abstract'),
    Unit('Filter: words', arguments_unit, mode='abstract'),
    Unit('Filter: filtering', filter_call_unit),
]
