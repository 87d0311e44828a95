'''C14: bead references resolve to the documented version.'''
from contracts.fsmodel import *
from contracts import C05
from contracts.C05 import ZC, WS, IN, CMN

ASSUMPTIONS = [
    'search(boxes), box.search() and their conditions select what they say, newest()/oldest()/first() one of the latest/earliest/any of those, '
    'or raise LookupError if there is none (C07, C08, C09)',
    'resolve() gives the archive of the bead it is given, or raises LookupError or ValueError (C12)',
    'a recorded input tells the kind and freeze time of the bead with its content id (C17, C19), input names are distinct (C20)',
    'beads are not frozen later than 9999-12-31T00:00:00 UTC',
    'kinds, names and content ids are not empty; the workspace is not changed by others meanwhile',
    'argparse: defaults and constants of the declared arguments, the first default of a destination, positional arguments in their order; abbreviated and repeated options are not modelled',
    'time_from_user (C11) gives the limit the user meant',
]
NOT_COVERED = ['which one of several beads with the same freeze time is taken', 'refused combinations of options', 'an intact copy in another box when the first one found is damaged']
E = 'bead_cli.workspace'
R = z3.BoolSort()


class W(C05.W):
    def __init__(w, v):
        super().__init__(v)
        I = v.I
        B, A, BX, BXS, S = v.BEAD.sort, v.ARC.sort, v.BOX.sort, v.BOXES.sort, STR.sort
        F = z3.Function
        w.inbox, w.known = F('in_box', BX, B, R), F('in_boxes', BXS, B, R)
        w.name, w.kind, w.cid = (F('bead_' + n, B, S) for n in ('name', 'kind', 'content_id'))
        w.time = F('bead_time', B, INT.sort)
        w.boxof = F('box_with', BXS, B, INT.sort)
        w.resolves = F('resolves', B, R)
        w.archive_of, w.bead_of, w.of_bead = F('archive_of', B, A), F('bead_of', A, B), F('is_of_bead', A, R)
        w.file_archive = F('archive_in_file', S, A)
        w.isfile, w.unreadable, w.wellformed = F('isfile', S, R), F('unreadable', S, R), F('wellformed', S, R)
        w.itime = F('input_time', v.INSPEC.sort, INT.sort)
        w.iso = F('parse_iso8601', S, INT.sort)
        w.bnd = F('damaged', A, R)
        w.boxes = v.const('boxes', v.BOXES)
        BL = v.BOXES
        b0 = v.t(w.boxes, BL)
        if not hasattr(v, 'c14'):
            v.c14 = True
            v.BEADS14 = ListOf(v.BEAD)
        attrs = {n: (lambda I, s, f=f: STR.wrap(I, f(s.t))) for n, f in (('name', w.name), ('kind', w.kind), ('content_id', w.cid))}
        v.BEAD.attrs.update(attrs, freeze_time=lambda I, s: INT.wrap(I, w.time(s.t)))
        v.BOX.methods.update(search=lambda I, s, a, k: w.query_of(lambda b: w.inbox(s.t, b)), resolve=lambda I, s, a, k: w.resolve(a[0], lambda b: w.inbox(s.t, b)))
        v.envcls.methods.update(get_boxes=lambda I, o, a, k: w.boxes)
        v.stub('bead.box:search', lambda I, f, a, k: w.query_of(lambda b, t=v.t(a[0], v.BOXES): w.known(t, b)))
        v.stub('bead.box:resolve', lambda I, f, a, k: w.resolve(a[1], lambda b, t=v.t(a[0], v.BOXES): w.known(t, b)))
        v.assume(v.forall(v.BEAD, lambda b: And(w.bead_of(w.archive_of(b)) == b, w.of_bead(w.archive_of(b))), patterns=lambda b: [w.archive_of(b)]))
        # facts of archives of beads
        part = lambda n: F('archive_' + n, A, S)
        v.assume(v.forall(v.BEAD, lambda b: And(part('kind')(w.archive_of(b)) == w.kind(b), part('content_id')(w.archive_of(b)) == w.cid(b),
                                                F('archive_time', A, INT.sort)(w.archive_of(b)) == w.time(b)), patterns=lambda b: [w.archive_of(b)]))
        # known boxes
        v.assume(v.forall([v.BEAD, INT], lambda b, i: Implies(And(0 <= i, i < BL.n(b0), w.inbox(BL.get(b0, i), b)), w.known(b0, b)),
                          patterns=lambda b, i: [w.inbox(BL.get(b0, i), b)]))
        j = lambda b: w.boxof(b0, b)
        v.assume(v.forall(v.BEAD, lambda b: Implies(w.known(b0, b), And(0 <= j(b), j(b) < BL.n(b0), w.inbox(BL.get(b0, j(b)), b))), patterns=lambda b: [w.known(b0, b)]))
        v.assume(v.forall(v.BEAD, lambda b: Implies(w.known(b0, b), w.time(b) <= w.iso(v.t('9999-12-31', STR))), patterns=lambda b: [w.known(b0, b)]))
        # inputs
        w.inputs = v.const('inputs', v.INSPECS)
        w.input = v.const('input', v.INSPEC)
        f = v.INSPEC.f
        same = lambda i, a: Implies(f('content_id', i) == part('content_id')(a), And(f('kind', i) == part('kind')(a), w.itime(i) == F('archive_time', A, INT.sort)(a)))
        L = v.INSPECS
        it = v.t(w.inputs, L)
        v.assume(v.forall(v.ARC, lambda a: same(v.t(w.input, v.INSPEC), a), patterns=lambda a: [part('content_id')(a)]))
        v.assume(v.forall([INT, v.ARC], lambda j, a: Implies(And(0 <= j, j < L.n(it)), same(L.get(it, j), a)), patterns=lambda j, a: [z3.MultiPattern(L.get(it, j), part('content_id')(a))]))
        v.assume(v.forall([INT, INT], lambda i, j: Implies(And(0 <= i, i < j, j < L.n(it)), f('name', L.get(it, i)) != f('name', L.get(it, j))),
                          patterns=lambda i, j: [z3.MultiPattern(L.get(it, i), L.get(it, j))]))
        v.stub('bead.meta:InputSpec.freeze_time', lambda I, fn, a, k: INT.wrap(I, w.itime(v.t(a[0], v.INSPEC))))
        v.stub('bead.bead:Bead.freeze_time', lambda I, fn, a, k: INT.wrap(I, w.part(a[0], 'time', INT)))
        v.stub('bead.tech.timestamp:parse_iso8601', lambda I, fn, a, k: INT.wrap(I, w.iso(v.t(a[0], STR))))
        v.stub('bead.tech.timestamp:time_from_user', lambda I, fn, a, k: v.const('time_limit', INT))
        for n in ('BeadName', 'InputName'):
            v.stub(f'bead.meta:{n}.is_wellformed', lambda I, fn, a, k: BOOL.wrap(I, w.wellformed(v.t(a[-1], STR))))
        w.valid = v.const('is_valid', BOOL)
        v.stub(WS + '.is_valid', lambda I, fn, a, k: w.valid)
        v.stub(WS + '.inputs', lambda I, fn, a, k: w.inputs)
        v.stub(WS + '.is_loaded', lambda I, fn, a, k: BOOL.wrap(I, v.loaded(v.t(a[1], STR))))
        v.stub(WS + '.for_current_working_directory', lambda I, fn, a, k: w.ws)
        v.stub(WS + '.__init__', lambda I, fn, a, k: I.set_field(a[0], 'directory', w.d))
        v.stub(WS + '.name', lambda I, fn, a, k: v.const('ws_name', STR))
        w.exists = v.const('exists', BOOL)
        v.ext('os.path.exists', lambda I, a, k: w.exists)
        v.ext('os.path.isfile', lambda I, a, k: BOOL.wrap(I, w.isfile(v.t(a[0], STR))))
        # ghost: what was loaded
        w.NAMES = SetOf(STR)
        w.done = I.alloc(HSym(w.NAMES, v.t(v.const('done', w.NAMES), w.NAMES)))
        v.assume(v.forall(STR, lambda n: Not(w.isdone(n)), patterns=lambda n: [w.NAMES.has(v.t(w.done, w.NAMES), n)]))
        w.allowed = lambda nick, a: z3.BoolVal(False)

    def isdone(w, n):
        return w.NAMES.has(w.v.t(w.done, w.NAMES), n)

    # ------------------------------------------------------------------ queries
    def query_of(w, base):
        v, conds = w.v, [base]
        match = lambda b: And(*[c(b) for c in conds])

        def cond(test):
            def add(I, o, a, k):
                x = a[0] if a else list(k.values())[0]
                conds.append(test(x))
                return o
            return add
        text = lambda f: cond(lambda x, f=f: lambda b, t=v.t(x, STR): f(b) == t)
        time = lambda op: cond(lambda x, op=op: lambda b, t=v.t(x, INT): op(w.time(b), t))

        def pick(best):
            def get(I, o, a, k):
                if v.choose(2, 'found') == 0:
                    v.assume(v.forall(v.BEAD, lambda b: Not(match(b)), patterns=lambda b: [w.known(v.t(w.boxes, v.BOXES), b)] if base is conds[0] and w.is_known(base) else [w.kind(b)]))
                    I.raise_(LookupError)
                b = v.const('bead', v.BEAD)
                t = v.t(b, v.BEAD)
                v.assume(match(t))
                if best:
                    v.assume(v.forall(v.BEAD, lambda c: Implies(match(c), best(w.time(c), w.time(t))), patterns=lambda c: [w.time(c)]))
                return b
            return get

        def all_(I, o, a, k):
            L = v.const('beads', v.BEADS14)
            t = v.t(L, v.BEADS14)
            v.assume(v.forall(v.BEAD, lambda b: v.BEADS14.has(t, b) == match(b), patterns=lambda b: [v.BEADS14.has(t, b)]))
            return L
        return v.I.alloc(HInst(ExtClass('Query', {
            'by_name': text(w.name), 'by_kind': text(w.kind), 'by_content_id': text(w.cid),
            'at_time': time(lambda a, b: a == b), 'newer_than': time(lambda a, b: a > b), 'older_than': time(lambda a, b: a < b),
            'at_or_newer': time(lambda a, b: a >= b), 'at_or_older': time(lambda a, b: a <= b),
            'unique': lambda I, o, a, k: o, 'all': all_,
            'newest': pick(lambda c, b: c <= b), 'oldest': pick(lambda c, b: c >= b), 'first': pick(None)}), {}))

    def is_known(w, base):
        x = z3.Const('x', w.v.BEAD.sort)
        return base(x).eq(w.known(w.v.t(w.boxes, w.v.BOXES), x))

    def archive_for(w, id, **kw):
        v = w.v
        return v.new(ZC, id=v.ARC.wrap(v.I, id), **{**dict(name=v.const('bead_name', STR), box_name=v.const('box', STR), archive_filename=v.const('filename', STR)), **kw})

    def resolve(w, bead, there):
        v, I = w.v, w.v.I
        b = v.t(bead, v.BEAD)
        if not I.branch(And(there(b), w.resolves(b)), 'resolves'):
            I.raise_([LookupError, ValueError][v.choose(2, 'how')])
        return w.archive_for(w.archive_of(b))

    # ------------------------------------------------------------------ changes
    def open(w, I, f, a, k):
        v = w.v
        name = v.t(a[1], STR)
        if I.branch(w.unreadable(name), 'not an archive'):
            I.raise_(v.get('bead.exceptions:InvalidArchive'))
        for n, x in dict(id=v.ARC.wrap(I, w.file_archive(name)), name=v.const('bead_name', STR), box_name='', archive_filename=a[1]).items():
            I.set_field(a[0], n, x)

    def validate(w, I, f, a, k):
        if I.branch(w.v.damaged(w.id(a[0])), 'damaged'):
            I.raise_(w.v.get('bead.exceptions:InvalidArchive'))

    def load(w, I, f, a, k):
        v = w.v
        a = a + [k[n] for n in ('input_nick', 'archive')[len(a) - 1:]]
        nick = v.t(a[1], STR)
        v.check('only the documented bead is loaded', w.allowed(nick, w.id(a[2])), keep=False)
        I.mutate(w.done, 'add', a[1])

    def unload(w, I, f, a, k):
        return None

    def unpack(w, I, f, a, k):
        v = w.v
        v.check('only the documented bead is unpacked', w.allowed(None, w.id(a[0])), keep=False)
        I.mutate(w.done, 'add', '')

    def change(w, what):
        w.v.check('nothing else is changed', z3.BoolVal(False), keep=False)

    def get_input(w, I, f, a, k):
        v = w.v
        nick = v.t(a[1], STR)
        if not I.branch(w.is_input(nick), 'is an input'):
            return None
        v.assume(v.INSPEC.f('name', v.t(w.input, v.INSPEC)) == nick)
        return w.input

    # ------------------------------------------------------------------ what is wanted
    def is_known_bead(w, b):
        return w.known(w.v.t(w.boxes, w.v.BOXES), b)

    def wanted(w, cand, best):
        '''(b is the wanted one, there is none)'''
        v = w.v
        pat = lambda c: [w.is_known_bead(c)]
        return (lambda b: And(cand(b), v.forall(v.BEAD, lambda c: Implies(cand(c), best(w.time(c), w.time(b))), patterns=lambda c: [w.time(c)])),
                lambda: v.forall(v.BEAD, lambda c: Not(cand(c)), patterns=pat))

    def from_box(w, is_wanted):
        return lambda a: And(w.of_bead(a), is_wanted(w.bead_of(a)))

    def fails(w, is_wanted, also=lambda b: z3.BoolVal(False)):
        '''the wanted bead can not be loaded'''
        v = w.v
        return v.exists(v.BEAD, lambda b: And(is_wanted(b), Or(v.damaged(w.archive_of(b)), Not(w.resolves(b)), also(b))), patterns=lambda b: [w.time(b)])

    def by_ref(w, ref, limit):
        '''what a reference means: (archives allowed, why it may not be loaded)'''
        v = w.v
        cand = lambda b: And(w.is_known_bead(b), w.name(b) == ref, *([w.time(b) <= limit] if limit is not None else []))
        is_wanted, none = w.wanted(cand, lambda c, b: c <= b)
        file = w.file_archive(ref)
        allowed = lambda a: If(w.isfile(ref), a == file, w.from_box(is_wanted)(a))

        def excuse(same=lambda cid: z3.BoolVal(False)):
            cid = z3.Function('archive_content_id', v.ARC.sort, STR.sort)(file)
            return Or(And(w.isfile(ref), Or(w.unreadable(ref), v.damaged(file), same(cid))),
                      And(Not(w.isfile(ref)), Or(none(), w.fails(is_wanted, lambda b: same(w.cid(b))))))
        return allowed, excuse

    def newest_of_kind(w, i, limit):
        kind = w.v.INSPEC.f('kind', i)
        return w.wanted(lambda b: And(w.is_known_bead(b), w.kind(b) == kind, *([w.time(b) <= limit] if limit is not None else [])), lambda c, b: c <= b)

    # ------------------------------------------------------------------ command lines
    def command(w, cls):
        '''
        An arbitrary command line: namespace, and what was given for each argument (by position and by option)
        '''
        v, I = w.v, w.v.I
        cmd = v.new(cls)
        actions = []

        def declare(I, o, a, k):
            if len(a) == 1 and not k and not isinstance(a[0], str):
                I.call(a[0], [parser], {})
            else:
                actions.append((list(a), dict(k)))
        cls_ = ExtClass('Parser', {'arg': declare})
        parser = I.alloc(HInst(cls_, {}))
        v.method(cmd, 'declare', I.getattr(parser, 'arg'))
        ns, given, position = {}, {}, 0
        for flags, k in actions:
            option = flags[0].startswith('-')
            longs = [x for x in flags if x.startswith('--')] or flags
            k['dest'] = k.get('dest') or (longs[0].lstrip('-').replace('-', '_') if option else flags[0])
            default = k.get('default', False if k.get('action') == 'store_true' else None)
            if isinstance(default, str) and 'type' in k:
                raise Unsupported('default that is parsed')
            ns.setdefault(k['dest'], default)
        before = True
        for flags, k in actions:
            option = flags[0].startswith('-')
            if not option:
                key = position
                position += 1
                here = k.get('nargs') is None or (before and v.choose(2, f'argument {key}') == 1)
                before = before and here
            else:
                key = max(flags, key=len) if '--prev' not in flags else '--prev'
                here = not ('--next' in given and key == '--prev') and v.choose(2, key) == 1
            if not here:
                continue
            act = k.get('action', 'store')
            if act == 'store_const':
                value, t = k['const'], True
            elif act == 'store_true':
                value, t = True, True
            elif act == 'store':
                ty = k.get('type')
                value = v.const(f'argument_{str(key).strip("-")}', STR)
                if ty is not None and not (isinstance(ty, PyType) and ty.pytype is str):
                    value = I.call(ty, [value], {})
                t = value
            else:
                raise Unsupported(act)
            ns[k['dest']] = value
            given[key] = t
        return cmd, w.args(**ns), given

    def run(w, cmd, args):
        return w.v.attempt(lambda: w.v.method(cmd, 'run', args, w.env()))


def add_unit(v):
    w = W(v)
    cmd, args, given = w.command(IN + ':CmdAdd')
    nick = v.t(given[0], STR)
    ref = v.t(given.get(1, given[0]), STR)
    limit = v.t(given['--time'], INT) if '--time' in given else None
    allowed, excuse = w.by_ref(ref, limit)
    w.allowed = lambda n, a: And(n == nick, allowed(a))
    w.run(cmd, args)
    v.check('loaded when there is such a bead', Or(w.isdone(nick), Not(v.t(w.valid, BOOL)), Not(w.wellformed(nick)), excuse()), keep=False)


def edit_unit(v):
    w = W(v)
    cmd, args, given = w.command(E + ':CmdEdit')
    ref = v.t(given[0], STR)
    limit = v.t(given['--time'], INT) if '--time' in given else None
    allowed, excuse = w.by_ref(ref, limit)
    w.allowed = lambda n, a: allowed(a)
    w.run(cmd, args)
    v.check('unpacked when there is such a bead', Or(w.isdone(v.t('', STR)), v.t(w.exists, BOOL), excuse()), keep=False)


def update_one_unit(v):
    w = W(v)
    cmd, args, given = w.command(IN + ':CmdUpdate')
    if 0 not in given:
        return
    nick = v.t(given[0], STR)
    limit = v.t(given['--time'], INT) if '--time' in given else None
    i = v.t(w.input, v.INSPEC)
    same = lambda cid: And(v.loaded(nick), v.INSPEC.f('content_id', i) == cid)
    offset = '--next' if '--next' in given else '--prev' if '--prev' in given else None
    if offset and (1 in given or '--time' in given):
        return  # refused
    if 1 in given:
        allowed, excuse = w.by_ref(v.t(given[1], STR), limit)
        why = lambda: excuse(same)
    else:
        if offset == '--next':
            is_wanted, none = w.wanted(lambda b: And(w.is_known_bead(b), w.kind(b) == v.INSPEC.f('kind', i), w.time(b) > w.itime(i)), lambda c, b: c >= b)
        elif offset == '--prev':
            is_wanted, none = w.wanted(lambda b: And(w.is_known_bead(b), w.kind(b) == v.INSPEC.f('kind', i), w.time(b) < w.itime(i)), lambda c, b: c <= b)
        else:
            is_wanted, none = w.newest_of_kind(i, limit)
        allowed = w.from_box(is_wanted)
        why = lambda: Or(none(), w.fails(is_wanted, lambda b: same(w.cid(b))))
    w.allowed = lambda n, a: And(n == nick, allowed(a))
    w.run(cmd, args)
    v.check('updated when there is such a bead', Or(w.isdone(nick), Not(v.t(w.valid, BOOL)), Not(w.is_input(nick)), why()), keep=False)


def every(w, at, upto, ok):
    v = w.v
    return v.forall(INT, lambda j: Implies(And(0 <= j, j < upto), ok(at(j))), patterns=lambda j: [at(j)])


def update_all_unit(v):
    w = W(v)
    cmd, args, given = w.command(IN + ':CmdUpdate')
    if 0 in given or '--next' in given or '--prev' in given:
        return
    limit = v.t(given['--time'], INT) if '--time' in given else None
    L, it = v.INSPECS, v.t(w.inputs, v.INSPECS)
    at = lambda j: L.get(it, j)
    name, cid = (lambda i, n=n: v.INSPEC.f(n, i) for n in ('name', 'content_id'))
    w.allowed = lambda n, a: v.exists(INT, lambda j: And(0 <= j, j < L.n(it), name(at(j)) == n, w.from_box(w.newest_of_kind(at(j), limit)[0])(a)), patterns=lambda j: [at(j)])

    def ok(i):
        is_wanted, none = w.newest_of_kind(i, limit)
        return Or(w.isdone(name(i)), none(), w.fails(is_wanted, lambda b: And(v.loaded(name(i)), w.cid(b) == cid(i))))
    inv = lambda L_: [('the inputs are updated so far', every(w, at, L_.i, ok))]
    v.loop(IN + ':*', inv, prefer=True, over=lambda view: getattr(view, 'ty', None) is v.INSPEC)
    o = w.run(cmd, args)
    if o.ok:
        v.check('every input is updated for which there is such a bead', every(w, at, L.n(it), ok), keep=False)


def load_unit(v):
    w = W(v)
    cmd, args, given = w.command(IN + ':CmdLoad')
    L, it = v.INSPECS, v.t(w.inputs, v.INSPECS)
    at = lambda j: L.get(it, j)
    name, cid = (lambda i, n=n: v.INSPEC.f(n, i) for n in ('name', 'content_id'))
    exact = lambda i, a: And(w.of_bead(a), w.cid(w.bead_of(a)) == cid(i), w.is_known_bead(w.bead_of(a)))
    BL, bt = v.BOXES, v.t(w.boxes, v.BOXES)

    def ok(i):
        # a bead that can not be had hides others of the same content
        return Or(w.isdone(name(i)), v.loaded(name(i)),
                  v.forall(v.BEAD, lambda b: Not(And(w.is_known_bead(b), w.cid(b) == cid(i))), patterns=lambda b: [w.cid(b)]),
                  v.exists(v.BEAD, lambda b: And(w.is_known_bead(b), w.cid(b) == cid(i), Or(v.damaged(w.archive_of(b)), Not(w.resolves(b)))), patterns=lambda b: [w.archive_of(b)]))
    inv = lambda L_: [('the inputs are loaded so far', every(w, at, L_.i, ok))]
    v.loop(IN + ':*', inv, prefer=True, over=lambda view: getattr(view, 'ty', None) is v.INSPEC)
    if 0 in given:
        nick = v.t(given[0], STR)
        i = v.t(w.input, v.INSPEC)
        w.allowed = lambda n, a: And(n == nick, exact(i, a))
    else:
        w.allowed = lambda n, a: v.exists(INT, lambda j: And(0 <= j, j < L.n(it), name(at(j)) == n, exact(at(j), a)), patterns=lambda j: [at(j)])
    o = w.run(cmd, args)
    if 0 in given:
        v.check('loaded when there is such a bead', Or(Not(v.t(w.valid, BOOL)), Not(w.is_input(nick)), ok(i)), keep=False)
    elif o.ok:
        v.check('every input is loaded for which there is such a bead', every(w, at, L.n(it), ok), keep=False)


UNITS = [
    Unit('CmdAdd', add_unit, mode='abstract'),
    Unit('CmdEdit', edit_unit, mode='abstract'),
    Unit('CmdUpdate of one input', update_one_unit, mode='abstract'),
    Unit('CmdUpdate of all inputs', update_all_unit, mode='abstract'),
    Unit('CmdLoad', load_unit, mode='abstract'),
]
