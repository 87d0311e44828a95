'''Models of python builtins and of the methods of builtin types.'''
import builtins as B
import string
import z3

from . import terms as T
from .terms import (Sym, StrSub, Unsupported, INT, BOOL, STR, BYTES, INSTANT, NONE, Abs, Rec, EnumTy, EnumMember,
                    ListTy, SetTy, DictTy, ListOf, SetOf, DictOf, TupOf, World)
from .core import PyRaise, BreakSig, PathEnd
from .values import *
from . import values as V


# ---------------------------------------------------------------- helpers

def term_fn(I, view):
    '''(type, function index term -> element term) of a view.'''
    if view.ty is not None:
        return view.ty, view.at
    c = z3.Const('view_ix', z3.IntSort())
    paths = I.ctx.explore(lambda: (lambda v: (I.type_of(v), v))(view.elem(c)))
    if len(paths) != 1 or paths[0].outcome != 'ok':
        raise Unsupported('sequence with several forms of elements')
    ty, v = paths[0].value
    if ty is None:
        raise Unsupported('sequence of elements without a type')
    I.ctx.heap.update({k: x for k, x in paths[0].state[0].items() if k not in I.ctx.heap})
    t = ty.unwrap(I, v)
    return ty, (lambda i: z3.substitute(t, (c, i if z3.is_expr(i) else z3.IntVal(i))))


def to_list(I, v):
    '''New list object with the elements of an iterable.'''
    if isinstance(v, IterVal):
        v = v.src
    items = I.concrete_items(v)
    if items is not None:
        return I.new_list(items)
    if isinstance(v, SlotRef):
        return I.slot_value(v)
    if isinstance(v, GenVal):
        o = I.new_list()
        return I.build(o, lambda: I.iterate(v, lambda x: I.mutate(o, 'append', x)))
    if isinstance(v, Obj):
        h = I.h(v)
        if isinstance(h, HSym) and isinstance(h.ty, ListTy):
            I.content(v)
            return I.alloc(HSym(h.ty, h.t))
        if isinstance(h, HInst) and isinstance(h.cls, ClassVal) and h.cls.lookup('__iter__'):
            return to_list(I, I.call(h.cls.lookup('__iter__'), [v], {}))
    view = I.seq_view(v)
    if view is None:
        raise Unsupported(f'list of {v!r}')
    ty, at = term_fn(I, view)
    if view.trigger is not None:
        return I.map_list(ListOf(ty), view.n, at, view.trigger, inv=lambda j: j, lo=z3.IntVal(0), hi=view.n, trigger_is_elem=False)
    return I.map_list(ListOf(ty), view.n, at)


def list_of(I, v):
    '''list object holding the elements: the object itself when it is one'''
    if isinstance(v, Obj) and I.h(v).kind == 'list':
        return v
    return to_list(I, v)


def to_set(I, v):
    if isinstance(v, IterVal):
        v = v.src
    items = I.concrete_items(v)
    if items is not None:
        o = I.alloc(HSet(()))
        for x in items:
            I.mutate(o, 'add', x)
        return o
    if isinstance(v, SlotRef):
        v = I.slot_value(v)
    if isinstance(v, Obj):
        h = I.h(v)
        if isinstance(h, HSym):
            I.content(v)
            if isinstance(h.ty, SetTy):
                return I.alloc(HSym(h.ty, h.t))
            if isinstance(h.ty, ListTy):
                s = SetOf(h.ty.elem)
                return I.alloc(HSym(s, s.mk(h.ty.mem(h.t))))
            if isinstance(h.ty, DictTy):
                s = SetOf(h.ty.key)
                return I.alloc(HSym(s, s.mk(h.ty.dom(h.t))))
    if isinstance(v, DictView) and v.what == 'keys':
        return to_set(I, v.obj)
    if isinstance(v, GenVal):
        o = I.alloc(HSet(()))
        I.iterate(v, lambda x: I.mutate(o, 'add', x))
        return o
    lst = to_list(I, v)
    return to_set(I, lst)


def to_dict(I, v, kwargs=None):
    o = I.alloc(HDict(()))
    if v is not None:
        dict_update(I, o, v)
    for k, x in (kwargs or {}).items():
        I.mutate(o, 'store', k, x)
    return o


def dict_update(I, o, v):
    if isinstance(v, Obj) and I.h(v).kind == 'dict':
        h = I.content(v)
        if isinstance(h, HDict):
            for k, x in h.items:
                I.mutate(o, 'store', k, x)
        else:
            I.mutate(o, 'update', h.ty, h.t)
        return

    def step(p):
        k, x = I.unpack(p, 2, [])
        I.mutate(o, 'store', k, x)
    I.iterate(v, step)


def any_(I, it, pred):
    '''exists: bool or z3 Bool; decided by branching'''
    def step(x):
        if I.branch(pred(x), 'any'):
            raise BreakSig
    try:
        I.iterate(it, step)
    except BreakSig:
        return True
    return False


def pure_cases(I, fn):
    '''Evaluate fn without effects: [(condition term, value)].'''
    def run():
        before = dict(I.ctx.heap)
        value = fn()
        for k, v in before.items():
            if I.ctx.heap.get(k) is not v:
                raise Unsupported('key function has effects')
        return value
    checks, I.ctx.checks_enabled = I.ctx.checks_enabled, False
    try:
        paths = I.ctx.explore(run)
    finally:
        I.ctx.checks_enabled = checks
    out = []
    for p in paths:
        if p.outcome != 'ok':
            raise Unsupported('key function may fail')
        if len(paths) > 1 and isinstance(p.value, Obj):
            raise Unsupported('key function with object results')
        I.ctx.heap.update({k: x for k, x in p.state[0].items() if k not in I.ctx.heap})
        out.append((z3.And(*p.pc) if p.pc else z3.BoolVal(True), p.value))
    return out


def key_order(I, ty, key, member=None):
    '''(lt, eq): functions of two element terms (that satisfy member), comparing their keys.'''
    a = z3.Const('key_a', ty.sort)
    b = z3.Const('key_b', ty.sort)

    def ev(t):
        if member is not None:
            I.assume(member(t))
        x = ty.wrap(I, t)
        return I.call(key, [x], {}) if key is not None else x
    ca, cb = pure_cases(I, lambda: ev(a)), pure_cases(I, lambda: ev(b))
    if member is not None and len(ca) > 1:      # branches are chosen on ground facts only
        dead = [I.ctx.provable(z3.Not(c)) for c, _ in ca]
        if len(cb) == len(ca):
            ca, cb = ([x for x, d in zip(cs, dead) if not d] for cs in (ca, cb))
    lt, eq = [], []
    for c1, v1 in ca:
        for c2, v2 in cb:
            l, e = I.order('<', v1, v2), I.eq(v1, v2)
            lt.append(z3.And(c1, c2, z3.BoolVal(l) if isinstance(l, bool) else l))
            eq.append(z3.And(c1, c2, z3.BoolVal(e) if isinstance(e, bool) else e))
    lt, eq = z3.simplify(z3.Or(*lt)), z3.simplify(z3.Or(*eq))

    def sub(t):
        return lambda x, y: z3.substitute(t, (a, x), (b, y))
    return sub(lt), sub(eq)


def b_sorted(I, it, key=None, reverse=False):
    if reverse is not True and reverse is not False:
        reverse = I.branch(I.truth(reverse), 'reverse')
    o = to_list(I, it)
    h = I.h(o)
    if isinstance(h, HList):
        keyed = [(I.call(key, [x], {}) if key is not None else x, x) for x in h.items]
        out = []
        for k, x in keyed:
            # insert after all elements that do not have to come later (stable)
            pos = len(out)
            while pos > 0:
                pk = out[pos - 1][0]
                later = I.order('<', pk, k) if reverse else I.order('<', k, pk)
                if I.branch(later, 'sort order'):
                    pos -= 1
                else:
                    break
            out.insert(pos, (k, x))
        return I.new_list([x for _, x in out])
    ty, t = h.ty, h.t
    lt, eq = key_order(I, ty.elem, key, key and (lambda x: ty.has(t, x)))
    n = ty.n(t)
    new = ty.fresh(I, 'sorted')
    p = I.ctx.fresh_fun('sort_src', z3.IntSort(), z3.IntSort())
    q = I.ctx.fresh_fun('sort_dst', z3.IntSort(), z3.IntSort())
    i, j = z3.Ints('si sj')
    x = z3.Const('sx', ty.elem.sort)
    rng = lambda v: z3.And(0 <= v, v < n)
    a = I.assume
    a(ty.n(new) == n)
    a(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i, ty.get(new, i) == ty.get(t, p(i)))),
                patterns=[ty.get(new, i), p(i)]))
    a(z3.ForAll([j], z3.Implies(rng(j), z3.And(rng(q(j)), p(q(j)) == j, ty.get(new, q(j)) == ty.get(t, j))),
                patterns=[ty.get(t, j), q(j)]))
    a(z3.ForAll([x], ty.has(new, x) == ty.has(t, x), patterns=[ty.has(new, x)]))
    a(z3.ForAll([x], ty.has(new, x) == ty.has(t, x), patterns=[ty.has(t, x)]))
    ni, nj = ty.get(new, i), ty.get(new, j)
    bad = lt(ni, nj) if reverse else lt(nj, ni)
    a(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(bad)), patterns=[z3.MultiPattern(ni, nj)], qid='heavy'))
    a(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, eq(ni, nj)), p(i) < p(j)),
                patterns=[z3.MultiPattern(ni, nj)], qid='heavy'))
    return I.alloc(HSym(ty, new))


def b_extreme(I, args, kwargs, op):
    key = kwargs.get('key')
    if len(args) > 1:
        items = list(args)
    else:
        items = I.concrete_items(args[0])
    if items is None:
        o = list_of(I, args[0])
        h = I.h(o)
        if isinstance(h, HList):
            items = list(h.items)
    if items is not None:
        if not items:
            if 'default' in kwargs:
                return kwargs['default']
            I.raise_(ValueError, 'empty sequence')
        best = items[0]
        bk = I.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            k = I.call(key, [x], {}) if key is not None else x
            if I.branch(I.order(op, k, bk), 'better'):
                best, bk = x, k
        return best
    I.content(o)
    ty, t = h.ty, h.t
    n = ty.n(t)
    if not I.branch(n > 0, 'not empty'):
        if 'default' in kwargs:
            return kwargs['default']
        I.raise_(ValueError, 'empty sequence')
    lt, eq = key_order(I, ty.elem, key, key and (lambda x: ty.has(t, x)))
    m = I.ctx.fresh('extreme_ix', z3.IntSort())
    best = ty.get(t, m)
    j = z3.Int('xj')
    x = z3.Const('xx', ty.elem.sort)
    better = (lambda u, v: lt(u, v)) if op == '<' else (lambda u, v: lt(v, u))
    I.assume(z3.And(0 <= m, m < n, ty.has(t, best)))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(better(ty.get(t, j), best))),
                       patterns=[ty.get(t, j)]))
    I.assume(z3.ForAll([x], z3.Implies(ty.has(t, x), z3.Not(better(x, best))), patterns=[ty.has(t, x)]))
    I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), better(best, ty.get(t, j))), patterns=[ty.get(t, j)]))
    return ty.elem.wrap(I, best)


def b_len(I, v):
    if isinstance(v, (str, bytes, tuple, range)):
        return len(v)
    if isinstance(v, SlotRef):
        v = I.slot_value(v)
    items = I.concrete_items(v)
    if items is not None:
        return len(items)
    if isinstance(v, Sym):
        if v.ty is STR:
            return INT.wrap(I, World.strings.length(v.t))
        if v.ty is BYTES:
            return INT.wrap(I, z3.Length(v.t))
        if isinstance(v.ty, Abs) and '__len__' in v.ty.methods:
            return v.ty.methods['__len__'](I, v, [], {})
    if isinstance(v, DictView):
        v = v.obj
    if isinstance(v, Obj):
        h = I.content(v)
        if isinstance(h, HSym):
            if isinstance(h.ty, (ListTy, DictTy)):
                if v.id in I.touched:
                    raise Unsupported('len of a default dict after lookups')
                return INT.wrap(I, h.ty.n(h.t))
            # size of a set
            f = z3.Function('enum_n:' + h.ty.elem.tyname, h.ty.mem(h.t).sort(), z3.IntSort())
            I.enumerate_set(h.ty.elem, h.ty.mem(h.t))
            return INT.wrap(I, f(h.ty.mem(h.t)))
        if isinstance(h, HInst) and isinstance(h.cls, ClassVal) and h.cls.lookup('__len__'):
            return I.call(h.cls.lookup('__len__'), [v], {})
        if isinstance(h, HInst) and hasattr(h.cls, 'methods') and '__len__' in h.cls.methods:
            return h.cls.methods['__len__'](I, v, [], {})
    view = I.seq_view(v)
    if view is not None:
        return INT.wrap(I, view.n)
    raise Unsupported(f'len of {v!r}')


def b_isinstance(I, v, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(I, v, c) for c in cls)
    if isinstance(v, Obj):
        h = I.h(v)
        if isinstance(h, HInst):
            if isinstance(cls, ClassVal) and isinstance(h.cls, ClassVal):
                return cls in h.cls.mro()
            if isinstance(cls, PyType):
                return I.subclass(h.cls, cls)
            return False
        names = {'list': list, 'dict': dict, 'set': set}
        k = tuple if getattr(h, 'tuple', False) else names[h.kind]
        return isinstance(cls, PyType) and issubclass(k, cls.pytype)
    if isinstance(v, StrSub):
        return (cls in v.cls.mro()) if isinstance(cls, ClassVal) else \
            isinstance(cls, PyType) and issubclass(str, cls.pytype)
    if isinstance(v, Sym):
        ty = v.ty
        m = {STR: str, BYTES: bytes, INT: int, BOOL: bool}
        if ty in m:
            return isinstance(cls, PyType) and issubclass(m[ty], cls.pytype)
        if isinstance(ty, EnumTy):
            return _in_enum(ty.cls, cls)
        if getattr(ty, 'cls', None):
            c = I.resolve(ty.cls) if isinstance(ty.cls, str) else ty.cls
            return isinstance(cls, ClassVal) and cls in c.mro()
        if isinstance(ty, Abs):
            pyn = ty.pyname or ty.tyname
            if isinstance(cls, (ClassVal, PyType)):
                return cls.name == pyn or (isinstance(cls, PyType) and cls.pytype is object)
            if isinstance(cls, ExtMod):
                return cls.name.split('.')[-1] == pyn or cls.name == pyn
        if ty is INSTANT:
            return isinstance(cls, ExtMod) and cls.name.endswith('datetime')
        return False
    if isinstance(v, EnumMember):
        return _in_enum(v.cls, cls)
    if isinstance(v, (str, bytes, bool, int, float, tuple, type(None))):
        return isinstance(cls, PyType) and isinstance(v, cls.pytype)
    if isinstance(v, (ClassVal, PyType)):
        return isinstance(cls, PyType) and cls.pytype in (type, object)
    if isinstance(v, (FuncVal, GenVal, BoundMethod)):
        return isinstance(cls, PyType) and cls.pytype is object
    raise Unsupported(f'isinstance of {v!r}')


def _in_enum(c, cls):
    if isinstance(cls, ExtMod):
        return cls.name == 'enum.Enum' or any(isinstance(b, ExtMod) and b.name == cls.name for b in c.mro())
    return isinstance(cls, ClassVal) and cls in c.mro()


def b_next(I, it, default=NotImplementedVal):
    if isinstance(it, IterVal):
        if getattr(it, 'used', False):
            raise Unsupported('second next on an iterator')
        it.used = True
        src = it.src
    else:
        src = it
        if isinstance(it, GenVal):
            if getattr(it, 'used', False):
                raise Unsupported('second next on a generator')
            it.used = True
    if not isinstance(src, GenVal) and I.concrete_items(src) is None:
        view = I.seq_view(src)
        if view is not None:
            if I.branch(view.n > 0, 'next: not empty'):
                return view.elem(z3.IntVal(0))
            if default is not NotImplementedVal:
                return default
            I.raise_(StopIteration)
    cell = I.alloc(HEnv({}))     # in the heap: the step may run for a generic iteration

    def step(x):
        I.set_field(cell, 'next', x)
        raise BreakSig
    try:
        I.iterate(src, step)
    except BreakSig:
        return I.h(cell).fields['next']
    if default is not NotImplementedVal:
        return default
    I.raise_(StopIteration)


def b_enumerate(I, it, start=0):
    items = I.concrete_items(it)
    if items is None and isinstance(it, GenVal):
        it = to_list(I, it)
        items = I.concrete_items(it)
    if items is not None:
        return I.new_list([(INT.wrap(I, I.int_term(start) + k) if not isinstance(start, int) else start + k, x)
                           for k, x in enumerate(items)])
    view = I.seq_view(it)
    if view is None:
        raise Unsupported('enumerate')
    return SeqView(view.n, lambda i: (INT.wrap(I, (i if z3.is_expr(i) else z3.IntVal(i)) + I.int_term(start)),
                                      view.elem(i)), view.trigger)


def b_zip(I, *its):
    cs = [I.concrete_items(x) for x in its]
    if all(c is not None for c in cs):
        return I.new_list(list(zip(*cs)))
    views = []
    for x, c in zip(its, cs):
        if isinstance(x, GenVal):
            x = to_list(I, x)
        v = I.seq_view(x)
        if v is None:
            raise Unsupported('zip')
        views.append(v)
    n = views[0].n
    for v in views[1:]:
        n = z3.If(v.n < n, v.n, n)
    return SeqView(n, lambda i: tuple(v.elem(i) for v in views), views[0].trigger)


def b_reversed(I, it):
    items = I.concrete_items(it)
    if items is not None:
        return I.new_list(list(reversed(items)))
    o = it
    h = I.content(o) if isinstance(o, Obj) else None
    if isinstance(h, HSym) and isinstance(h.ty, ListTy):
        return I.getslice(o, None, None, -1)
    if isinstance(it, SlotRef):
        return I.getslice(I.slot_value(it), None, None, -1)
    view = I.seq_view(it)
    if view is not None:
        return I.getslice(to_list(I, it), None, None, -1)
    raise Unsupported('reversed')


def b_map(I, f, *its):
    if len(its) == 1:
        src = its[0]

        def run(step):
            I.iterate(src, lambda x: step(I.call(f, [x], {})))
        return GenVal(run, 'map')
    z = b_zip(I, *its)

    def run(step):
        I.iterate(z, lambda x: step(I.call(f, list(x), {})))
    return GenVal(run, 'map')


def b_filter(I, f, it):
    def run(step):
        def inner(x):
            if I.branch(I.truth(x if f is None else I.call(f, [x], {})), 'filter'):
                step(x)
        I.iterate(it, inner)
    return GenVal(run, 'filter')


def b_sum(I, it, start=0):
    items = I.concrete_items(it)
    if items is None and isinstance(it, GenVal):
        o = to_list(I, it)
        items = I.concrete_items(o)
    if items is None:
        raise Unsupported('sum of a symbolic sequence')
    import ast
    acc = start
    for x in items:
        acc = I.binop(ast.Add(), acc, x)
    return acc


def b_range(I, *args):
    if all(isinstance(a, int) for a in args):
        return range(*args)
    if len(args) == 1:
        n = I.int_term(args[0])
        return SeqView(z3.If(n > 0, n, z3.IntVal(0)), lambda i: INT.wrap(I, i if z3.is_expr(i) else z3.IntVal(i)))
    if len(args) == 2:
        a, b = I.int_term(args[0]), I.int_term(args[1])
        return SeqView(z3.If(b > a, b - a, z3.IntVal(0)), lambda i: INT.wrap(I, a + i))
    raise Unsupported('range with step')


TYPES = [int, str, bytes, bool, float, list, tuple, dict, set, frozenset, object, type]


def make(I):
    d = {}

    def fn(name, f):
        def g(I, args, kwargs, _f=f, _n=name):
            key = 'builtins.' + _n
            if key in I.ext:
                return I.ext[key](I, args, kwargs)
            return _f(I, *args, **kwargs)
        d[name] = ExtFn(name, g)

    for t in TYPES:
        d[t.__name__] = PyType(t)
    for n in dir(B):
        v = getattr(B, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = PyType(v)
    fn('len', b_len)
    fn('range', b_range)
    fn('sorted', b_sorted)
    fn('reversed', b_reversed)
    d['min'] = ExtFn('min', lambda I, a, k: b_extreme(I, a, k, '<'))
    d['max'] = ExtFn('max', lambda I, a, k: b_extreme(I, a, k, '>'))
    fn('sum', b_sum)
    fn('any', lambda I, it: any_(I, it, lambda x: I.truth(x)))
    fn('all', lambda I, it: not any_(I, it, lambda x: _not(I.truth(x))))
    fn('map', b_map)
    fn('filter', b_filter)
    fn('zip', b_zip)
    fn('enumerate', b_enumerate)
    fn('iter', lambda I, x, *end: CallIter(x, *end) if end else x if isinstance(x, (GenVal, IterVal, CallIter)) else IterVal(x))
    fn('next', b_next)
    fn('print', lambda I, *a, **k: None)
    fn('isinstance', b_isinstance)
    fn('issubclass', lambda I, a, b: I.subclass(a, b))
    fn('hasattr', lambda I, o, n: _hasattr(I, o, n))
    fn('getattr', b_getattr)
    fn('setattr', lambda I, o, n, v: I.setattr(o, n, v))
    fn('callable', lambda I, o: isinstance(o, (FuncVal, BoundMethod, ExtFn, ClassVal, PartialVal, BuiltinMethod)))
    fn('repr', lambda I, v: I.to_repr(v))
    fn('abs', lambda I, v: abs(v) if isinstance(v, int) else INT.wrap(I, z3.If(v.t >= 0, v.t, -v.t)))
    fn('id', lambda I, v: v.id if isinstance(v, Obj) else id(v))
    fn('vars', lambda I, *a: I.getattr(a[0], '__dict__') if a else None)
    fn('open', lambda I, *a, **k: I.ext['builtins.open'](I, list(a), k) if 'builtins.open' in I.ext else _unsupported('open'))
    fn('divmod', lambda I, a, b: divmod(a, b))
    fn('round', lambda I, *a: round(*a) if all(isinstance(x, (int, float)) for x in a) else _unsupported('round'))
    fn('ord', lambda I, c: ord(c))
    fn('chr', lambda I, c: chr(c))
    fn('hash', lambda I, c: _unsupported('hash'))
    fn('exit', lambda I, *a: I.raise_(SystemExit, *a))
    d['NotImplemented'] = NotImplementedVal
    d['__name__'] = 'module'
    d['Ellipsis'] = None
    return d


def _unsupported(what):
    raise Unsupported(what)


def _not(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)


def _hasattr(I, o, n):
    from .interp import MISSING
    return I.getattr_opt(o, n) is not MISSING


def b_getattr(I, o, n, *default):
    from .interp import MISSING
    r = I.getattr_opt(o, n)
    if r is MISSING:
        if default:
            return default[0]
        I.raise_(AttributeError, n)
    return r


# ---------------------------------------------------------------- type calls

def call_type(I, f, args, kwargs):
    t = f.pytype
    if issubclass(t, BaseException):
        return I.make_exc(f, args)
    if t is list:
        return to_list(I, args[0]) if args else I.new_list()
    if t is tuple:
        if not args:
            return ()
        items = I.concrete_items(args[0])
        if items is not None:
            return tuple(items)
        o = to_list(I, args[0])
        h = I.h(o)
        if isinstance(h, HList):
            return tuple(h.items)
        I.set_h(o, HSym(h.ty, h.t, None, True))
        return o
    if t in (set, frozenset):
        return to_set(I, args[0]) if args else I.alloc(HSet(()))
    if t is dict:
        return to_dict(I, args[0] if args else None, kwargs)
    if t is str:
        if not args:
            return ''
        return I.to_str(args[0])
    if t is bool:
        r = I.truth(args[0]) if args else False
        return r if isinstance(r, bool) else BOOL.wrap(I, r)
    if t is int:
        v = args[0] if args else 0
        if isinstance(v, (int, float, str, bytes)) and all(isinstance(a, int) for a in args[1:]):
            try:
                return int(v, *args[1:])
            except Exception as e:
                I.raise_(type(e), str(e))
        if isinstance(v, Sym) and v.ty in (INT, BOOL):
            return INT.wrap(I, I.int_term(v))
        if isinstance(v, Sym) and v.ty is STR and len(args) == 1:
            ok = I.uf('int_ok', BOOL, STR)(v.t)
            if I.branch(ok, 'is a number'):
                return INT.wrap(I, I.uf('int_of', INT, STR)(v.t))
            I.raise_(ValueError, 'invalid literal for int')
        raise Unsupported(f'int({v!r})')
    if t is bytes:
        v = args[0] if args else b''
        if isinstance(v, bytes):
            return v
        if isinstance(v, int):
            return bytes(v)
        raise Unsupported('bytes()')
    if t is object:
        return I.alloc(HInst(PyType(object), {}))
    if t is type:
        return I.class_of(args[0])
    if t is float:
        if isinstance(args[0], (int, float, str)):
            return float(args[0])
    raise Unsupported(f'{t.__name__}()')


def type_method(I, ty, name, args, kwargs):
    if ty.pytype is dict and name == 'fromkeys':
        o = I.alloc(HDict(()))
        v = args[1] if len(args) > 1 else None
        I.iterate(args[0], lambda k: I.mutate(o, 'store', k, v))
        return o
    if ty.pytype is str and name == '__init__':
        return None
    if args and not name.startswith('__'):
        return call_method(I, args[0], name, args[1:], kwargs)
    raise Unsupported(f'{ty.name}.{name}')


# ---------------------------------------------------------------- container operators

def as_kind(I, v):
    if isinstance(v, DictView):
        return 'set' if v.what == 'keys' else None
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, Obj):
        h = I.h(v)
        if isinstance(h, HSym) and h.tuple:
            return 'tuple'
        return getattr(h, 'kind', None)
    return None


def set_pair(I, a, b):
    '''(type, term a, term b) of two sets; None when both are concrete.'''
    oa, ob = to_set(I, a), to_set(I, b)
    ha, hb = I.h(oa), I.h(ob)
    if isinstance(ha, HSym):
        return ha.ty, ha.t, I.h_term(hb, ha.ty), oa, ob
    if isinstance(hb, HSym):
        return hb.ty, I.h_term(ha, hb.ty), hb.t, oa, ob
    return None, None, None, oa, ob


def set_op(I, op, a, b):
    ty, ta, tb, oa, ob = set_pair(I, a, b)
    if ty is None:
        xs, ys = I.h(oa).items, I.h(ob).items
        sure = True
        r = []

        def has(zs, x):
            return I.or_([I.eq(x, z) for z in zs])
        if op == '|':
            I.content(oa)
            o = I.alloc(HSet(xs))
            for y in ys:
                I.apply(o, 'add', (y,))
            return o
        for x in xs:
            c = has(ys, x)
            if op == '&':
                if I.branch(c, 'in both'):
                    r.append(x)
            elif op in ('-', '^'):
                if not I.branch(c, 'in second'):
                    r.append(x)
        if op == '^':
            for y in ys:
                if not I.branch(has(xs, y), 'in first'):
                    r.append(y)
        return I.alloc(HSet(r))
    ma, mb = ty.mem(ta), ty.mem(tb)
    return I.alloc(HSym(ty, I.set_op(ty, op, ma, mb)))


def container_op(I, op, a, b):
    from .interp import MISSING
    ka, kb = as_kind(I, a), as_kind(I, b)
    if ka in ('list', 'tuple') and kb == ka and op == '+':
        la, lb = list_of(I, a), list_of(I, b)
        ha, hb = I.content(la), I.content(lb)
        if isinstance(ha, HList) and isinstance(hb, HList):
            return I.new_list(ha.items + hb.items) if ka == 'list' else ha.items + hb.items
        ty = ha.ty if isinstance(ha, HSym) else hb.ty
        x, y = I.h_term(ha, ty), I.h_term(hb, ty)
        if isinstance(ha, HList) and not ha.items:
            return I.alloc(HSym(ty, y, None, ka == 'tuple'))
        if isinstance(hb, HList) and not hb.items:
            return I.alloc(HSym(ty, x, None, ka == 'tuple'))
        return I.alloc(HSym(ty, I.list_concat(ty, x, y), None, ka == 'tuple'))
    if ka in ('list', 'tuple') and isinstance(b, int) and op == '*':
        items = I.concrete_items(a)
        if items is not None:
            return I.new_list(items * b) if ka == 'list' else tuple(items * b)
    if ka == 'set' and kb == 'set' and op in ('|', '&', '-', '^'):
        return set_op(I, op, a, b)
    if ka == 'dict' and kb == 'dict' and op == '|':
        o = to_dict(I, a)
        dict_update(I, o, b)
        return o
    return MISSING


# ---------------------------------------------------------------- methods

def host(v):
    if isinstance(v, (str, bytes, int, float)) or v is None:
        return True
    if isinstance(v, (tuple,)):
        return all(host(x) for x in v)
    return False


def from_host(I, r):
    if isinstance(r, list):
        return I.new_list([from_host(I, x) for x in r])
    if isinstance(r, tuple):
        return tuple(from_host(I, x) for x in r)
    if host(r):
        return r
    raise Unsupported(f'host result {r!r}')


def call_method(I, recv, name, args, kwargs):
    if isinstance(recv, SlotRef):
        return slot_method(I, recv, name, args, kwargs)
    if isinstance(recv, (str, bytes, int, float)) and not isinstance(recv, StrSub) or isinstance(recv, StrSub) \
            or (isinstance(recv, Sym) and recv.ty in (STR, BYTES)):
        return str_method(I, recv, name, args, kwargs)
    if isinstance(recv, tuple):
        if name == 'index' or name == 'count':
            if host(recv) and all(host(a) for a in args):
                try:
                    return getattr(recv, name)(*args)
                except ValueError as e:
                    I.raise_(ValueError, str(e))
        raise Unsupported(f'tuple.{name}')
    if isinstance(recv, Obj):
        h = I.h(recv)
        k = h.kind
        if k == 'list':
            return list_method(I, recv, h, name, args, kwargs)
        if k == 'set':
            return set_method(I, recv, h, name, args, kwargs)
        if k == 'dict':
            return dict_method(I, recv, h, name, args, kwargs)
    if isinstance(recv, DictView):
        if name == 'isdisjoint':
            return set_method(I, to_set(I, recv), None, name, args, kwargs)
    if isinstance(recv, (GenVal, IterVal)):
        if name == '__next__':
            return b_next(I, recv)
        if name == 'close':
            return None
    raise Unsupported(f'method {name} of {recv!r}')


def str_method(I, recv, name, args, kwargs):
    if host(recv) and all(host(a) for a in args) and all(host(a) for a in kwargs.values()):
        try:
            return from_host(I, getattr(recv, name)(*args, **kwargs))
        except Unsupported:
            raise
        except Exception as e:
            I.raise_(type(e), *e.args)
    key = f'str.{name}'
    if key in I.ext and not isinstance(recv, bytes):
        return I.ext[key](I, [recv] + args, kwargs)
    if name == 'join':
        return str_join(I, recv, args[0])
    if name == 'format' and isinstance(recv, str):
        return str_format(I, recv, args, kwargs)
    S = World.strings
    if isinstance(recv, (bytes,)) or (isinstance(recv, Sym) and recv.ty is BYTES):
        t = BYTES.unwrap(I, recv)
        if name == 'decode':
            return STR.wrap(I, z3.Function('decode:' + S.name, BYTES.sort, STR.sort)(t))
        if name == 'hex':
            return STR.wrap(I, z3.Function('hex:' + S.name, BYTES.sort, STR.sort)(t))
        if name in ('startswith', 'endswith') and len(args) == 1:
            a = BYTES.unwrap(I, args[0])
            return BOOL.wrap(I, z3.PrefixOf(a, t) if name == 'startswith' else z3.SuffixOf(a, t))
        raise Unsupported(f'bytes.{name}')
    t = STR.unwrap(I, recv)
    if name in ('startswith', 'endswith') and len(args) == 1:
        op = S.prefixof if name == 'startswith' else S.suffixof
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        return BOOL.wrap(I, z3.simplify(z3.Or(*[op(STR.unwrap(I, a), t) for a in opts])))
    if name == 'encode':
        # bytes of ASCII text are the same characters; otherwise an unknown encoding
        if S.name == 'theory' and ascii_term(t):
            return BYTES.wrap(I, t)
        return BYTES.wrap(I, z3.Function('encode:' + S.name, STR.sort, BYTES.sort)(t))
    if name in ('removeprefix', 'removesuffix'):
        a = STR.unwrap(I, args[0])
        pre = name == 'removeprefix'
        if not I.branch((S.prefixof if pre else S.suffixof)(a, t), name):
            return STR.wrap(I, t)
        n = S.length(t) - S.length(a)
        return STR.wrap(I, S.substr(t, S.length(a) if pre else z3.IntVal(0), n))
    if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isidentifier', 'isdecimal',
                'isprintable', 'isascii', 'isnumeric'):
        return BOOL.wrap(I, I.uf('str.' + name, BOOL, STR)(t))
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase',
                'replace', 'zfill', 'ljust', 'rjust', 'expandtabs', 'center'):
        return pure_uf(I, 'str.' + name, STR, [recv] + args)
    if name in ('find', 'rfind', 'count'):
        return pure_uf(I, 'str.' + name, INT, [recv] + args)
    if name in ('partition', 'rpartition'):
        parts = tuple(pure_uf(I, f'str.{name}.{k}', STR, [recv] + args) for k in range(3))
        ts = [STR.unwrap(I, x) for x in parts]
        I.assume(S.concat(*ts) == t)
        sep = STR.unwrap(I, args[0])
        I.assume(z3.Implies(S.contains(t, sep), ts[1] == sep))
        I.assume(z3.Implies(z3.Not(S.contains(t, sep)), z3.And(ts[1] == S.lit(''),
                                                             ts[2 if name == 'partition' else 0] == S.lit(''))))
        return parts
    raise Unsupported(f'str.{name}')


def ascii_term(t):
    '''Is the string ASCII by its construction?'''
    if z3.is_string_value(t):
        return all(ord(c) < 128 for c in t.as_string()) and '\\' not in t.as_string()
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        return all(ascii_term(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return ascii_term(t.arg(1)) and ascii_term(t.arg(2))
    return k == z3.Z3_OP_INT_TO_STR


def pure_uf(I, name, ret, args):
    tys = [I.type_of_scalar(a) for a in args]
    if any(t is None for t in tys):
        raise Unsupported(name)
    ts = [t.unwrap(I, a) for t, a in zip(tys, args)]
    f = z3.Function(f'{name}/{len(args)}:' + World.strings.name, *[t.sort() for t in ts], ret.sort)
    return ret.wrap(I, f(*ts))


def str_join(I, sep, it):
    items = I.concrete_items(it)
    if items is None:
        o = list_of(I, it)
        h = I.content(o)
        if isinstance(h, HList):
            items = list(h.items)
        else:
            f = z3.Function('str.join:' + World.strings.name, STR.sort, h.ty.sort, STR.sort)
            # equal strings for equal element sequences, and when it is empty, is all that is known
            r = f(STR.unwrap(I, sep), h.t)
            if isinstance(sep, str) and sep and isinstance(h.ty, ListTy) and h.ty.elem is STR:
                n, none = h.ty.n(h.t), STR.unwrap(I, '')
                I.ctx.assume(z3.Implies(n == 0, r == none))
                I.ctx.assume(z3.Implies(z3.And(r == none, n != 0), z3.And(n == 1, h.ty.get(h.t, z3.IntVal(0)) == none)))
            return STR.wrap(I, r)
    parts = []
    for k, x in enumerate(items):
        if k:
            parts.append(sep)
        parts.append(x)
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return STR.wrap(I, World.strings.concat(*[STR.unwrap(I, p) for p in parts if p != '' or not isinstance(p, str)]))


def str_format(I, fmt, args, kwargs):
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if spec or conv:
            parts.append(STR.wrap(I, I.fresh('formatted', STR.sort)))
            continue
        first, *rest = field.split('.')
        if '[' in field:
            raise Unsupported('format field')
        if first == '':
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            if first not in kwargs:
                I.raise_(KeyError, first)
            v = kwargs[first]
        for r in rest:
            v = I.getattr(v, r)
        parts.append(I.to_str(v))
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return STR.wrap(I, World.strings.concat(*[STR.unwrap(I, p) for p in parts]))


def slot_method(I, slot, name, args, kwargs):
    h = I.h(slot.obj)
    if name == 'append':
        I.mutate(slot.obj, 'slotappend', slot.key, args[0])
        return None
    if name == 'extend':
        def step(x):
            I.mutate(slot.obj, 'slotappend', slot.key, x)
        I.iterate(args[0], step)
        return None
    if name == 'add':
        I.mutate(slot.obj, 'slotadd', slot.key, args[0])
        return None
    if name in ('index', 'count', 'copy', '__contains__', 'isdisjoint', 'issubset', 'issuperset', 'union',
                'intersection', 'difference'):
        return call_method(I, I.slot_value(slot), name, args, kwargs)
    raise Unsupported(f'{name} on a container inside of a dict')


def list_method(I, o, h, name, args, kwargs):
    if name == 'append':
        I.mutate(o, 'append', args[0])
        return None
    if name == 'extend':
        it = args[0]
        items = I.concrete_items(it)
        if items is not None:
            if items:
                I.mutate(o, 'extend_items', tuple(items))
            return None
        if isinstance(it, GenVal):
            I.iterate(it, lambda x: I.mutate(o, 'append', x))
            return None
        src = list_of(I, it)
        sh = I.content(src)
        if isinstance(sh, HList):
            I.mutate(o, 'extend_items', sh.items)
        else:
            I.mutate(o, 'extend', sh.ty, sh.t)
        return None
    if name == 'pop':
        h = I.content(o)
        if isinstance(h, HList):
            if not h.items:
                I.raise_(IndexError, 'pop from empty list')
            k = args[0] if args else -1
            if isinstance(k, int):
                items = list(h.items)
                try:
                    v = items.pop(k)
                except IndexError as e:
                    I.raise_(IndexError, str(e))
                I.mutate(o, 'replace', HList(items))
                return v
        elif not args or args[0] == -1:
            ty, t = h.ty, h.t
            if not I.branch(ty.n(t) > 0, 'list not empty'):
                I.raise_(IndexError, 'pop from empty list')
            v = ty.elem.wrap(I, ty.get(t, ty.n(t) - 1))
            I.mutate(o, 'pop')
            return v
        raise Unsupported('list.pop')
    if name == 'sort':
        new = I.ext['builtins.sorted'](I, [o], kwargs) if 'builtins.sorted' in I.ext else b_sorted(I, o, **kwargs)
        I.mutate(o, 'replace', I.h(new))
        return None
    if name == 'copy':
        return to_list(I, o)
    if name == 'clear':
        I.mutate(o, 'replace', HList(()))
        return None
    if name == 'reverse':
        new = b_reversed(I, o)
        I.mutate(o, 'replace', I.h(new))
        return None
    h = I.content(o)
    if isinstance(h, HList):
        items = list(h.items)
        if name == 'insert' and isinstance(args[0], int):
            items.insert(args[0], args[1])
            I.mutate(o, 'replace', HList(items))
            return None
        if name in ('remove', 'index'):
            for k, x in enumerate(items):
                if I.branch(I.eq(x, args[0]), 'equal'):
                    if name == 'index':
                        return k
                    del items[k]
                    I.mutate(o, 'replace', HList(items))
                    return None
            I.raise_(ValueError, 'not in list')
        if name == 'count':
            n = 0
            for x in items:
                if I.branch(I.eq(x, args[0]), 'equal'):
                    n += 1
            return n
    else:
        ty, t = h.ty, h.t
        if name == 'index':
            x = ty.elem.unwrap(I, args[0])
            if not I.branch(ty.has(t, x), 'in list'):
                I.raise_(ValueError, 'not in list')
            k = I.fresh('index', z3.IntSort())
            j = z3.Int('ij')
            I.assume(z3.And(0 <= k, k < ty.n(t), ty.get(t, k) == x))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), ty.get(t, j) != x), patterns=[ty.get(t, j)]))
            return INT.wrap(I, k)
        if name == 'insert' and args[0] == 0 and isinstance(args[0], int):
            x = ty.elem.unwrap(I, args[1])
            one = ty.append(ty.empty(), x)
            I.mutate(o, 'replace', HSym(ty, I.list_concat(ty, one, t)))
            return None
        if name == 'remove':
            x = ty.elem.unwrap(I, args[0])
            if not I.branch(ty.has(t, x), 'in list'):
                I.raise_(ValueError, 'not in list')
            k = I.fresh('index', z3.IntSort())
            j = z3.Int('ij')
            I.assume(z3.And(0 <= k, k < ty.n(t), ty.get(t, k) == x))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), ty.get(t, j) != x), patterns=[ty.get(t, j)]))
            n = ty.n(t)
            new = I.map_list(ty, n - 1, lambda i: ty.get(t, z3.If(i < k, i, i + 1)), lambda i: ty.get(t, i))
            nh = I.h(new)
            # every other element is still there
            I.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), ty.get(nh.t, j) == ty.get(t, j)),
                               patterns=[ty.get(t, j)]))
            I.assume(z3.ForAll([j], z3.Implies(z3.And(k < j, j < n), ty.get(nh.t, j - 1) == ty.get(t, j)),
                               patterns=[ty.get(t, j)]))
            I.mutate(o, 'replace', nh)
            return None
    raise Unsupported(f'list.{name}')


def set_method(I, o, h, name, args, kwargs):
    if name == 'add':
        I.mutate(o, 'add', args[0])
        return None
    if name in ('discard', 'remove'):
        if name == 'remove':
            c = I.contains(o, args[0])
            if not I.branch(c, 'in set'):
                I.raise_(KeyError, args[0])
        I.mutate(o, 'discard', args[0])
        return None
    if name == 'update':
        for it in args:
            items = I.concrete_items(it)
            if items is not None:
                for x in items:
                    I.mutate(o, 'add', x)
            elif isinstance(it, GenVal):
                I.iterate(it, lambda x: I.mutate(o, 'add', x))
            else:
                s = I.h(to_set(I, it))
                I.mutate(o, 'union', s.ty, s.t)
        return None
    if name == 'clear':
        I.mutate(o, 'replace', HSet(()))
        return None
    if name == 'copy':
        return to_set(I, o)
    ops = {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}
    if name in ops:
        r = to_set(I, o)
        for a in args:
            r = set_op(I, ops[name], r, to_set(I, a))
        return r
    if name in ('difference_update', 'intersection_update'):
        r = to_set(I, o)
        for a in args:
            r = set_op(I, '-' if name[0] == 'd' else '&', r, to_set(I, a))
        I.mutate(o, 'replace', I.h(r))
        return None
    if name in ('issubset', 'issuperset'):
        r = I.order('<=' if name == 'issubset' else '>=', o, to_set(I, args[0]))
        return r if isinstance(r, bool) else BOOL.wrap(I, r)
    if name == 'isdisjoint':
        r = I.truth(set_op(I, '&', o, to_set(I, args[0])))
        return (not r) if isinstance(r, bool) else BOOL.wrap(I, z3.Not(r))
    if name == 'pop':
        h = I.content(o)
        if isinstance(h, HSet):
            if not h.items:
                I.raise_(KeyError, 'pop from an empty set')
            k = I.ctx.choose(len(h.items), 'popped element')
            x = h.items[k]
            I.mutate(o, 'replace', HSet(h.items[:k] + h.items[k + 1:]))
            return x
        if not I.branch(I.nonempty(h, o), 'set not empty'):
            I.raise_(KeyError, 'pop from an empty set')
        x = I.fresh('popped', h.ty.elem.sort)
        I.assume(h.ty.has(h.t, x))
        v = h.ty.elem.wrap(I, x)
        I.mutate(o, 'discard', v)
        return v
    raise Unsupported(f'set.{name}')


def dict_method(I, o, h, name, args, kwargs):
    if name in ('keys', 'values', 'items'):
        return DictView(o, name)
    if name == 'get':
        default = args[1] if len(args) > 1 else kwargs.get('default')
        h = I.content(o)
        if isinstance(h, HDict):
            for k, v in h.items:
                e = I.eq(k, args[0])
                if e is True or (e is not False and I.branch(e, 'key is equal')):
                    return v
            return default
        ty = h.ty
        if o.id in I.touched:
            raise Unsupported('get from a default dict after lookups')
        k = ty.key.unwrap(I, args[0])
        if I.branch(ty.has(h.t, k), 'key present'):
            return SlotRef(o, args[0]) if isinstance(ty.val, (ListTy, SetTy)) else ty.val.wrap(I, ty.get(h.t, k))
        return default
    if name == 'pop':
        c = I.contains(o, args[0])
        if not I.branch(c, 'key present'):
            if len(args) > 1:
                return args[1]
            I.raise_(KeyError, args[0])
        v = I.getitem(o, args[0])
        if isinstance(v, SlotRef):
            v = I.slot_value(v)
        I.mutate(o, 'delete', args[0])
        return v
    if name == 'setdefault':
        c = I.contains(o, args[0])
        if I.branch(c, 'key present'):
            return I.getitem(o, args[0])
        d = args[1] if len(args) > 1 else None
        I.mutate(o, 'store', args[0], d)
        return I.getitem(o, args[0])
    if name == 'update':
        for a in args:
            dict_update(I, o, a)
        for k, v in kwargs.items():
            I.mutate(o, 'store', k, v)
        return None
    if name == 'copy':
        r = to_dict(I, o)
        return r
    if name == 'clear':
        I.mutate(o, 'replace', HDict((), getattr(h, 'default', None)))
        return None
    raise Unsupported(f'dict.{name}')
