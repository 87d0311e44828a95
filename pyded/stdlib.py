'''
Contracts of standard library functions that are the same for all properties.
(pure python helpers, modelled exactly)
'''
import z3

from .terms import (Sym, StrSub, Unsupported, INT, BOOL, STR, BYTES, Abs, ListOf, World)
from .core import PyRaise
from .values import *
from . import pybuiltins as PB


def defaultdict(I, args, kw):
    f = args[0] if args else None
    if isinstance(f, PyType) and f.pytype is list:
        d = 'list'
    elif isinstance(f, PyType) and f.pytype is set:
        d = 'set'
    else:
        d = f
    o = I.alloc(HDict((), d))
    if len(args) > 1:
        PB.dict_update(I, o, args[1])
    return o


def partial(I, args, kw):
    return PartialVal(args[0], tuple(args[1:]), dict(kw))


def chain(I, args, kw):
    def run(step):
        for a in args:
            I.iterate(a, step)
    return GenVal(run, 'chain')


def chain_from_iterable(I, args, kw):
    def run(step):
        I.iterate(args[0], lambda x: I.iterate(x, step))
    return GenVal(run, 'chain')


def attrgetter(I, args, kw):
    def get(I, a, k):
        vals = []
        for n in args:
            v = a[0]
            for p in n.split('.'):
                v = I.getattr(v, p)
            vals.append(v)
        return vals[0] if len(vals) == 1 else tuple(vals)
    return ExtFn('attrgetter', get)


def itemgetter(I, args, kw):
    def get(I, a, k):
        vals = [I.getitem(a[0], n) for n in args]
        return vals[0] if len(vals) == 1 else tuple(vals)
    return ExtFn('itemgetter', get)


def methodcaller(I, args, kw):
    return ExtFn('methodcaller', lambda I, a, k: I.call(I.getattr(a[0], args[0]), list(args[1:]), dict(kw)))


def islice(I, args, kw):
    o = PB.to_list(I, args[0])
    lo, hi = (0, args[1]) if len(args) == 2 else (args[1], args[2])
    return I.getslice(o, lo, hi, None)


def takewhile(I, args, kw):
    from .core import BreakSig

    def run(step):
        def inner(x):
            if not I.branch(I.truth(I.call(args[0], [x], {})), 'takewhile'):
                raise BreakSig
            step(x)
        try:
            I.iterate(args[1], inner)
        except BreakSig:
            pass
    return GenVal(run, 'takewhile')


def reduce(I, args, kw):
    f, it = args[0], args[1]
    items = I.concrete_items(it)
    if items is None:
        raise Unsupported('reduce over a symbolic sequence')
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = I.call(f, [acc, x], {})
    return acc


def closing(I, args, kw):
    from .interp import ExtClass
    o = I.alloc(HInst(CLOSING, {'thing': args[0]}))
    return o


def _closing_exit(I, o, a, k):
    I.call(I.getattr(I.get_field(o, 'thing'), 'close'), [], {})
    return None


def attr_evolve(I, args, kw):
    obj = args[0]
    c = I.class_of(obj)
    if not isinstance(c, ClassVal) or c.attr_fields is None:
        raise Unsupported('evolve')
    vals = {f.name.lstrip('_'): kw[f.name.lstrip('_')] if f.name.lstrip('_') in kw else I.getattr(obj, f.name)
            for f in c.attr_fields}
    for k in kw:
        if k not in vals:
            I.raise_(TypeError, f'unexpected argument {k}')
    return I.call(c, [], vals) if all(f.kw_only for f in c.attr_fields) else I.instantiate(c, [], vals)


def attr_has(I, args, kw):
    c = args[0]
    return isinstance(c, ClassVal) and c.attr_fields is not None


def attr_asdict(I, args, kw):
    c = I.class_of(args[0])
    if not isinstance(c, ClassVal) or c.attr_fields is None or len(args) > 1 or set(kw) != {'recurse'} or kw['recurse'] is not False:
        raise Unsupported('asdict')
    return I.alloc(HDict(tuple((f.name, I.getattr(args[0], f.name)) for f in c.attr_fields)))


def make_classes():
    from .interp import ExtClass
    global CLOSING, SUPPRESS
    CLOSING = ExtClass('closing', {'__enter__': lambda I, o, a, k: I.get_field(o, 'thing'), '__exit__': _closing_exit})

    def sup_exit(I, o, a, k):
        if a[1] is None:
            return False
        return I.exc_matches(a[1], I.get_field(o, 'excs'))
    SUPPRESS = ExtClass('suppress', {'__enter__': lambda I, o, a, k: None, '__exit__': sup_exit})


def suppress(I, args, kw):
    return I.alloc(HInst(SUPPRESS, {'excs': tuple(args)}))


def copied(I, x, deep):
    if isinstance(x, tuple):
        return tuple(copied(I, y, deep) for y in x) if deep else x
    if not isinstance(x, Obj):
        return x
    h = I.h(x)
    sub = (lambda y: copied(I, y, True)) if deep else (lambda y: y)
    if isinstance(h, HSym):
        return I.alloc(HSym(h.ty, h.t, h.default, h.tuple))
    if isinstance(h, HList):
        return I.alloc(HList([sub(y) for y in h.items]))
    if isinstance(h, HDict):
        return I.alloc(HDict([(k, sub(y)) for k, y in h.items], h.default))
    if isinstance(h, HSet):
        return I.alloc(HSet(h.items))
    if isinstance(h, HInst):
        return I.alloc(HInst(h.cls, {k: sub(y) for k, y in h.fields.items()}))
    raise Unsupported('copy of this kind of object')


def environ_get(I, args, kw):
    if I.ctx.choose(2, 'environment variable is set') == 0:
        return STR.wrap(I, STR.fresh(I, 'environ'))
    return args[1] if len(args) > 1 else None


def ext():
    make_classes()
    return {
        'collections.defaultdict': defaultdict,
        'functools.partial': partial,
        'functools.reduce': reduce,
        'functools.wraps': lambda I, a, k: ExtFn('wraps', lambda I, b, kk: b[0]),
        'functools.lru_cache': lambda I, a, k: a[0] if a and not isinstance(a[0], int) else ExtFn('c', lambda I, b, kk: b[0]),
        'functools.cache': lambda I, a, k: a[0],
        'itertools.chain': chain,
        'itertools.chain.from_iterable': chain_from_iterable,
        'itertools.islice': islice,
        'itertools.takewhile': takewhile,
        'operator.attrgetter': attrgetter,
        'operator.itemgetter': itemgetter,
        'operator.methodcaller': methodcaller,
        'contextlib.closing': closing,
        'contextlib.suppress': suppress,
        'copy.copy': lambda I, a, k: copied(I, a[0], False),
        'copy.deepcopy': lambda I, a, k: copied(I, a[0], True),
        'attr.evolve': attr_evolve,
        'attrs.evolve': attr_evolve,
        'attr.has': attr_has,
        'attrs.has': attr_has,
        'attr.asdict': attr_asdict,
        'attrs.asdict': attr_asdict,
        'enum.auto': lambda I, a, k: None,
        'typing.cast': lambda I, a, k: a[1],
        'typing.TYPE_CHECKING': False,
        'typing.TypeVar': lambda I, a, k: None,
        'typing.NewType': lambda I, a, k: ExtFn('newtype', lambda I, b, kk: b[0]),
        'string.ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
        'tracelog:TRACELOG': ExtFn('tracelog.TRACELOG', lambda I, a, k: None),
        'os.environ.get': environ_get,
        'sys.stderr': ExtMod('sys.stderr'),
        'sys.stdout': ExtMod('sys.stdout'),
        'sys.exit': lambda I, a, k: I.raise_(SystemExit, *a),
    }
