'''Interpreter values.'''
from .terms import Unsupported


class Obj:
    '''Reference to a heap object.'''
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __eq__(self, other):
        return isinstance(other, Obj) and other.id == self.id

    def __hash__(self):
        return hash(('Obj', self.id))

    def __repr__(self):
        return f'<obj {self.id}>'


# heap content (immutable records)

class HInst:
    kind = 'inst'
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields


class HEnv:
    kind = 'env'
    __slots__ = ('fields',)

    def __init__(self, fields):
        self.fields = fields


class HList:
    kind = 'list'
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class HSet:
    kind = 'set'
    __slots__ = ('items', 'frozen')

    def __init__(self, items):
        self.items = tuple(items)


class HDict:
    kind = 'dict'
    __slots__ = ('items', 'default')

    def __init__(self, items, default=None):
        self.items = tuple(items)
        self.default = default


class HSym:
    '''Container with symbolic content.'''
    __slots__ = ('ty', 't', 'default', 'tuple')

    def __init__(self, ty, t, default=None, tuple=False):
        self.ty = ty
        self.t = t
        self.default = default
        self.tuple = tuple

    @property
    def kind(self):
        from .terms import ListTy, SetTy
        if isinstance(self.ty, ListTy):
            return 'list'
        if isinstance(self.ty, SetTy):
            return 'set'
        return 'dict'


class Poison:
    def __init__(self, why):
        self.why = why


class SlotRef:
    '''d[k] of a dict with list/set values: a reference into the dict.'''
    def __init__(self, dict_obj, key):
        self.obj = dict_obj
        self.key = key


# callables, classes, modules

class FuncVal:
    def __init__(self, node, frame, module, qualname, cls=None, defaults=(), kwdefaults=None, is_gen=False,
                 decorators=()):
        self.node = node
        self.frame = frame
        self.module = module
        self.qualname = qualname
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.is_gen = is_gen
        self.decorators = decorators

    def __repr__(self):
        return f'<function {self.qualname}>'


class BoundMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class BuiltinMethod:
    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return f'<method {self.name} of {self.recv!r}>'


class ExtFn:
    '''Model of an external function: fn(I, args, kwargs).'''
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<ext {self.name}>'


class PartialVal:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class PropertyVal:
    def __init__(self, getter, setter=None, cached=False):
        self.getter, self.setter, self.cached = getter, setter, cached


class ClassMethodVal:
    def __init__(self, func):
        self.func = func


class StaticMethodVal:
    def __init__(self, func):
        self.func = func


class ClassVal:
    def __init__(self, name, qualname, bases, module):
        self.name = name
        self.qualname = qualname
        self.bases = bases
        self.module = module
        self.ns = {}
        self.attr_fields = None     # attr.s: list of AttrField
        self.attr_frozen = False
        self.is_enum = False
        self.members = {}

    def mro(self):
        # linear C3-like enough for this code base (single inheritance mostly)
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return f'<class {self.qualname}>'


class AttrField:
    def __init__(self, name, default=None, has_default=False, factory=None, converter=None, kw_only=False):
        self.name = name
        self.default = default
        self.has_default = has_default
        self.factory = factory
        self.converter = converter
        self.kw_only = kw_only


class ModVal:
    '''A module of the repository.'''
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<module {self.name}>'


class ExtMod:
    '''A module or namespace outside of the repository.'''
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<ext {self.name}>'


class PyType:
    '''A builtin python type/exception class.'''
    def __init__(self, pytype):
        self.pytype = pytype
        self.name = pytype.__name__

    def __eq__(self, o):
        return isinstance(o, PyType) and o.pytype is self.pytype

    def __hash__(self):
        return hash(self.pytype)

    def __repr__(self):
        return f'<type {self.name}>'


class GenVal:
    '''Lazy iterable: run(step) calls step for each element.'''
    def __init__(self, run, name='generator'):
        self.run = run
        self.name = name


class SeqView:
    '''Symbolic indexable sequence: length term, element function i -> value.'''
    def __init__(self, n, elem, trigger=None, ty=None, at=None):
        self.n = n
        self.elem = elem
        self.trigger = trigger
        self.ty = ty        # type of the elements and
        self.at = at        # the element terms, when they are known


class DictView:
    def __init__(self, obj, what):
        self.obj = obj
        self.what = what


class IterVal:
    def __init__(self, src):
        self.src = src


class CallIter:
    '''iter(call, sentinel)'''
    def __init__(self, call, sentinel):
        self.call = call
        self.sentinel = sentinel


class SuperVal:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


NotImplementedVal = object()
