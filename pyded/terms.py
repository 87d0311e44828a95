'''
SMT level vocabulary: sorts/types used by the verifier, and the string back ends.

A *type* (`Ty`) knows the z3 sort of its values, how to turn a z3 term into an
interpreter value (`wrap`) and an interpreter value into a z3 term (`unwrap`).
'''
import z3


class Unsupported(Exception):
    '''The code (or a spec) leaves the subset the verifier handles: undecided.'''


# ---------------------------------------------------------------- strings

class TheoryStrings:
    '''Python str/bytes as z3 (unicode) strings.'''
    name = 'theory'
    sort = z3.StringSort()

    def lit(self, s):
        out = []
        for c in s:
            o = ord(c)
            if 32 <= o < 127 and c != '\\':
                out.append(c)
            else:
                out.append('\\u{%x}' % o)
        return z3.StringVal(''.join(out))

    def concat(self, *ts):
        ts = list(ts)
        if not ts:
            return self.lit('')
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def length(self, t):
        return z3.Length(t)

    def prefixof(self, p, t):
        return z3.PrefixOf(p, t)

    def suffixof(self, p, t):
        return z3.SuffixOf(p, t)

    def contains(self, t, sub):
        return z3.Contains(t, sub)

    def substr(self, t, start, length):
        return z3.SubString(t, start, length)

    def from_int(self, i):
        # str(i) for i >= 0 (z3 gives '' for negative)
        return z3.If(i >= 0, z3.IntToStr(i), z3.Concat(z3.StringVal('-'), z3.IntToStr(-i)))

    def axioms(self):
        return []


class AbstractStrings:
    '''
    Python str as an uninterpreted sort: literals are distinct constants,
    operations are uninterpreted functions (sound: fewer facts are known).
    '''
    name = 'abstract'

    def __init__(self):
        self.sort = z3.DeclareSort('PyStr')
        S, I, B = self.sort, z3.IntSort(), z3.BoolSort()
        self.f_cat = z3.Function('s_cat', S, S, S)
        self.f_len = z3.Function('s_len', S, I)
        self.f_prefix = z3.Function('s_prefix', S, S, B)
        self.f_suffix = z3.Function('s_suffix', S, S, B)
        self.f_contains = z3.Function('s_contains', S, S, B)
        self.f_substr = z3.Function('s_substr', S, I, I, S)
        self.f_int = z3.Function('s_int', I, S)
        # a countable total order can be embedded in the rationals
        self.f_rank = z3.Function('s_rank', S, z3.RealSort())
        self.f_unrank = z3.Function('s_unrank', z3.RealSort(), S)
        self.ranked = False
        self.lits = {}

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const('str:' + repr(s), self.sort)
        return self.lits[s]

    def concat(self, *ts):
        ts = list(ts)
        if not ts:
            return self.lit('')
        # merge adjacent literals so that 'a'+'b' is the literal 'ab'
        rev = {v.get_id(): k for k, v in self.lits.items()}
        flat = []
        for t in ts:
            k = rev.get(t.get_id())
            if k == '':
                continue
            if k is not None and flat and flat[-1].get_id() in rev:
                flat[-1] = self.lit(rev[flat[-1].get_id()] + k)
                rev[flat[-1].get_id()] = [kk for kk, vv in self.lits.items() if vv.eq(flat[-1])][0]
            else:
                flat.append(t)
        if not flat:
            return self.lit('')
        r = flat[0]
        for t in flat[1:]:
            r = self.f_cat(r, t)
        return r

    def length(self, t):
        return self.f_len(t)

    def prefixof(self, p, t):
        if p.eq(self.lit('')):
            return z3.BoolVal(True)
        return self.f_prefix(p, t)

    def suffixof(self, p, t):
        return self.f_suffix(p, t)

    def contains(self, t, sub):
        return self.f_contains(t, sub)

    def substr(self, t, start, length):
        return self.f_substr(t, start, length)

    def from_int(self, i):
        return self.f_int(i)

    def rank(self, t):
        self.ranked = True
        return self.f_rank(t)

    def axioms(self):
        ls = list(self.lits.values())
        out = []
        if len(ls) > 1:
            out.append(z3.Distinct(*ls))
        for k, v in self.lits.items():
            out.append(self.f_len(v) == len(k))
        x = z3.Const('sx', self.sort)
        if self.ranked:
            out.append(z3.ForAll([x], self.f_unrank(self.f_rank(x)) == x, patterns=[self.f_rank(x)]))
        if '' in self.lits:
            out.append(z3.ForAll([x], z3.And(self.f_len(x) >= 0, (self.f_len(x) == 0) == (x == self.lits[''])),
                                 patterns=[self.f_len(x)]))
        return out


class World:
    '''Per verification unit SMT environment.'''
    strings = TheoryStrings()
    sorts = {}
    opaque = []

    @classmethod
    def reset(cls, mode):
        cls.strings = TheoryStrings() if mode == 'theory' else AbstractStrings()
        cls.sorts = {}
        cls.opaque = []
        for t in Ty.registry:
            t._sort = None

    @classmethod
    def axioms(cls):
        return cls.strings.axioms() + [a for t in cls.opaque for a in t.axioms()]


# ---------------------------------------------------------------- types

class Ty:
    registry = []
    pyname = 'object'

    def __init__(self):
        self._sort = None
        Ty.registry.append(self)

    @property
    def sort(self):
        if self._sort is None:
            self._sort = self.make_sort()
        return self._sort

    def wrap(self, ctx, term):
        return Sym(self, term)

    def unwrap(self, ctx, value):
        if isinstance(value, Sym) and value.ty is self:
            return value.t
        raise Unsupported(f'cannot use {value!r} as {self}')

    def accepts(self, value):
        return isinstance(value, Sym) and value.ty is self

    def __repr__(self):
        return self.tyname

    def fresh(self, ctx, name):
        t = ctx.fresh(name, self.sort)
        for a in self.wf(ctx, t):
            ctx.assume(a)
        return t

    def wf(self, ctx, term):
        '''Facts that hold for all values of the type.'''
        return []

    has_wf = False


class Sym:
    '''A symbolic scalar: a z3 term with its type.'''
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return f'<{self.ty}: {str(self.t)[:60]}>'


class _Int(Ty):
    tyname = 'int'

    def make_sort(self):
        return z3.IntSort()

    def unwrap(self, ctx, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        return super().unwrap(ctx, v)

    def accepts(self, v):
        return (isinstance(v, int) and not isinstance(v, bool)) or super().accepts(v)

    def wrap(self, ctx, t):
        t = z3.simplify(t) if z3.is_int_value(t) is False and t.num_args() == 0 else t
        if z3.is_int_value(t):
            return t.as_long()
        return Sym(self, t)


class _Bool(Ty):
    tyname = 'bool'

    def make_sort(self):
        return z3.BoolSort()

    def unwrap(self, ctx, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        return super().unwrap(ctx, v)

    def accepts(self, v):
        return isinstance(v, bool) or super().accepts(v)

    def wrap(self, ctx, t):
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return Sym(self, t)


class _Str(Ty):
    tyname = 'str'

    def make_sort(self):
        return World.strings.sort

    def unwrap(self, ctx, v):
        if isinstance(v, str):
            return World.strings.lit(v)
        if isinstance(v, StrSub):
            return v.t
        return super().unwrap(ctx, v)

    def accepts(self, v):
        return isinstance(v, (str, StrSub)) or super().accepts(v)


class StrSub(Sym):
    '''A value of a str subclass (class value, underlying text).'''
    __slots__ = ('cls',)

    def __init__(self, cls, t):
        super().__init__(STR, t)
        self.cls = cls


class _Bytes(Ty):
    tyname = 'bytes'

    def make_sort(self):
        return z3.StringSort()

    def unwrap(self, ctx, v):
        if isinstance(v, bytes):
            return TheoryStrings().lit(v.decode('latin-1'))
        return super().unwrap(ctx, v)

    def accepts(self, v):
        return isinstance(v, bytes) or super().accepts(v)


class _Instant(Ty):
    '''An aware datetime, seen as the instant it denotes, in microseconds.'''
    tyname = 'datetime'

    def make_sort(self):
        return z3.IntSort()


class _NoneTy(Ty):
    tyname = 'None'

    def make_sort(self):
        if 'NoneSort' not in World.sorts:
            d = z3.Datatype('NoneSort')
            d.declare('none')
            World.sorts['NoneSort'] = d.create()
        return World.sorts['NoneSort']

    def wrap(self, ctx, t):
        return None

    def unwrap(self, ctx, v):
        if v is None:
            return self.sort.none
        raise Unsupported(f'{v!r} is not None')

    def accepts(self, v):
        return v is None


INT, BOOL, STR, BYTES, INSTANT, NONE = _Int(), _Bool(), _Str(), _Bytes(), _Instant(), _NoneTy()


class Abs(Ty):
    '''
    Abstract (uninterpreted) sort. `attrs` maps attribute name to a Ty (an
    uninterpreted accessor function is made) or to callable(ctx, sym) -> value.
    `methods` maps method name to callable(ctx, sym, args, kwargs).
    `cls` optionally binds it to a repo class 'module:Class' (methods inlined).
    '''

    def __init__(self, name, attrs=None, methods=None, cls=None, pyname=None):
        super().__init__()
        self.tyname = name
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.cls = cls
        self.pyname = pyname
        self.ordered = False        # values are in a total order

    def rank(self, t):
        # a countable total order can be embedded in the rationals
        return z3.Function(f'{self.tyname}.rank', self.sort, z3.RealSort())(t)

    def rank_axiom(self):
        x = z3.Const('ranked', self.sort)
        back = z3.Function(f'{self.tyname}.unrank', z3.RealSort(), self.sort)
        return z3.ForAll([x], back(self.rank(x)) == x, patterns=[self.rank(x)])

    def make_sort(self):
        return z3.DeclareSort(self.tyname)

    def acc(self, attr):
        ty = self.attrs[attr]
        return z3.Function(f'{self.tyname}.{attr}', self.sort, ty.sort)

    def get(self, ctx, sym, attr):
        spec = self.attrs[attr]
        if isinstance(spec, Ty):
            t = self.acc(attr)(sym.t)
            if spec.has_wf:
                for a in spec.wf(ctx, t):
                    ctx.assume(a)
            return spec.wrap(ctx, t)
        return spec(ctx, sym)


class Rec(Ty):
    '''Record (datatype) sort: structural equality, fields readable, optional repo class.'''

    def __init__(self, name, fields, cls=None, attrs=None, methods=None, opaque=False):
        super().__init__()
        self.tyname = name
        self.fields = dict(fields)
        self.opaque = opaque    # uninterpreted sort with accessors instead of a datatype (a weaker theory)
        self.cls = cls
        self.attrs = attrs or {}
        self.methods = methods or {}

    @property
    def has_wf(self):
        return any(t.has_wf for t in self.fields.values())

    def wf(self, ctx, t):
        return [a for f, ty in self.fields.items() if ty.has_wf for a in ty.wf(ctx, self.f(f, t))]

    def make_sort(self):
        if self.opaque:
            so = z3.DeclareSort(self.tyname)
            World.opaque.append(self)
            self.acc = [z3.Function(f'{self.tyname}.{f}', so, t.sort) for f, t in self.fields.items()]
            self.con = z3.Function('mk_' + self.tyname, *[t.sort for t in self.fields.values()], so)
            return so
        d = z3.Datatype(self.tyname)
        d.declare('mk_' + self.tyname, *[(f'{self.tyname}.{f}', t.sort) for f, t in self.fields.items()])
        return d.create()

    def axioms(self):
        vs = [z3.Const(f'f{i}', t.sort) for i, t in enumerate(self.fields.values())]
        c = self.con(*vs)
        return [z3.ForAll(vs, z3.And(*[a(c) == v for a, v in zip(self.acc, vs)]), patterns=[c])] if vs else []

    def _parts(self):
        self.sort
        if self.opaque:
            return self.con, self.acc
        return self.sort.constructor(0), [self.sort.accessor(0, i) for i in range(len(self.fields))]

    def mk(self, *terms):
        return self._parts()[0](*terms)

    def f(self, field, term):
        i = list(self.fields).index(field)
        con, acc = self._parts()
        return term.arg(i) if z3.is_app(term) and term.decl().eq(con) else acc[i](term)

    def get(self, ctx, sym, attr):
        if attr in self.fields:
            return self.fields[attr].wrap(ctx, self.f(attr, sym.t))
        spec = self.attrs[attr]
        return spec(ctx, sym)

    def unwrap(self, ctx, v):
        if isinstance(v, Sym) and v.ty is self:
            return v.t
        fields = ctx.inst_fields(v, self.cls)
        if fields is None:
            raise Unsupported(f'cannot use {v!r} as {self}')
        ts = []
        for f, ty in self.fields.items():
            if f in fields:
                ts.append(ty.unwrap(ctx, fields[f]))
            else:
                ts.append(ty.unwrap(ctx, ctx.getattr(v, f)))
        return self.mk(*ts)

    def accepts(self, v):
        return isinstance(v, Sym) and v.ty is self


class DictRec(Rec):
    '''A dict with constant keys, as an immutable value (writing to it is outside of the verifier).'''

    def __init__(self, name, fields):
        super().__init__(name, fields)
        self.methods = {'get': self._get, '__getitem__': self._item, '__contains__': self._has}

    def _get(self, ctx, sym, a, k):
        if not isinstance(a[0], str):
            raise Unsupported('key of a record dict')
        if a[0] in self.fields:
            return Rec.get(self, ctx, sym, a[0])
        return a[1] if len(a) > 1 else k.get('default')

    def _item(self, ctx, sym, a, k):
        if not isinstance(a[0], str):
            raise Unsupported('key of a record dict')
        if a[0] not in self.fields:
            ctx.raise_(KeyError, a[0])
        return Rec.get(self, ctx, sym, a[0])

    def _has(self, ctx, sym, a, k):
        if not isinstance(a[0], str):
            raise Unsupported('key of a record dict')
        return a[0] in self.fields

    def unwrap(self, ctx, v):
        if isinstance(v, Sym) and v.ty is self:
            return v.t
        items = ctx.dict_items(v)
        if items is None or set(items) != set(self.fields):
            raise Unsupported(f'cannot use {v!r} as {self}')
        return self.mk(*[ty.unwrap(ctx, items[f]) for f, ty in self.fields.items()])


class Tup(Ty):
    def __init__(self, *tys):
        super().__init__()
        self.tys = tys
        self.tyname = '(' + ','.join(t.tyname for t in tys) + ')'

    @property
    def has_wf(self):
        return any(t.has_wf for t in self.tys)

    def wf(self, ctx, t):
        return [a for i, ty in enumerate(self.tys) if ty.has_wf for a in ty.wf(ctx, self.item(i, t))]

    def make_sort(self):
        key = 'T' + self.tyname
        if key not in World.sorts:
            d = z3.Datatype(key)
            d.declare('mk_' + key, *[(f'{key}.{i}', t.sort) for i, t in enumerate(self.tys)])
            World.sorts[key] = d.create()
        return World.sorts[key]

    def mk(self, *terms):
        return self.sort.constructor(0)(*terms)

    def item(self, i, term):
        r = self.sort.accessor(0, i)(term)
        return z3.simplify(r) if term.decl().eq(self.sort.constructor(0)) else r

    def wrap(self, ctx, t):
        return tuple(ty.wrap(ctx, self.item(i, t)) for i, ty in enumerate(self.tys))

    def unwrap(self, ctx, v):
        if isinstance(v, tuple) and len(v) == len(self.tys):
            return self.mk(*[ty.unwrap(ctx, x) for ty, x in zip(self.tys, v)])
        raise Unsupported(f'cannot use {v!r} as {self}')

    def accepts(self, v):
        return isinstance(v, tuple) and len(v) == len(self.tys) and all(t.accepts(x) for t, x in zip(self.tys, v))


class Union(Ty):
    '''Tagged union; reading one branches on the tag.'''

    def __init__(self, name, alts):
        super().__init__()
        self.tyname = name
        self.alts = dict(alts)

    @property
    def has_wf(self):
        return any(t.has_wf for t in self.alts.values())

    def wf(self, ctx, t):
        return [z3.Implies(self.is_(k, t), a) for k, ty in self.alts.items() if ty.has_wf
                for a in ty.wf(ctx, self.val(k, t))]

    def make_sort(self):
        d = z3.Datatype(self.tyname)
        for a, ty in self.alts.items():
            if ty is NONE:
                d.declare(f'{self.tyname}_{a}')
            else:
                d.declare(f'{self.tyname}_{a}', (f'{self.tyname}.{a}', ty.sort))
        return d.create()

    def is_(self, alt, term):
        i = list(self.alts).index(alt)
        return self.sort.recognizer(i)(term)

    def val(self, alt, term):
        i = list(self.alts).index(alt)
        return self.sort.accessor(i, 0)(term)

    def mk(self, alt, *term):
        i = list(self.alts).index(alt)
        c = self.sort.constructor(i)
        return c(*term) if term else c()

    def wrap(self, ctx, t):
        alts = list(self.alts)
        for a in alts[:-1]:
            if ctx.branch(self.is_(a, t), f'is {a}'):
                return self._w(ctx, a, t)
        ctx.assume(self.is_(alts[-1], t))
        return self._w(ctx, alts[-1], t)

    def _w(self, ctx, a, t):
        ty = self.alts[a]
        return None if ty is NONE else ty.wrap(ctx, self.val(a, t))

    def unwrap(self, ctx, v):
        for a, ty in self.alts.items():
            if ty.accepts(v):
                return self.mk(a) if ty is NONE else self.mk(a, ty.unwrap(ctx, v))
        for a, ty in self.alts.items():
            if ty is NONE:
                continue
            try:
                return self.mk(a, ty.unwrap(ctx, v))
            except Unsupported:
                pass
        raise Unsupported(f'cannot use {v!r} as {self}')

    def accepts(self, v):
        return any(t.accepts(v) for t in self.alts.values())


def Opt(ty):
    key = 'opt:' + ty.tyname
    for t in Ty.registry:
        if t.tyname == f'Opt[{ty.tyname}]' and t.alts['some'] is ty:
            return t
    return Union(f'Opt[{ty.tyname}]', dict(none=NONE, some=ty))


ENUM_SORTS = {}     # the solver wants each to be declared once


class EnumTy(Ty):
    '''Members of a repo Enum class.'''

    def __init__(self, name, cls):
        super().__init__()
        self.tyname = name
        self.cls = cls

    def make_sort(self):
        names = list(self.cls.members)
        key = f'{self.cls.qualname}{names}'
        if key not in ENUM_SORTS:
            ENUM_SORTS[key] = z3.EnumSort(key, [f'{key}.{n}' for n in names])
        sort, consts = ENUM_SORTS[key]
        self.consts = dict(zip(names, consts))
        return sort

    def of(self, name):
        self.sort
        return self.consts[name]

    def unwrap(self, ctx, v):
        if isinstance(v, EnumMember):
            return self.of(v.name)
        return super().unwrap(ctx, v)

    def accepts(self, v):
        return isinstance(v, EnumMember) or super().accepts(v)


class EnumMember:
    def __init__(self, cls, name, value, index):
        self.cls, self.name, self.value, self.index = cls, name, value, index

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


# ---------------------------------------------------------------- containers
# The *content* of a symbolic container is one z3 term of a datatype sort, so
# that containers can be nested; the heap cell holds (ty, term).

def _dt(key, mkname, fields):
    if key not in World.sorts:
        d = z3.Datatype(key)
        d.declare(mkname, *fields)
        World.sorts[key] = d.create()
    return World.sorts[key]


class Container(Ty):
    has_wf = True

    def fld(self, i, term):
        if z3.is_app(term) and term.decl().eq(self.sort.constructor(0)):
            return term.arg(i)
        return self.sort.accessor(0, i)(term)

    def wrap(self, ctx, t):
        return ctx.new_container(self, t)

    def unwrap(self, ctx, v):
        return ctx.container_term(v, self)

    def accepts(self, v):
        return False


NEST = [0]


def nested_wf(ctx, ty, index_sort, at, guard):
    '''wf of the elements'''
    if not ty.has_wf:
        return []
    NEST[0] += 1
    k = z3.Const(f'nest{NEST[0]}', index_sort)
    try:
        facts = ty.wf(ctx, at(k))
    finally:
        NEST[0] -= 1
    return [z3.ForAll([k], z3.Implies(guard(k), a), patterns=[at(k)], qid='heavy') for a in facts]


class ListTy(Container):
    '''n: length, at: elements, mem: set of elements.'''

    def __init__(self, elem):
        super().__init__()
        self.elem = elem
        self.tyname = f'list[{elem.tyname}]'

    def make_sort(self):
        e = self.elem.sort
        return _dt('L:' + self.elem.tyname, 'mk_list:' + self.elem.tyname,
                   [('n:' + self.elem.tyname, z3.IntSort()),
                    ('at:' + self.elem.tyname, z3.ArraySort(z3.IntSort(), e)),
                    ('mem:' + self.elem.tyname, z3.ArraySort(e, z3.BoolSort()))])

    def mk(self, n, at, mem):
        return self.sort.constructor(0)(n, at, mem)

    def n(self, t):
        return self.fld(0, t)

    def at(self, t):
        return self.fld(1, t)

    def mem(self, t):
        return self.fld(2, t)

    def has(self, t, x):
        return z3.Select(self.mem(t), x)

    def get(self, t, i):
        return z3.Select(self.at(t), i)

    def idx(self):
        return z3.Function('idx:' + self.elem.tyname, self.sort, self.elem.sort, z3.IntSort())

    def fresh(self, ctx, name):
        n = ctx.fresh(name + '.n', z3.IntSort())
        at = ctx.fresh(name + '.at', z3.ArraySort(z3.IntSort(), self.elem.sort))
        mem = ctx.fresh(name + '.mem', z3.ArraySort(self.elem.sort, z3.BoolSort()))
        t = self.mk(n, at, mem)
        for a in self.wf(ctx, t):
            ctx.assume(a)
        return t

    def wf(self, ctx, t):
        '''length, and mem = {at[i]} (with a witness index function).'''
        i = z3.Int(f'wi{NEST[0]}')
        x = z3.Const(f'wx{NEST[0]}', self.elem.sort)
        n, at, mem = self.n(t), self.at(t), self.mem(t)
        idx = z3.Function('idx:' + self.elem.tyname, z3.ArraySort(self.elem.sort, z3.BoolSort()),
                          z3.ArraySort(z3.IntSort(), self.elem.sort), self.elem.sort, z3.IntSort())
        return [
            n >= 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), mem[at[i]]), patterns=[at[i]]),
            z3.ForAll([x], z3.Implies(mem[x], z3.And(0 <= idx(mem, at, x), idx(mem, at, x) < n,
                                                     at[idx(mem, at, x)] == x)), patterns=[mem[x]]),
        ] + nested_wf(ctx, self.elem, z3.IntSort(), lambda k: at[k], lambda k: z3.And(0 <= k, k < n))

    def empty(self):
        return self.mk(z3.IntVal(0), z3.Const('noelems:' + self.elem.tyname, z3.ArraySort(z3.IntSort(), self.elem.sort)),
                       z3.K(self.elem.sort, z3.BoolVal(False)))

    def append(self, t, x):
        return self.mk(self.n(t) + 1, z3.Store(self.at(t), self.n(t), x), z3.Store(self.mem(t), x, z3.BoolVal(True)))


class SetTy(Container):
    def __init__(self, elem):
        super().__init__()
        self.elem = elem
        self.tyname = f'set[{elem.tyname}]'

    def make_sort(self):
        e = self.elem.sort
        return _dt('S:' + self.elem.tyname, 'mk_set:' + self.elem.tyname,
                   [('smem:' + self.elem.tyname, z3.ArraySort(e, z3.BoolSort()))])

    def mk(self, mem):
        return self.sort.constructor(0)(mem)

    def mem(self, t):
        return self.fld(0, t)

    def has(self, t, x):
        return z3.Select(self.mem(t), x)

    def fresh(self, ctx, name):
        return self.mk(ctx.fresh(name + '.mem', z3.ArraySort(self.elem.sort, z3.BoolSort())))

    def empty(self):
        return self.mk(z3.K(self.elem.sort, z3.BoolVal(False)))

    def add(self, t, x):
        return self.mk(z3.Store(self.mem(t), x, z3.BoolVal(True)))

    def remove(self, t, x):
        return self.mk(z3.Store(self.mem(t), x, z3.BoolVal(False)))


class DictTy(Container):
    '''dom: key set, val: values, n: number of keys.'''

    def __init__(self, key, val, default=None):
        super().__init__()
        self.key = key
        self.val = val
        self.default = default      # 'list' for defaultdict(list)
        self.tyname = f'dict[{key.tyname},{val.tyname}]'

    def make_sort(self):
        k, v = self.key.sort, self.val.sort
        nm = self.tyname
        return _dt('D:' + nm, 'mk_dict:' + nm,
                   [('dom:' + nm, z3.ArraySort(k, z3.BoolSort())),
                    ('val:' + nm, z3.ArraySort(k, v)),
                    ('dn:' + nm, z3.IntSort())])

    def mk(self, dom, val, n):
        return self.sort.constructor(0)(dom, val, n)

    def dom(self, t):
        return self.fld(0, t)

    def vals(self, t):
        return self.fld(1, t)

    def n(self, t):
        return self.fld(2, t)

    def has(self, t, k):
        return z3.Select(self.dom(t), k)

    def get(self, t, k):
        return z3.Select(self.vals(t), k)

    def fresh(self, ctx, name):
        k, v = self.key.sort, self.val.sort
        t = self.mk(ctx.fresh(name + '.dom', z3.ArraySort(k, z3.BoolSort())),
                    ctx.fresh(name + '.val', z3.ArraySort(k, v)),
                    ctx.fresh(name + '.n', z3.IntSort()))
        for a in self.wf(ctx, t):
            ctx.assume(a)
        return t

    def wf(self, ctx, t):
        x = z3.Const(f'wk{NEST[0]}', self.key.sort)
        wit = z3.Function('anykey:' + self.tyname, z3.ArraySort(self.key.sort, z3.BoolSort()), self.key.sort)
        d = self.dom(t)
        out = [self.n(t) >= 0,
               z3.ForAll([x], z3.Implies(d[x], self.n(t) >= 1), patterns=[d[x]]),
               z3.Implies(self.n(t) > 0, d[wit(d)])]
        v = self.vals(t)
        return out + nested_wf(ctx, self.val, self.key.sort, lambda k: v[k], lambda k: d[k])

    def empty(self):
        return self.mk(z3.K(self.key.sort, z3.BoolVal(False)),
                       z3.Const('novals:' + self.tyname, z3.ArraySort(self.key.sort, self.val.sort)), z3.IntVal(0))

    def store(self, t, k, v):
        return self.mk(z3.Store(self.dom(t), k, z3.BoolVal(True)), z3.Store(self.vals(t), k, v),
                       z3.If(self.has(t, k), self.n(t), self.n(t) + 1))

    def delete(self, t, k):
        return self.mk(z3.Store(self.dom(t), k, z3.BoolVal(False)), self.vals(t), self.n(t) - 1)


_cache = {}


def ListOf(t):
    return _cache.setdefault(('L', id(t)), None) or _cache.__setitem__(('L', id(t)), ListTy(t)) or _cache[('L', id(t))]


def SetOf(t):
    return _cache.setdefault(('S', id(t)), None) or _cache.__setitem__(('S', id(t)), SetTy(t)) or _cache[('S', id(t))]


def DictOf(k, v, default=None):
    key = ('D', id(k), id(v), default)
    return _cache.setdefault(key, None) or _cache.__setitem__(key, DictTy(k, v, default)) or _cache[key]


def TupOf(*tys):
    key = ('T',) + tuple(id(t) for t in tys)
    return _cache.setdefault(key, None) or _cache.__setitem__(key, Tup(*tys)) or _cache[key]
