'''Symbolic interpreter of the python code of the repository.'''
import ast
import os
import z3

from . import terms as T
from .terms import (Sym, StrSub, Unsupported, INT, BOOL, STR, BYTES, INSTANT, NONE, Abs, Rec, Tup, EnumTy, EnumMember,
                    ListTy, SetTy, DictTy, ListOf, SetOf, DictOf, TupOf, Opt, World)
from .core import (PathEnd, PyRaise, ReturnSig, BreakSig, ContinueSig, ConsumerSig, Signal, NotSummarizable)
from .values import *
from . import values as V

REPO_TOP = ('bead', 'bead_cli', 'tracelog')

EXC_BASES = {}
MAX_DEPTH = 70


class Frame:
    __slots__ = ('module', 'env', 'parent', 'func', 'yield_cb', 'outer_names', 'cls', 'comp')

    def __init__(self, module, env, parent, func=None, yield_cb=None, cls=None):
        self.module = module
        self.env = env
        self.parent = parent
        self.func = func
        self.yield_cb = yield_cb
        self.outer_names = {}
        self.cls = cls
        self.comp = False


class ModuleSource:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.bindings = {}
        for st in self.tree.body:
            self._collect(st)

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.bindings.setdefault(st.name, []).append(st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.bindings.setdefault(a.asname or a.name.split('.')[0], []).append((st, a))
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.bindings.setdefault(a.asname or a.name, []).append((st, a))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.bindings.setdefault(n.id, []).append(st)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None and isinstance(st.target, ast.Name):
                self.bindings.setdefault(st.target.id, []).append(st)
        elif isinstance(st, ast.If):
            # `if TYPE_CHECKING:` is false, any other condition is evaluated when a name is needed
            if isinstance(st.test, ast.Name) and st.test.id == 'TYPE_CHECKING':
                for s in st.orelse:
                    self._collect(s)
            else:
                for s in st.body + st.orelse:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.bindings.setdefault(n.id, []).append(st)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._collect(s)


class Interp:
    def __init__(self, ctx, root, ext, stubs=None, loop_specs=None):
        self.ctx = ctx
        self.root = root
        self.ext = ext
        self.stubs = dict(stubs or {})
        self.loop_specs = list(loop_specs or [])
        self.sources = {}
        self.module_env = {}
        self.static_next = -1
        self.static_mode = 0
        self.records = {}
        self.depth = 0
        self.used_functions = {}
        self.used_stubs = {}
        self.used_ext = {}
        self.force_body = None
        self.rec_auto = {}
        self.dict_recs = []
        self.evaluating = set()
        self.touched = set()
        self.building = []      # containers that are being filled from an iterable
        self.role_memo = {}
        self.role_alternatives = 0
        self.alt = 0
        from . import pybuiltins
        self.builtins = pybuiltins.make(self)
        from . import loops
        self.loop_engine = loops.LoopEngine(self)

    # --- used as `ctx` by terms.py
    def fresh(self, name, sort):
        return self.ctx.fresh(name, sort)

    def assume(self, t):
        self.ctx.assume(t)

    def branch(self, t, label=''):
        if self.static_mode:
            t2 = z3.simplify(t) if not isinstance(t, bool) else t
            if isinstance(t2, bool):
                return t2
            if z3.is_true(t2) or z3.is_false(t2):
                return z3.is_true(t2)
            raise Unsupported('symbolic decision in module level code')
        return self.ctx.branch(t, label)

    def inst_fields(self, v, cls):
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, HInst):
                return {k: self.get_field(v, k) for k in h.fields}
        return None

    # ------------------------------------------------------------ heap
    def alloc(self, h):
        if self.static_mode:
            o = Obj(self.static_next)
            self.static_next -= 1
            self.ctx.static[o.id] = h
        else:
            self.ctx.nid += 1
            o = Obj(self.ctx.nid)
            self.ctx.heap[o.id] = h
        return o

    def h(self, obj):
        r = self.ctx.heap.get(obj.id)
        return r if r is not None else self.ctx.static[obj.id]

    def set_h(self, obj, h):
        if self.static_mode and obj.id < 0:
            self.ctx.static[obj.id] = h
        else:
            self.ctx.heap[obj.id] = h

    def get_field(self, obj, name):
        '''Field of instance/environment (must exist).'''
        fs = self.h(obj).fields
        v = fs[name]
        if self.ctx.loops:
            for f in self.ctx.loops:
                r = f.on_field_read(self, obj, name, v)
                if r is not None:
                    v = r
        if isinstance(v, Poison):
            raise Unsupported(f'value of {name!r}: {v.why}')
        return v

    def set_field(self, obj, name, value):
        h = self.h(obj)
        old = h.fields.get(name)
        for f in self.ctx.loops:
            f.on_field_write(self, obj, name, old)
        fs = dict(h.fields)
        fs[name] = value
        self.set_h(obj, HInst(h.cls, fs) if isinstance(h, HInst) else HEnv(fs))

    def del_field(self, obj, name):
        h = self.h(obj)
        for f in self.ctx.loops:
            f.on_field_write(self, obj, name, h.fields.get(name))
        fs = dict(h.fields)
        fs.pop(name, None)
        self.set_h(obj, HInst(h.cls, fs) if isinstance(h, HInst) else HEnv(fs))

    def content(self, obj):
        '''Content of a container for reading.'''
        for f in self.ctx.loops:
            f.on_content_read(self, obj)
        return self.h(obj)

    def mutate(self, obj, op, *args):
        '''Change a container: applied now, or logged when in a generic loop iteration.'''
        for f in reversed(self.ctx.loops):
            if f.on_mutate(self, obj, op, args):
                return
        self.apply(obj, op, args)

    # ------------------------------------------------------------ containers
    def new_container(self, ty, t):
        return self.alloc(HSym(ty, t))

    def build(self, o, fill):
        '''Fill a new container.'''
        self.building.append(o)
        try:
            fill()
        finally:
            self.building.pop()
        return o

    def new_list(self, items=()):
        return self.alloc(HList(items))

    def container_term(self, v, ty):
        if isinstance(v, SlotRef):
            v = self.slot_value(v)
        if isinstance(v, Sym) and v.ty is ty:
            return v.t
        if isinstance(v, tuple) and isinstance(ty, ListTy):
            t = ty.empty()
            for x in v:
                t = ty.append(t, ty.elem.unwrap(self, x))
            return t
        if not isinstance(v, Obj):
            raise Unsupported(f'cannot use {v!r} as {ty}')
        h = self.content(v)
        return self.h_term(h, ty)

    def h_term(self, h, ty):
        if isinstance(h, HSym):
            if h.ty is ty:
                return h.t
            raise Unsupported(f'cannot use {h.ty} as {ty}')
        if isinstance(h, HList) and isinstance(ty, ListTy):
            t = ty.empty()
            for x in h.items:
                t = ty.append(t, ty.elem.unwrap(self, x))
            return t
        if isinstance(h, HSet) and isinstance(ty, SetTy):
            t = ty.empty()
            for x in h.items:
                t = ty.add(t, ty.elem.unwrap(self, x))
            return t
        if isinstance(h, HDict) and isinstance(ty, DictTy):
            t = ty.empty()
            for k, x in h.items:
                t = ty.store(t, ty.key.unwrap(self, k), ty.val.unwrap(self, x))
            return t
        raise Unsupported(f'cannot use {h} as {ty}')

    def type_of(self, v):
        '''Ty for a value, None when it has none.'''
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, str):
            return STR
        if isinstance(v, bytes):
            return BYTES
        if isinstance(v, StrSub):
            return STR
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, tuple):
            tys = [self.type_of(x) for x in v]
            return None if None in tys else TupOf(*tys)
        if isinstance(v, EnumMember):
            return self.enum_ty(v.cls)
        if isinstance(v, SlotRef):
            v = self.slot_value(v)
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, HSym):
                return h.ty
            if isinstance(h, HInst) and isinstance(h.cls, ClassVal):
                return self.rec_for(h.cls, v)
            if isinstance(h, (HList, HSet)):
                if not h.items:
                    return None
                t = self.join_types([self.type_of(x) for x in h.items])
                return None if t is None else (ListOf(t) if isinstance(h, HList) else SetOf(t))
            if isinstance(h, HDict):
                if not h.items:
                    return None
                for r in self.dict_recs:
                    if set(r.fields) == {k for k, _ in h.items if isinstance(k, str)} and len(h.items) == len(r.fields):
                        return r
                k = self.join_types([self.type_of(k) for k, _ in h.items])
                x = self.join_types([self.type_of(x) for _, x in h.items])
                return None if k is None or x is None else DictOf(k, x)
        for rx, ty in getattr(self, 'value_types', ()):
            if rx(v):
                return ty
        if isinstance(v, FuncVal):
            if not hasattr(self, 'closure_ty'):
                from .closures import ClosureTy
                self.closure_ty = ClosureTy()
            return self.closure_ty if self.closure_ty.captured(self, v) is not None else None
        return None

    def dict_items(self, v):
        '''items of a dict with constant keys'''
        if isinstance(v, Obj) and isinstance(self.h(v), HDict):
            h = self.content(v)
            if all(isinstance(k, str) for k, _ in h.items):
                return dict(h.items)
        return None

    def join_types(self, tys):
        out = None
        for t in tys:
            if t is None:
                return None
            if out is None or out is t:
                out = t
            elif out is NONE:
                out = Opt(t)
            elif t is NONE:
                out = out if isinstance(out, T.Union) else Opt(out)
            elif isinstance(out, T.Union) and t in out.alts.values():
                pass
            elif isinstance(t, T.Union) and out in t.alts.values():
                out = t
            else:
                return None
        return out

    def enum_ty(self, cls):
        if not hasattr(cls, '_ty'):
            cls._ty = EnumTy(cls.name, cls)
        return cls._ty

    def rec_for(self, cls, obj):
        '''Record type of the instances of a class, used as immutable values.'''
        if cls.qualname in self.records:
            return self.records[cls.qualname]
        h = self.h(obj)
        key = (cls.qualname, tuple(sorted(h.fields)))
        if key not in self.rec_auto:
            fields = {}
            for k in sorted(h.fields):
                t = self.type_of(h.fields[k])
                if t is None:
                    return None
                fields[k] = t
            self.rec_auto[key] = Rec(f'{cls.name}#{len(self.rec_auto)}', fields, cls=cls.qualname)
        return self.rec_auto[key]

    def to_sym(self, obj, elem_hint=None):
        '''Make the content of a container symbolic.'''
        h = self.h(obj)
        if isinstance(h, HSym):
            return h
        ty = self.type_of(obj)
        if ty is None and elem_hint is not None and not h.items:
            ty = elem_hint
        if ty is None:
            raise Unsupported(f'no element type for {h.kind}')
        return HSym(ty, self.h_term(h, ty), getattr(h, 'default', None))

    def apply(self, obj, op, args):
        h = self.h(obj)
        new = self._apply(h, op, args)
        self.set_h(obj, new)

    def _apply(self, h, op, args):
        if op == 'become':
            return HSym(args[0], args[1], getattr(h, 'default', None))
        if isinstance(h, HList):
            if op == 'append':
                return HList(h.items + (args[0],))
            if op == 'extend_items':
                return HList(h.items + tuple(args[0]))
            if op == 'pop':
                return HList(h.items[:-1])
            if op == 'replace':
                return args[0]
            if op == 'extend':      # args: ty, term
                if not h.items:
                    return HSym(args[0], args[1])
                return self._apply(HSym(args[0], self.h_term(h, args[0])), op, args)
        elif isinstance(h, HSet):
            if op == 'add':
                for x in h.items:
                    e = self.eq(x, args[0])
                    if e is True:
                        return h
                    if e is not False:
                        ty = self.type_of(args[0])
                        return self._apply(HSym(SetOf(ty), self.h_term(h, SetOf(ty))), op, args)
                return HSet(h.items + (args[0],))
            if op == 'union':
                if not h.items:
                    return HSym(args[0], args[1])
                return self._apply(HSym(args[0], self.h_term(h, args[0])), op, args)
            if op == 'discard':
                out = []
                for x in h.items:
                    e = self.eq(x, args[0])
                    if e is True:
                        continue
                    if e is not False:
                        ty = self.type_of(args[0])
                        return self._apply(HSym(SetOf(ty), self.h_term(h, SetOf(ty))), op, args)
                    out.append(x)
                return HSet(out)
            if op == 'replace':
                return args[0]
        elif isinstance(h, HDict):
            if op == 'store':
                k, v = args
                out = []
                found = False
                for kk, vv in h.items:
                    e = self.eq(kk, k)
                    if e is True:
                        out.append((kk, v))
                        found = True
                    elif e is False:
                        out.append((kk, vv))
                    else:
                        if self.branch(e, 'same key'):
                            out.append((kk, v))
                            found = True
                        else:
                            out.append((kk, vv))
                if not found:
                    out.append((k, v))
                return HDict(out, h.default)
            if op == 'delete':
                out = []
                for kk, vv in h.items:
                    e = self.eq(kk, args[0])
                    if not (e is True or (e is not False and self.branch(e, 'same key'))):
                        out.append((kk, vv))
                return HDict(out, h.default)
            if op in ('update', 'slotmerge'):
                if not h.items:
                    return HSym(args[0], args[1], h.default)
                return self._apply(HSym(args[0], self.h_term(h, args[0]), h.default), op, args)
            if op == 'slotappend':
                k, v = args
                lt = ListOf(self.type_of(v))
                dt = DictOf(self.type_of(k), lt)
                return self._apply(HSym(dt, self.total(dt, self.h_term(h, dt)), h.default), op, args)
            if op == 'replace':
                return args[0]
        elif isinstance(h, HSym):
            ty, t = h.ty, h.t
            mk = lambda nt: HSym(ty, nt, h.default, h.tuple)
            if op == 'replace':
                return args[0]
            if isinstance(ty, ListTy):
                if op == 'append':
                    return mk(ty.append(t, ty.elem.unwrap(self, args[0])))
                if op == 'extend_items':
                    for x in args[0]:
                        t = ty.append(t, ty.elem.unwrap(self, x))
                    return mk(t)
                if op == 'extend':
                    ty2, t2 = args
                    if ty2 is not ty:
                        raise Unsupported(f'extend {ty} with {ty2}')
                    if z3.is_int_value(z3.simplify(ty.n(t))) and z3.simplify(ty.n(t)).as_long() == 0:
                        return mk(t2)
                    return mk(self.list_concat(ty, t, t2))
                if op == 'pop':
                    # last element is gone; membership becomes unknown for it only
                    n = ty.n(t)
                    new = ty.fresh(self, 'popped')
                    self.assume(ty.n(new) == n - 1)
                    i = z3.Int('i')
                    self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - 1), ty.get(new, i) == ty.get(t, i)),
                                          patterns=[ty.get(new, i), ty.get(t, i)]))
                    return mk(new)
            if isinstance(ty, SetTy):
                if op == 'add':
                    return mk(ty.add(t, ty.elem.unwrap(self, args[0])))
                if op == 'discard':
                    return mk(ty.remove(t, ty.elem.unwrap(self, args[0])))
                if op == 'union':
                    ty2, t2 = args
                    return mk(self.set_op(ty, '|', ty.mem(t), ty.mem(t2)))
            if isinstance(ty, DictTy):
                if op == 'store':
                    return mk(ty.store(t, ty.key.unwrap(self, args[0]), ty.val.unwrap(self, args[1])))
                if op == 'delete':
                    return mk(ty.delete(t, ty.key.unwrap(self, args[0])))
                if op == 'update':
                    ty2, t2 = args
                    return mk(self.dict_update(ty, t, t2))
                if op == 'slotappend':
                    k = ty.key.unwrap(self, args[0])
                    lt = ty.val
                    cur = ty.get(t, k) if h.default else ty.get(t, k)
                    return mk(ty.store(t, k, lt.append(cur, lt.elem.unwrap(self, args[1]))))
                if op == 'slotmerge':
                    ty2, t2 = args
                    raise Unsupported('merge into a non-empty dict of lists')
        raise Unsupported(f'operation {op} on {h.kind}')

    def total(self, dt, t):
        '''A dict of lists, whose values outside of its domain are empty lists.'''
        k = z3.Const('tk', dt.key.sort)
        if isinstance(dt.val, ListTy):
            self.assume(z3.ForAll([k], z3.Implies(z3.Not(dt.has(t, k)), dt.val.n(dt.get(t, k)) == 0),
                                  patterns=[dt.get(t, k)]))
            x = z3.Const('tx', dt.val.elem.sort)
            self.assume(z3.ForAll([k, x], z3.Implies(z3.Not(dt.has(t, k)), z3.Not(dt.val.has(dt.get(t, k), x))),
                                  patterns=[dt.val.has(dt.get(t, k), x)]))
        else:
            self.assume(z3.ForAll([k], z3.Implies(z3.Not(dt.has(t, k)), dt.get(t, k) == dt.val.empty())))
        return t

    def set_op(self, ty, op, a, b):
        '''Set of the elements in a op b (membership arrays), defined by its elements.'''
        if z3.is_const_array(b) and z3.is_false(b.arg(0)):
            if op in '|-^':
                return ty.mk(a)
        if z3.is_const_array(a) and z3.is_false(a.arg(0)) and op in '|^':
            return ty.mk(b)
        new = ty.fresh(self, 'set')
        m = ty.mem(new)
        x = z3.Const('op_x', ty.elem.sort)
        body = {'|': z3.Or(a[x], b[x]), '&': z3.And(a[x], b[x]), '-': z3.And(a[x], z3.Not(b[x])),
                '^': z3.Xor(a[x], b[x])}[op]
        pats = [m[x]] + [p for p in (a[x], b[x]) if z3.is_app(p.arg(0)) and p.arg(0).decl().kind() in (
            z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_SELECT)]
        self.assume(z3.ForAll([x], m[x] == body, patterns=pats))
        return new

    def list_concat(self, ty, a, b):
        new = ty.fresh(self, 'cat')
        i = z3.Int('i')
        na, nb = ty.n(a), ty.n(b)
        self.assume(ty.n(new) == na + nb)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < na), ty.get(new, i) == ty.get(a, i)),
                              patterns=[ty.get(new, i), ty.get(a, i)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(na <= i, i < na + nb), ty.get(new, i) == ty.get(b, i - na)),
                              patterns=[ty.get(new, i)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nb), ty.get(new, na + i) == ty.get(b, i)),
                              patterns=[ty.get(b, i)]))
        x = z3.Const('x', ty.elem.sort)
        self.assume(z3.ForAll([x], ty.has(new, x) == z3.Or(ty.has(a, x), ty.has(b, x)), patterns=[ty.has(new, x)]))
        self.assume(z3.ForAll([x], z3.Implies(ty.has(a, x), ty.has(new, x)), patterns=[ty.has(a, x)]))
        self.assume(z3.ForAll([x], z3.Implies(ty.has(b, x), ty.has(new, x)), patterns=[ty.has(b, x)]))
        return new

    def dict_update(self, ty, a, b):
        new = ty.fresh(self, 'upd')
        x = z3.Const('x', ty.key.sort)
        self.assume(z3.ForAll([x], z3.And(
            ty.has(new, x) == z3.Or(ty.has(a, x), ty.has(b, x)),
            ty.get(new, x) == z3.If(ty.has(b, x), ty.get(b, x), ty.get(a, x))),
            patterns=[ty.has(new, x), ty.get(new, x)]))
        self.assume(z3.ForAll([x], z3.Implies(ty.has(a, x), ty.has(new, x)), patterns=[ty.has(a, x)]))
        self.assume(z3.ForAll([x], z3.Implies(ty.has(b, x), ty.has(new, x)), patterns=[ty.has(b, x)]))
        return new

    def slot_value(self, slot):
        '''Current list/set in a dict slot, as a new container object (a copy).'''
        h = self.content(slot.obj)
        if h.default:
            self.touched.add(slot.obj.id)
        if isinstance(h, HDict):
            for kk, vv in h.items:
                e = self.eq(kk, slot.key)
                if e is True or (e is not False and self.branch(e, 'same key')):
                    return vv
            return self.new_list() if h.default == 'list' else self.alloc(HSet(()))
        k = h.ty.key.unwrap(self, slot.key)
        o = self.alloc(HSym(h.ty.val, h.ty.get(h.t, k)))
        return o

    # ------------------------------------------------------------ exceptions
    def raise_(self, pytype, *args):
        raise PyRaise(self.make_exc(pytype if isinstance(pytype, ClassVal) else PyType(pytype), args))

    def make_exc(self, cls, args=()):
        return self.alloc(HInst(cls, {'args': tuple(args)}))

    def any_exc(self, name='exc'):
        '''An exception (a subclass of Exception) of unknown class.'''
        return self.alloc(HInst(PyType(Exception), {'args': (), '?': name, 'known': ()}))

    def subclass(self, c, d):
        if isinstance(c, PyType) and isinstance(d, PyType):
            return issubclass(c.pytype, d.pytype)
        if isinstance(c, ClassVal):
            if c is d:
                return True
            return any(self.subclass(b, d) for b in c.bases)
        return c is d or (isinstance(c, ExtMod) and isinstance(d, ExtMod) and c.name == d.name)

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        h = self.h(exc)
        if '?' in h.fields:
            if self.subclass(PyType(Exception), cls):
                return True
            for c, is_ in h.fields['known']:
                if is_ and self.subclass(c, cls):
                    return True
                if not is_ and self.subclass(cls, c):
                    return False
            r = self.ctx.choose(2, f'exception is {cls}') == 0
            self.set_h(exc, HInst(h.cls, {**h.fields, 'known': h.fields['known'] + ((cls, r),)}))
            return r
        if isinstance(cls, ExtMod) and cls.name in self.ext:
            cls = self.ext[cls.name]
        return self.subclass(h.cls, cls)

    def exc_class_name(self, exc):
        h = self.h(exc)
        n = h.cls.name
        if '?' in h.fields:
            n = '?' + ','.join(c.name for c, is_ in h.fields['known'] if is_)
        return n

    # ------------------------------------------------------------ modules
    def source(self, name):
        if name not in self.sources:
            base = os.path.join(self.root, *name.split('.'))
            for p in (base + '.py', os.path.join(base, '__init__.py')):
                if os.path.isfile(p):
                    self.sources[name] = ModuleSource(name, p)
                    break
            else:
                self.sources[name] = None
        return self.sources[name]

    def is_repo_module(self, name):
        return name.split('.')[0] in REPO_TOP and self.source(name) is not None

    def mod_frame(self, name):
        if name not in self.module_env:
            self.static_mode += 1
            try:
                self.module_env[name] = Frame(name, self.alloc(HEnv({})), None)
            finally:
                self.static_mode -= 1
        return self.module_env[name]

    def mod_get(self, name, attr, missing_ok=False):
        fr = self.mod_frame(name)
        fs = self.h(fr.env).fields
        if attr in fs:
            return self.get_field(fr.env, attr)
        src = self.source(name)
        key = f'{name}:{attr}'
        if key in self.ext:
            return self.ext[key]
        if attr == '__name__':
            return name
        if attr in src.bindings:
            if (name, attr) in self.evaluating:
                if self.is_repo_module(name + '.' + attr):
                    # from . import submodule
                    return ModVal(name + '.' + attr)
                raise Unsupported(f'circular module level definition {name}.{attr}')
            self.evaluating.add((name, attr))
            self.static_mode += 1
            loops, self.ctx.loops = self.ctx.loops, []
            try:
                for b in src.bindings[attr]:
                    if isinstance(b, tuple):
                        self.exec_import(b[0], b[1], fr)
                    else:
                        self.exec_stmt(b, fr)
            finally:
                self.ctx.loops = loops
                self.static_mode -= 1
                self.evaluating.discard((name, attr))
            return self.ctx.static[fr.env.id].fields[attr]
        if self.is_repo_module(name + '.' + attr):
            return ModVal(name + '.' + attr)
        if missing_ok:
            return MISSING
        raise Unsupported(f'module {name} has no {attr}')

    def resolve(self, path):
        '''"pkg.mod:Class.attr" -> value'''
        mod, _, rest = path.partition(':')
        if self.source(mod) is None:
            raise LookupError(path)
        parts = rest.split('.')
        v = self.mod_get(mod, parts[0], missing_ok=True)
        if v is MISSING:
            raise LookupError(path)
        for p in parts[1:]:
            n = v.lookup(p) if isinstance(v, ClassVal) else None
            if n is None:
                raise LookupError(path)
            v = n
        return v

    def exec_import(self, st, alias, fr):
        if isinstance(st, ast.Import):
            name = alias.name
            top = name.split('.')[0]
            if self.is_repo_module(name):
                self.assign_name(fr, alias.asname or top, ModVal(name if alias.asname else top))
            else:
                self.assign_name(fr, alias.asname or top, ExtMod(name if alias.asname else top))
            return
        mod = st.module or ''
        if st.level:
            parts = fr.module.split('.')
            is_pkg = self.source(fr.module).path.endswith('__init__.py')
            base = parts if is_pkg else parts[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if self.is_repo_module(mod):
            v = self.mod_get(mod, alias.name)
        else:
            v = self.ext_get(mod + '.' + alias.name)
        self.assign_name(fr, alias.asname or alias.name, v)

    def ext_get(self, name):
        if name in self.ext:
            v = self.ext[name]
            if callable(v) and not isinstance(v, (PyType, Obj)):
                return ExtFn(name, v)
            return v
        if name in ('builtins',):
            return ExtMod(name)
        return ExtMod(name)

    # ------------------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            fs = self.h(f.env).fields
            if name in fs and f.parent is not None and (f is fr or f.cls is None):
                return self.get_field(f.env, name)
            if f.parent is None:
                break
            f = f.parent
        v = self.mod_get(fr.module, name, missing_ok=True)
        if v is not MISSING:
            return v
        if name in self.builtins:
            return self.builtins[name]
        raise Unsupported(f'name {name!r} is not known in {fr.module}')

    def assign_name(self, fr, name, value):
        where = fr.outer_names.get(name)
        if where == 'global':
            self.set_field(self.mod_frame(fr.module).env, name, value)
            return
        if where == 'nonlocal':
            f = fr.parent
            while f is not None:
                if name in self.h(f.env).fields:
                    self.set_field(f.env, name, value)
                    return
                f = f.parent
        self.set_field(fr.env, name, value)

    # ------------------------------------------------------------ functions and classes
    def make_func(self, node, fr, cls=None):
        if fr.parent is None or (cls is not None and fr.cls is None):
            qual = f'{fr.module}:' + (f'{cls.qualname.split(":")[1]}.' if cls else '') + node.name
        else:
            base = fr.func.qualname if fr.func is not None else f'{fr.module}:'
            qual = base + '.' + node.name
        if cls is not None:
            qual = f'{cls.qualname}.{node.name}'
        args = node.args
        defaults = tuple(self.ev(d, fr) for d in args.defaults)
        kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        return FuncVal(node, fr, fr.module, qual, cls, defaults, kwdefaults, is_generator(node))

    def def_function(self, node, fr, cls=None):
        f = self.make_func(node, fr, cls)
        v = f
        for d in reversed(node.decorator_list):
            v = self.decorate(d, v, fr, f)
        return v

    def decorate(self, d, v, fr, f):
        name = ast.unparse(d)
        base = name.split('(')[0]
        if base in ('property',):
            return PropertyVal(v)
        if base in ('abstractmethod', 'abc.abstractmethod'):
            return v
        if base in ('classmethod',):
            return ClassMethodVal(v)
        if base in ('staticmethod',):
            return StaticMethodVal(v)
        if base in ('cached_property', 'functools.cached_property'):
            return PropertyVal(v, cached=True)
        if base.endswith('.setter'):
            old = self.h(fr.env).fields[base.split('.')[0]]
            return PropertyVal(old.getter, v, old.cached)
        if base in ('contextlib.contextmanager', 'contextmanager'):
            f.decorators = f.decorators + ('contextmanager',)
            return v
        if base in ('wraps', 'functools.wraps'):
            return v
        dec = self.ev(d, fr)
        return self.call(dec, [v], {})

    def def_class(self, node, fr):
        qual = f'{fr.module}:{node.name}'
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            bases.append(self.ev(b, fr))
        c = ClassVal(node.name, qual, bases, fr.module)
        c.is_enum = any((isinstance(b, ExtMod) and b.name in ('enum.Enum', 'enum.IntEnum'))
                        or (isinstance(b, ClassVal) and b.is_enum) for b in bases)
        self.static_mode += 1
        try:
            env = self.alloc(HEnv({}))
        finally:
            self.static_mode -= 1
        cf = Frame(fr.module, env, fr if fr.parent is not None else fr, None, cls=c)
        attr_dec = None
        for d in node.decorator_list:
            nm = ast.unparse(d)
            if nm.split('(')[0] in ('attr.s', 'attr.attrs', 'attr.define', 'attr.frozen', 'attrs.define', 'attrs.frozen',
                                    'dataclass', 'dataclasses.dataclass'):
                attr_dec = d
        fields = []
        counter = [0]
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                v = self.def_function(st, cf, c)
                self.set_field(env, st.name, v)
                c.ns[st.name] = v
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                if c.is_enum:
                    counter[0] += 1
                    if isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split('.')[-1] == 'auto':
                        val = counter[0]
                    else:
                        val = self.ev(st.value, cf)
                    m = EnumMember(c, targets[0].id, val, counter[0])
                    c.members[targets[0].id] = m
                    c.ns[targets[0].id] = m
                    continue
                if attr_dec is not None and isinstance(st, ast.AnnAssign):
                    fields.append(self.attr_field(st, cf))
                    continue
                if st.value is None:
                    continue
                v = self.ev(st.value, cf)
                for t in targets:
                    if isinstance(t, ast.Name):
                        self.set_field(env, t.id, v)
                        c.ns[t.id] = v
            elif isinstance(st, (ast.Pass, ast.Expr)):
                pass
            else:
                raise Unsupported(f'{type(st).__name__} in class body')
        if attr_dec is not None:
            inherited = []
            for b in bases:
                if isinstance(b, ClassVal) and b.attr_fields:
                    inherited += b.attr_fields
            c.attr_fields = inherited + fields
            if isinstance(attr_dec, ast.Call):
                for k in attr_dec.keywords:
                    if k.arg == 'frozen':
                        c.attr_frozen = bool(self.ev(k.value, fr))
        return c

    def attr_field(self, st, fr):
        f = AttrField(st.target.id)
        v = st.value
        if v is None:
            return f
        if isinstance(v, ast.Call) and ast.unparse(v.func) in ('attr.ib', 'attrs.field', 'attr.field', 'field'):
            for k in v.keywords:
                if k.arg == 'default':
                    f.default, f.has_default = self.ev(k.value, fr), True
                elif k.arg == 'factory':
                    f.factory, f.has_default = self.ev(k.value, fr), True
                elif k.arg == 'converter':
                    f.converter = self.ev(k.value, fr)
                elif k.arg == 'kw_only':
                    f.kw_only = bool(self.ev(k.value, fr))
            return f
        f.default, f.has_default = self.ev(v, fr), True
        return f

    def bind(self, f, args, kwargs):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(params) and a.vararg is None:
            self.raise_(TypeError, f'{f.qualname}: too many arguments')
        for p, x in zip(params, args):
            vals[p] = x
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(params):])
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p in vals:
                if p in kwargs:
                    self.raise_(TypeError, f'multiple values for {p}')
                continue
            if p in kwargs:
                vals[p] = kwargs.pop(p)
            elif i >= len(params) - nd:
                vals[p] = f.defaults[i - (len(params) - nd)]
            else:
                self.raise_(TypeError, f'{f.qualname}: missing argument {p}')
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f'{f.qualname}: missing argument {x.arg}')
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.alloc(HDict([(k, v) for k, v in kwargs.items()]))
        elif kwargs:
            self.raise_(TypeError, f'{f.qualname}: unexpected arguments {sorted(kwargs)}')
        return vals

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Sym) and f.ty is getattr(self, 'closure_ty', None):
            return self.call_func(f.ty.rebuild(self, f.t), args, kwargs)
        if isinstance(f, (StaticMethodVal,)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, BuiltinMethod):
            from . import pybuiltins
            return pybuiltins.call_method(self, f.recv, f.name, list(args), kwargs)
        if isinstance(f, ExtFn):
            self.used_ext[f.name] = self.used_ext.get(f.name, 0) + 1
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PyType):
            from . import pybuiltins
            return pybuiltins.call_type(self, f, list(args), kwargs)
        if isinstance(f, PartialVal):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, ExtMod):
            v = self.ext_get(f.name)
            if isinstance(v, ExtMod):
                raise Unsupported(f'call of external function {f.name} (no contract for it)')
            return self.call(v, args, kwargs)
        if isinstance(f, Obj):
            h = self.h(f)
            if isinstance(h, HInst) and isinstance(h.cls, ClassVal):
                m = h.cls.lookup('__call__')
                if m is not None:
                    return self.call(m, [f] + list(args), kwargs)
        if callable(f):
            return f(self, list(args), kwargs)
        raise Unsupported(f'call of {f!r}')

    def call_func(self, f, args, kwargs):
        stub = self.stubs.get(f.qualname)
        if stub is not None and self.force_body != f.qualname:
            self.used_stubs[f.qualname] = self.used_stubs.get(f.qualname, 0) + 1
            return stub(self, f, list(args), kwargs)
        if self.force_body == f.qualname:
            self.force_body = None
        self.used_functions[f.qualname] = f
        vals = self.bind(f, args, kwargs)
        if 'contextmanager' in f.decorators:
            return CtxMgr(f, vals)
        if f.is_gen:
            def run(step):
                self.run_body(f, vals, yield_cb=step)
            return GenVal(run, f.qualname)
        return self.run_body(f, vals)

    def run_body(self, f, vals, yield_cb=None):
        self.depth += 1
        if self.depth > MAX_DEPTH:
            self.depth -= 1
            raise Unsupported(f'recursion without contract: {f.qualname}')
        try:
            env = self.alloc(HEnv(dict(vals)))
            fr = Frame(f.module, env, f.frame, f, yield_cb)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.exec_block(f.node.body, fr)
            except ReturnSig as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def instantiate(self, c, args, kwargs):
        stub = self.stubs.get(c.qualname)
        if stub is not None and self.force_body != c.qualname:
            self.used_stubs[c.qualname] = self.used_stubs.get(c.qualname, 0) + 1
            return stub(self, c, list(args), kwargs)
        if self.force_body == c.qualname:
            self.force_body = None
        if c.is_enum:
            v = args[0]
            if isinstance(v, EnumMember) and v.cls is c:
                return v
            if isinstance(v, Sym) and isinstance(v.ty, EnumTy) and v.ty.cls is c:
                return v
            for m in c.members.values():
                e = self.eq(m.value, v)
                if e is True or (e is not False and self.branch(e)):
                    return m
            self.raise_(ValueError, 'not a valid enum value')
        base = [b for b in c.mro() if not isinstance(b, ClassVal)]
        if any(b == PyType(str) for b in base):
            return self.instantiate_str(c, args, kwargs)
        exc = [b for b in base if isinstance(b, PyType) and issubclass(b.pytype, BaseException)]
        if exc:
            o = self.alloc(HInst(c, {'args': tuple(args)}))
            init = c.lookup('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kwargs)
            return o
        o = self.alloc(HInst(c, {}))
        if c.attr_fields is not None:
            self.attr_init(c, o, args, kwargs)
            post = c.lookup('__attrs_post_init__')
            if post is not None:
                self.call(post, [o], {})
            return o
        init = c.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise Unsupported(f'{c.qualname} with arguments, but no __init__')
        return o

    def instantiate_str(self, c, args, kwargs):
        # class X(str): __init__ validates
        s = args[0] if args else ''
        t = STR.unwrap(self, self.to_str(s))
        o = StrSub(c, t)
        init = c.lookup('__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        return o

    def attr_init(self, c, o, args, kwargs):
        args = list(args)
        kwargs = dict(kwargs)
        for f in c.attr_fields:
            if not f.kw_only and args:
                v = args.pop(0)
            elif f.name.lstrip('_') in kwargs:
                v = kwargs.pop(f.name.lstrip('_'))
            elif f.factory is not None:
                v = self.call(f.factory, [], {})
            elif f.has_default:
                v = f.default
            else:
                self.raise_(TypeError, f'missing argument {f.name}')
            if f.converter is not None:
                v = self.call(f.converter, [v], {})
            self.set_field(o, f.name, v)
        if args or kwargs:
            self.raise_(TypeError, f'{c.name}: unexpected arguments')

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        r = self.getattr_opt(v, name)
        if r is MISSING:
            self.raise_(AttributeError, name)
        return r

    def bind_class_attr(self, cls, n, recv, name):
        if isinstance(n, FuncVal):
            return BoundMethod(n, recv)
        if isinstance(n, PropertyVal):
            if n.cached and isinstance(recv, Obj):
                val = self.call(n.getter, [recv], {})
                self.set_field(recv, name, val)
                return val
            return self.call(n.getter, [recv], {})
        if isinstance(n, ClassMethodVal):
            c = recv
            if isinstance(recv, Obj):
                c = self.h(recv).cls
            elif isinstance(recv, StrSub):
                c = recv.cls
            elif isinstance(recv, Sym):
                c = cls
            return BoundMethod(n.func, c)
        if isinstance(n, StaticMethodVal):
            return n.func
        return n

    def getattr_opt(self, v, name):
        if isinstance(v, SlotRef):
            return BuiltinMethod(v, name)
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, HInst):
                if name in h.fields:
                    return self.get_field(v, name)
                if name == '__class__':
                    return h.cls
                if name == '__dict__':
                    return self.alloc(HDict([(k, x) for k, x in h.fields.items()]))
                if isinstance(h.cls, ClassVal):
                    n = h.cls.lookup(name)
                    if n is not None:
                        return self.bind_class_attr(h.cls, n, v, name)
                    if name == '__doc__':
                        return ''
                if isinstance(h.cls, Abs) or isinstance(h.cls, ExtClass):
                    if name in h.cls.methods:
                        m = h.cls.methods[name]
                        return ExtFn(f'{h.cls.name}.{name}', lambda I, a, k: m(I, v, a, k))
                    if name in h.cls.attrs:
                        return h.cls.attrs[name](self, v)
                return MISSING
            return BuiltinMethod(v, name)
        if isinstance(v, Sym):
            ty = v.ty
            if isinstance(v, StrSub):
                n = v.cls.lookup(name)
                if n is not None:
                    return self.bind_class_attr(v.cls, n, v, name)
                if name == '__class__':
                    return v.cls
            key = f'{ty.tyname}.{name}'
            if key in self.ext:
                m = self.ext[key]
                return ExtFn(key, lambda I, a, k: m(I, [v] + a, k))
            if ty in (STR, BYTES, INT, INSTANT, BOOL):
                if ('attr:' + key) in self.ext:
                    return self.ext['attr:' + key](self, v)
                if ty is INT or ty is BOOL:
                    return MISSING
                return BuiltinMethod(v, name)
            if isinstance(ty, (Abs, Rec)):
                if isinstance(ty, Rec) and name in ty.fields:
                    return ty.get(self, v, name)
                if name in ty.attrs:
                    r = ty.get(self, v, name)
                    return r
                if name in ty.methods:
                    m = ty.methods[name]
                    return ExtFn(f'{ty.tyname}.{name}', lambda I, a, k: m(I, v, a, k))
                if ty.cls:
                    c = self.resolve(ty.cls) if isinstance(ty.cls, str) else ty.cls
                    if name == '__class__':
                        return c
                    n = c.lookup(name)
                    if n is not None:
                        return self.bind_class_attr(c, n, v, name)
                return MISSING
            if isinstance(ty, EnumTy):
                if name == 'name' or name == 'value':
                    ms = list(ty.cls.members.values())
                    for m in ms[:-1]:
                        if self.branch(v.t == ty.of(m.name), f'is {m.name}'):
                            return getattr(m, name)
                    return getattr(ms[-1], name)
                if name == '__class__':
                    return ty.cls
                return MISSING
        if isinstance(v, ModVal):
            r = self.mod_get(v.name, name, missing_ok=True)
            return r
        if isinstance(v, ExtMod):
            return self.ext_get(v.name + '.' + name)
        if isinstance(v, ClassVal):
            if name == '__name__':
                return v.name
            if name == '__members__':
                return self.alloc(HDict([(k, m) for k, m in v.members.items()]))
            n = v.lookup(name)
            if n is None:
                if name == '__init__':
                    return ExtFn('object.__init__', lambda I, a, k: None)
                if name in ('__doc__', '__module__'):
                    return ''
                for b in v.mro():
                    if isinstance(b, PyType) and hasattr(b.pytype, name):
                        return ExtFn(f'{b.name}.{name}', lambda I, a, k: None)
                return MISSING
            if isinstance(n, ClassMethodVal):
                return BoundMethod(n.func, v)
            if isinstance(n, StaticMethodVal):
                return n.func
            return n
        if isinstance(v, EnumMember):
            if name == 'name':
                return v.name
            if name == 'value':
                return v.value
            if name == '__class__':
                return v.cls
            n = v.cls.lookup(name)
            if n is not None:
                return self.bind_class_attr(v.cls, n, v, name)
            return MISSING
        if isinstance(v, PyType):
            if name == '__name__':
                return v.name
            if name == '__init__':
                return ExtFn('init', lambda I, a, k: None)
            from . import pybuiltins
            if hasattr(v.pytype, name):
                return ExtFn(f'{v.name}.{name}', lambda I, a, k: pybuiltins.type_method(I, v, name, a, k))
            return MISSING
        if isinstance(v, SuperVal):
            mro = self.class_of(v.self_).mro()
            after = mro[mro.index(v.cls) + 1:]
            for c in after:
                if isinstance(c, ClassVal) and name in c.ns:
                    return self.bind_class_attr(c, c.ns[name], v.self_, name)
            if name == '__init__':
                return ExtFn('object.__init__', lambda I, a, k: None)
            return MISSING
        if isinstance(v, FuncVal):
            if name == '__name__':
                return v.node.name
            return MISSING
        if isinstance(v, (str, bytes, int, tuple, float)) or isinstance(v, V.DictView):
            if isinstance(v, (str, bytes, tuple, int)) and not hasattr(v, name):
                return MISSING
            return BuiltinMethod(v, name)
        if v is None:
            return MISSING
        for pred, fn in getattr(self, 'host_attrs', ()):
            if pred(v):
                return fn(self, v, name)
        if isinstance(v, (GenVal, IterVal)):
            return BuiltinMethod(v, name)
        if isinstance(v, ExtFn) and v.name + '.' + name in self.ext:
            return self.ext_get(v.name + '.' + name)
        raise Unsupported(f'attribute {name} of {v!r}')

    def class_of(self, v):
        if isinstance(v, Obj):
            return self.h(v).cls
        if isinstance(v, StrSub):
            return v.cls
        if isinstance(v, ClassVal):
            return v
        if isinstance(v, Sym) and getattr(v.ty, 'cls', None):
            return self.resolve(v.ty.cls) if isinstance(v.ty.cls, str) else v.ty.cls
        raise Unsupported(f'class of {v!r}')

    def setattr(self, v, name, value):
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, HInst):
                if isinstance(h.cls, ClassVal):
                    n = h.cls.lookup(name)
                    if isinstance(n, PropertyVal) and not n.cached:
                        if n.setter is None:
                            self.raise_(AttributeError, name)
                        self.call(n.setter, [v, value], {})
                        return
                    if h.cls.attr_frozen:
                        self.raise_(AttributeError, 'frozen instance')
                if isinstance(h.cls, ExtClass) and ('set:' + name) in h.cls.methods:
                    h.cls.methods['set:' + name](self, v, value)
                    return
                self.set_field(v, name, value)
                return
        if isinstance(v, Sym) and isinstance(v.ty, Abs):
            if ('set:' + name) in v.ty.methods:
                v.ty.methods['set:' + name](self, v, value)
                return
        if isinstance(v, ModVal):
            self.set_field(self.mod_frame(v.name).env, name, value)
            return
        raise Unsupported(f'set attribute {name} of {v!r}')

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__}')
        return m(st, fr)

    def st_Pass(self, st, fr):
        pass

    def st_Global(self, st, fr):
        for n in st.names:
            fr.outer_names[n] = 'global'

    def st_Nonlocal(self, st, fr):
        for n in st.names:
            fr.outer_names[n] = 'nonlocal'

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def st_Import(self, st, fr):
        for a in st.names:
            self.exec_import(st, a, fr)

    st_ImportFrom = st_Import

    def st_FunctionDef(self, st, fr):
        self.assign_name(fr, st.name, self.def_function(st, fr))

    def st_ClassDef(self, st, fr):
        self.assign_name(fr, st.name, self.def_class(st, fr))

    def st_Return(self, st, fr):
        raise ReturnSig(None if st.value is None else self.ev(st.value, fr))

    def st_Break(self, st, fr):
        raise BreakSig

    def st_Continue(self, st, fr):
        raise ContinueSig

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def st_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            new = self.inplace(cur, st.op, self.ev(st.value, fr))
            if new is not cur or not isinstance(cur, Obj):
                self.assign_name(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(cur, st.op, self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(cur, st.op, self.ev(st.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, cur, op, v):
        if isinstance(cur, (Obj, SlotRef)):
            kind = 'slot' if isinstance(cur, SlotRef) else self.h(cur).kind
            from . import pybuiltins
            if kind in ('list', 'slot') and isinstance(op, ast.Add):
                pybuiltins.call_method(self, cur, 'extend', [v], {})
                return cur
            if kind in ('set', 'slot') and isinstance(op, ast.BitOr):
                pybuiltins.call_method(self, cur, 'update', [v], {})
                return cur
            if kind == 'dict' and isinstance(op, ast.BitOr):
                pybuiltins.call_method(self, cur, 'update', [v], {})
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def unpack(self, v, n, elts):
        if any(isinstance(e, ast.Starred) for e in elts):
            items = self.concrete_items(v)
            k = [isinstance(e, ast.Starred) for e in elts].index(True)
            after = n - k - 1
            if items is None:
                if isinstance(v, Obj) and isinstance(self.h(v), HSym) and isinstance(self.h(v).ty, ListTy) and not after:
                    h = self.content(v)
                    if not self.branch(h.ty.n(h.t) >= k, 'enough values to unpack'):
                        self.raise_(ValueError, 'not enough values to unpack')
                    return [h.ty.elem.wrap(self, h.ty.get(h.t, z3.IntVal(i))) for i in range(k)] + [self.getslice(v, k, None, None)]
                raise Unsupported('star unpacking')
            if len(items) < n - 1:
                self.raise_(ValueError, 'not enough values to unpack')
            return list(items[:k]) + [self.new_list(items[k:len(items) - after])] + list(items[len(items) - after:])
        items = self.concrete_items(v)
        if items is None:
            if isinstance(v, Obj) and isinstance(self.h(v), HSym) and isinstance(self.h(v).ty, ListTy):
                h = self.content(v)
                if self.branch(h.ty.n(h.t) == n, 'unpack length'):
                    return [h.ty.elem.wrap(self, h.ty.get(h.t, z3.IntVal(i))) for i in range(n)]
                self.raise_(ValueError, 'wrong number of values to unpack')
            raise Unsupported(f'unpacking of {v!r}')
        if len(items) != n:
            self.raise_(ValueError, 'wrong number of values to unpack')
        return list(items)

    def concrete_items(self, v):
        '''Python list of elements if the structure of v is known, else None.'''
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (str, bytes)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, (HList, HSet)):
                self.content(v)
                return list(h.items)
            if isinstance(h, HDict):
                self.content(v)
                return [k for k, _ in h.items]
        if isinstance(v, DictView):
            h = self.content(v.obj)
            if isinstance(h, HDict):
                return [dict(items=(k, x), keys=k, values=x)[v.what] for k, x in h.items]
        if isinstance(v, ClassVal) and v.is_enum:
            return list(v.members.values())
        return None

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.del_field(fr.env, t.id)
            elif isinstance(t, ast.Attribute):
                self.del_field(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                self.delitem(o, k)
            else:
                raise Unsupported('del')

    def st_If(self, st, fr):
        if self.cond(st.test, fr):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def cond(self, e, fr):
        return self.branch(self.truth_expr(e, fr), ast.unparse(e)[:60])

    def st_Assert(self, st, fr):
        if not self.cond(st.test, fr):
            self.raise_(AssertionError, 'assert ' + ast.unparse(st.test)[:80])

    def st_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, 'current_exc', None)
            if cur is None:
                self.raise_(RuntimeError, 'No active exception to reraise')
            raise PyRaise(cur)
        v = self.ev(st.exc, fr)
        if isinstance(v, (ClassVal, PyType, ExtMod)):
            v = self.call(v, [], {})
        if st.cause is not None:
            self.ev(st.cause, fr)
        raise PyRaise(v)

    def st_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyRaise as e:
                self.handle(st, fr, e)
            else:
                self.exec_block(st.orelse, fr)
        except (Signal,) as s:
            self.exec_block(st.finalbody, fr)
            raise s
        self.exec_block(st.finalbody, fr)

    def handle(self, st, fr, e):
        for hd in st.handlers:
            if hd.type is None:
                ok = True
            else:
                cls = self.ev(hd.type, fr)
                ok = self.exc_matches(e.exc, cls)
            if ok:
                if hd.name:
                    self.assign_name(fr, hd.name, e.exc)
                old = getattr(self, 'current_exc', None)
                self.current_exc = e.exc
                try:
                    self.exec_block(hd.body, fr)
                finally:
                    self.current_exc = old
                return
        raise e

    def st_With(self, st, fr):
        self.with_items(st.items, st.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, CtxMgr):
            self.with_generator(cm, it, items[1:], body, fr)
            return
        enter = self.getattr(cm, '__enter__')
        exit_ = self.getattr(cm, '__exit__')
        v = self.call(enter, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyRaise as e:
            r = self.call(exit_, [PyType(Exception), e.exc, None], {})
            if self.branch(self.truth(r), 'exit suppresses'):
                return
            raise
        except Signal:
            self.call(exit_, [None, None, None], {})
            raise
        self.call(exit_, [None, None, None], {})

    def with_generator(self, cm, it, rest, body, fr):
        # exceptions of the body are thrown into the generator at its yield
        done = []
        token = self.new_token()

        def cb(v):
            if done:
                self.raise_(RuntimeError, "generator didn't stop")
            done.append(1)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self.with_items(rest, body, fr)
            except (ReturnSig, BreakSig, ContinueSig, ConsumerSig) as s:
                raise ConsumerSig(token, s)
        try:
            self.run_body(cm.func, cm.vals, yield_cb=cb)
        except ConsumerSig as c:
            if c.token == token:
                raise c.inner
            raise

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        if isinstance(it, CallIter):
            self.loop_engine.call_loop(st, fr, it.call, it.sentinel)
            return

        def step(x):
            self.assign(st.target, x, fr)
            try:
                self.exec_block(st.body, fr)
            except ContinueSig:
                pass
        try:
            self.iterate(it, step, node=st, fr=fr)
        except BreakSig:
            return
        self.exec_block(st.orelse, fr)

    def st_While(self, st, fr):
        self.loop_engine.while_loop(st, fr)

    # ------------------------------------------------------------ iteration
    def new_token(self):
        # the same on every replay of a path
        self.ctx.nid += 1
        return self.ctx.nid

    def iterate(self, v, step, node=None, fr=None):
        if isinstance(v, IterVal):
            v = v.src
        items = self.concrete_items(v)
        if items is not None:
            for x in items:
                step(x)
            return
        if isinstance(v, GenVal):
            token = self.new_token()

            def cb(x):
                try:
                    step(x)
                except (PyRaise, ReturnSig, BreakSig, ContinueSig, ConsumerSig) as s:
                    raise ConsumerSig(token, s)
            try:
                v.run(cb)
            except ConsumerSig as c:
                if c.token == token:
                    raise c.inner
                raise
            return
        view = self.seq_view(v)
        if view is None:
            raise Unsupported(f'iteration over {v!r}')
        self.loop_engine.for_loop(view, step, node, fr)

    def seq_view(self, v):
        if isinstance(v, SeqView):
            return v
        if isinstance(v, IterVal):
            v = v.src
        if isinstance(v, SlotRef):
            v = self.slot_value(v)
        if isinstance(v, Sym) and isinstance(v.ty, Abs) and '__iter__' in v.ty.methods:
            return self.seq_view(v.ty.methods['__iter__'](self, v, [], {}))
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, HSym):
                self.content(v)
                if isinstance(h.ty, ListTy):
                    ty, t = h.ty, h.t
                    return SeqView(ty.n(t), lambda i: ty.elem.wrap(self, ty.get(t, i)), lambda i: ty.get(t, i),
                                   ty.elem, lambda i: ty.get(t, i))
                if isinstance(h.ty, SetTy):
                    return self.enumerate_set(h.ty.elem, h.ty.mem(h.t))
                if isinstance(h.ty, DictTy):
                    if v.id in self.touched:
                        raise Unsupported('iteration over the keys of a default dict after lookups')
                    return self.enumerate_set(h.ty.key, h.ty.dom(h.t), h.ty.n(h.t))
            if isinstance(h, HInst) and isinstance(h.cls, ExtClass) and '__iter__' in h.cls.methods:
                r = h.cls.methods['__iter__'](self, v, [], {})
                return self.seq_view(r)
        if isinstance(v, DictView):
            h = self.content(v.obj)
            ty, t = h.ty, h.t
            if v.obj.id in self.touched:
                raise Unsupported('iteration over a default dict after lookups')
            ks = self.enumerate_set(ty.key, ty.dom(t), ty.n(t))
            if v.what == 'keys':
                return ks
            key_at = ks.trigger
            if v.what == 'values':
                return SeqView(ks.n, lambda i: ty.val.wrap(self, ty.get(t, key_at(i))), key_at,
                               ty.val, lambda i: ty.get(t, key_at(i)))
            tt = TupOf(ty.key, ty.val)
            return SeqView(ks.n, lambda i: (ty.key.wrap(self, key_at(i)), ty.val.wrap(self, ty.get(t, key_at(i)))), key_at,
                           tt, lambda i: tt.mk(key_at(i), ty.get(t, key_at(i))))
        return None

    def enumerate_set(self, elem, mem, n=None):
        '''A sequence listing each element of a (finite) set once, in an unknown but fixed order.'''
        ctx = self.ctx
        lt = ListOf(elem)
        f_at = z3.Function('enum_at:' + elem.tyname, mem.sort(), z3.ArraySort(z3.IntSort(), elem.sort))
        f_n = z3.Function('enum_n:' + elem.tyname, mem.sort(), z3.IntSort())
        f_ix = z3.Function('enum_ix:' + elem.tyname, mem.sort(), elem.sort, z3.IntSort())
        at, nn = f_at(mem), f_n(mem)
        if n is not None:
            ctx.assume(nn == n)
        i = z3.Int('ei')
        x = z3.Const('ex', elem.sort)
        ctx.assume(nn >= 0)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn), z3.And(mem[at[i]], f_ix(mem, at[i]) == i)),
                             patterns=[at[i]]))
        ctx.assume(z3.ForAll([x], z3.Implies(mem[x], z3.And(0 <= f_ix(mem, x), f_ix(mem, x) < nn,
                                                            at[f_ix(mem, x)] == x)), patterns=[mem[x]]))
        view = SeqView(nn, lambda i: elem.wrap(self, at[i]), lambda i: at[i], elem, lambda i: at[i])
        view.has, view.index = lambda x: mem[x], lambda x: f_ix(mem, x)
        return view

    # ------------------------------------------------------------ truth, equality
    def truth_expr(self, e, fr):
        '''Truth of an expression as bool or z3 Bool (and/or/not merged when pure).'''
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth_expr(e.operand, fr)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = self.truth_expr(e.values[0], fr)
            for i, x in enumerate(e.values[1:], 1):
                if isinstance(acc, bool):
                    if acc != is_and:
                        return acc
                    acc = self.truth_expr(x, fr)
                    continue
                p = None if self.static_mode else self.pure_truth(x, fr, acc if is_and else z3.Not(acc))
                if p is None:
                    # short circuit
                    if self.branch(acc, ast.unparse(e.values[i - 1])[:40]) != is_and:
                        return not is_and
                    acc = self.truth_expr(x, fr)
                else:
                    acc = z3.And(acc, p) if is_and else z3.Or(acc, p)
            return acc
        return self.truth(self.ev(e, fr))

    def pure_truth(self, e, fr, given):
        '''Truth term of e if it evaluates on a single path without effects (given holds), else None.'''
        ctx = self.ctx

        def run():
            heap_before = dict(ctx.heap)
            loops_before = [f.effects() for f in ctx.loops]
            ctx.assume(given)
            value = self.truth_expr(e, fr)
            pure = all(ctx.heap.get(k) is v for k, v in heap_before.items()) and \
                [f.effects() for f in ctx.loops] == loops_before
            return value, pure
        checks, ctx.checks_enabled = ctx.checks_enabled, False
        try:
            paths = ctx.explore(run)
        except (Unsupported, NotSummarizable):
            return None
        finally:
            ctx.checks_enabled = checks
        if len(paths) != 1:
            return None
        p = paths[0]
        if p.outcome != 'ok' or len(p.pc) > 1:
            return None
        v, pure = p.value
        if not pure:
            return None
        # reads in loop frames are remembered
        for f, s in zip(ctx.loops, p.extra):
            f.merge_reads(s)
        return z3.BoolVal(v) if isinstance(v, bool) else v

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, str, bytes, tuple, float)):
            return bool(v)
        if isinstance(v, StrSub):
            return v.t != World.strings.lit('')
        if isinstance(v, Sym):
            ty = v.ty
            if ty is BOOL:
                return v.t
            if ty is INT:
                return v.t != 0
            if ty is STR:
                return v.t != World.strings.lit('')
            if ty is BYTES:
                return z3.Length(v.t) != 0
            if isinstance(ty, Abs) and '__bool__' in ty.methods:
                return ty.methods['__bool__'](self, v, [], {})
            if isinstance(ty, Abs) and '__len__' in ty.methods:
                return self.truth(ty.methods['__len__'](self, v, [], {}))
            return True
        if isinstance(v, SlotRef):
            v = self.slot_value(v)
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, (HList, HSet, HDict)):
                self.content(v)
                return bool(h.items)
            if isinstance(h, HSym):
                self.content(v)
                return self.nonempty(h, v)
            if isinstance(h, HInst) and isinstance(h.cls, ClassVal):
                m = h.cls.lookup('__bool__')
                if m is not None:
                    return self.truth(self.call(m, [v], {}))
                m = h.cls.lookup('__len__')
                if m is not None:
                    return self.truth(self.call(m, [v], {}))
            if isinstance(h, HInst) and isinstance(h.cls, ExtClass):
                for m in ('__bool__', '__len__'):
                    if m in h.cls.methods:
                        return self.truth(h.cls.methods[m](self, v, [], {}))
            return True
        if isinstance(v, (GenVal, FuncVal, BoundMethod, ClassVal, ModVal, EnumMember, ExtFn, PyType)):
            return True
        for pred, fn in getattr(self, 'host_attrs', ()):
            if pred(v):
                return True
        raise Unsupported(f'truth of {v!r}')

    def nonempty(self, h, obj=None):
        if isinstance(h.ty, ListTy):
            return h.ty.n(h.t) > 0
        if isinstance(h.ty, SetTy):
            return self.set_nonempty(h.ty.elem, h.ty.mem(h.t))
        if obj is not None and obj.id in self.touched:
            raise Unsupported('truth of a default dict after lookups')
        return h.ty.n(h.t) > 0

    def set_nonempty(self, elem, mem):
        '''term: some element (a witness function makes it explicit)'''
        wit = z3.Function('some:' + elem.tyname, mem.sort(), elem.sort)
        x = z3.Const('sx', elem.sort)
        self.ctx.assume(z3.ForAll([x], z3.Implies(mem[x], mem[wit(mem)]), patterns=[mem[x]]))
        return mem[wit(mem)]

    def eq(self, a, b):
        '''a == b as bool or z3 Bool'''
        if a is b:
            return True
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a == b
        if a is None or b is None:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, EnumMember) and isinstance(b, EnumMember):
            return a.cls is b.cls and a.index == b.index
        if isinstance(a, Sym) and isinstance(a.ty, EnumTy) and isinstance(b, EnumMember):
            return a.t == a.ty.of(b.name) if a.ty.cls is b.cls else False
        if isinstance(b, Sym) and isinstance(b.ty, EnumTy) and isinstance(a, EnumMember):
            return self.eq(b, a)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(x.ty, Abs) and '__eq__' in x.ty.methods:
                return x.ty.methods['__eq__'](self, x, [y], {})
        for x, y in ((a, b), (b, a)):
            for pred, fn in getattr(self, 'host_eq', ()):
                if pred(x):
                    return fn(self, x, y)
        ta, tb = self.type_of_scalar(a), self.type_of_scalar(b)
        if ta is not None and tb is not None:
            if ta is tb:
                return self.term_eq(ta, ta.unwrap(self, a), tb.unwrap(self, b))
            if {ta, tb} <= {INT, BOOL}:
                return self.int_term(a) == self.int_term(b)
            if isinstance(ta, Rec) or isinstance(tb, Rec):
                raise Unsupported(f'comparison of {ta} and {tb}')
            return False
        if isinstance(a, SlotRef):
            a = self.slot_value(a)
        if isinstance(b, SlotRef):
            b = self.slot_value(b)
        # record vs instance
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(x.ty, Rec) and isinstance(y, Obj):
                return self.term_eq(x.ty, x.t, x.ty.unwrap(self, y))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.id == b.id:
                return True
            ha, hb = self.h(a), self.h(b)
            if isinstance(ha, HInst) and isinstance(hb, HInst):
                if ha.cls is hb.cls and isinstance(ha.cls, ClassVal) and ha.cls.attr_fields is not None:
                    return self.and_([self.eq(self.getattr(a, f.name), self.getattr(b, f.name))
                                      for f in ha.cls.attr_fields])
                return False
            ha, hb = self.content(a), self.content(b)
            if ha.kind != hb.kind:
                return False
            if isinstance(ha, HList) and isinstance(hb, HList):
                return self.eq(tuple(ha.items), tuple(hb.items))
            if ha.kind == 'set':
                if isinstance(ha, HSet) and isinstance(hb, HSet):
                    if not ha.items or not hb.items:
                        return not ha.items and not hb.items
                ty = ha.ty if isinstance(ha, HSym) else hb.ty if isinstance(hb, HSym) else self.type_of(a)
                return ty.mem(self.h_term(ha, ty)) == ty.mem(self.h_term(hb, ty))
            if ha.kind == 'list':
                ty = ha.ty if isinstance(ha, HSym) else hb.ty
                return self.list_eq(ty, self.h_term(ha, ty), self.h_term(hb, ty))
            if isinstance(ha, HDict) and isinstance(hb, HDict) and len(ha.items) == len(hb.items):
                out = []
                for k, v in ha.items:
                    m = [x for kk, x in hb.items if self.eq(kk, k) is True]
                    if not m:
                        raise Unsupported('comparison of dicts')
                    out.append(self.eq(v, m[0]))
                return self.and_(out)
            raise Unsupported(f'comparison of {ha.kind}s')
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, other = (a, b) if isinstance(a, Obj) else (b, a)
            h = self.h(o)
            if isinstance(h, HSym) and h.tuple and isinstance(other, tuple):
                return self.list_eq(h.ty, h.t, self.container_term(other, h.ty))
            return False
        return a is b

    def list_eq(self, ty, a, b, depth=0):
        i = z3.Int(f'qi{depth}')
        return z3.And(ty.n(a) == ty.n(b),
                      z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.n(a)),
                                                self.term_eq(ty.elem, ty.get(a, i), ty.get(b, i), depth + 1))))

    def term_eq(self, ty, a, b, depth=0):
        '''Python equality of values given as terms (lists are equal by their elements).'''
        if not ty.has_wf or isinstance(ty, T.Abs):
            return a == b
        if isinstance(ty, ListTy):
            return self.list_eq(ty, a, b, depth)
        if isinstance(ty, SetTy):
            return ty.mem(a) == ty.mem(b)
        if isinstance(ty, Rec):
            return z3.And(*[self.term_eq(t, ty.f(f, a), ty.f(f, b), depth) for f, t in ty.fields.items()])
        if isinstance(ty, T.Tup):
            return z3.And(*[self.term_eq(t, ty.item(k, a), ty.item(k, b), depth) for k, t in enumerate(ty.tys)])
        if isinstance(ty, T.Union):
            return z3.Or(*[z3.And(ty.is_(k, a), ty.is_(k, b)) if t is NONE else
                           z3.And(ty.is_(k, a), ty.is_(k, b), self.term_eq(t, ty.val(k, a), ty.val(k, b), depth))
                           for k, t in ty.alts.items()])
        raise Unsupported(f'equality of {ty}')

    def type_of_scalar(self, v):
        if isinstance(v, (bool, int, str, bytes, StrSub, Sym)) or v is None:
            return self.type_of(v)
        return None

    def and_(self, ts):
        out = []
        for t in ts:
            if t is False:
                return False
            if t is not True:
                out.append(t)
        if not out:
            return True
        return out[0] if len(out) == 1 else z3.And(*out)

    def or_(self, ts):
        out = []
        for t in ts:
            if t is True:
                return True
            if t is not False:
                out.append(t)
        if not out:
            return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.id == b.id
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            return self.eq(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.ty is b.ty:
                return a.t == b.t
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq(a, b)
        return a == b if type(a) is type(b) else False

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def ev_Tuple(self, e, fr):
        out = self.ev_star(e.elts, fr)
        return out if isinstance(out, Obj) else tuple(out)

    def ev_List(self, e, fr):
        out = self.ev_star(e.elts, fr)
        return out if isinstance(out, Obj) else self.new_list(out)

    def ev_Set(self, e, fr):
        o = self.alloc(HSet(()))
        out = self.ev_star(e.elts, fr)
        if isinstance(out, Obj):
            from . import pybuiltins
            return pybuiltins.to_set(self, out)
        for x in out:
            self.mutate(o, 'add', x)
        return o

    def ev_star(self, elts, fr):
        '''the elements: a Python list, or a list object when their number is not known'''
        from . import pybuiltins
        out, rest = [], []

        def flush():
            if rest:
                h = self.h(out)
                if isinstance(h, HSym) and all(self.type_of(x) is h.ty.elem for x in rest):
                    self.mutate(out, 'extend', h.ty, self.h_term(HList(tuple(rest)), h.ty))
                else:
                    self.mutate(out, 'extend_items', tuple(rest))
                rest.clear()
        for x in elts:
            if isinstance(x, ast.Starred):
                value = self.ev(x.value, fr)
                items = self.concrete_items(value)
                if items is None:
                    if not isinstance(out, Obj):
                        out = self.new_list(out)
                    flush()
                    pybuiltins.call_method(self, out, 'extend', [value], {})
                else:
                    (rest if isinstance(out, Obj) else out).extend(items)
            else:
                (rest if isinstance(out, Obj) else out).append(self.ev(x, fr))
        flush()
        return out

    def ev_Dict(self, e, fr):
        o = self.alloc(HDict(()))
        from . import pybuiltins
        for k, v in zip(e.keys, e.values):
            if k is None:
                pybuiltins.call_method(self, o, 'update', [self.ev(v, fr)], {})
            else:
                self.mutate(o, 'store', self.ev(k, fr), self.ev(v, fr))
        return o

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def mangle(self, name, fr):
        return name

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        self.assign(e.target, v, f)
        return v

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, (ExtMod, ClassVal, PyType)) and not (isinstance(o, ClassVal) and o.is_enum):
            return o        # type expression
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else None
            st = self.ev(e.slice.step, fr) if e.slice.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev(e.slice, fr))

    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f.func is None or f.func.cls is None:
                f = f.parent
            self_name = f.func.node.args.args[0].arg
            return SuperVal(f.func.cls, self.get_field(f.env, self_name))
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                items = self.concrete_items(v)
                if items is None:
                    raise Unsupported('call with * of unknown length')
                args += items
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                h = self.content(v)
                if not isinstance(h, HDict):
                    raise Unsupported('call with ** of unknown keys')
                for kk, vv in h.items:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        if isinstance(f, ExtFn) and f.name == 'vars' and not args:
            return None
        return self.call(f, args, kwargs)

    def ev_Lambda(self, e, fr):
        a = e.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        base = fr.func.qualname if fr.func is not None else f'{fr.module}:'
        return FuncVal(e, fr, fr.module, base + '.<lambda>', None, defaults)

    def ev_IfExp(self, e, fr):
        if self.cond(e.test, fr):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ev_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr)
        for i, x in enumerate(e.values[1:], 1):
            t = self.truth(v)
            if not isinstance(t, bool) and isinstance(v, Sym) and v.ty is BOOL and not self.static_mode:
                p = self.pure_bool(x, fr, t if is_and else z3.Not(t))
                if p is not None:
                    v = BOOL.wrap(self, z3.And(t, p) if is_and else z3.Or(t, p))
                    continue
            if self.branch(t, ast.unparse(e.values[i - 1])[:40]) != is_and:
                return v
            v = self.ev(x, fr)
        return v

    def pure_bool(self, e, fr, given):
        '''like pure_truth, but the value itself has to be a bool'''
        saved = self.truth_expr
        probe = {}

        def only_bool(ex, f):
            if ex is e:
                v = self.ev(ex, f)
                if not (isinstance(v, bool) or (isinstance(v, Sym) and v.ty is BOOL)):
                    raise Unsupported('not a bool')
                return self.truth(v)
            return saved(ex, f)
        self.truth_expr = only_bool
        try:
            return self.pure_truth(e, fr, given)
        finally:
            self.truth_expr = saved

    def ev_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            t = self.truth_expr(e.operand, fr)
            return (not t) if isinstance(t, bool) else BOOL.wrap(self, z3.Not(t))
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.USub):
            if isinstance(v, int):
                return -v
            if isinstance(v, Sym) and v.ty is INT:
                return INT.wrap(self, -v.t)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            if isinstance(v, Sym) and 'invert' in getattr(v.ty, 'methods', {}):
                return v.ty.methods['invert'](self, v, [], {})
        raise Unsupported('unary operator')

    def int_term(self, v):
        if isinstance(v, Sym) and v.ty is BOOL:
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return INT.unwrap(self, v)

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'BitOr': '|', 'BitAnd': '&',
           'BitXor': '^', 'Pow': '**', 'LShift': '<<', 'RShift': '>>'}

    def binop(self, op, a, b):
        o = self.OPS[type(op).__name__]
        for x in (a, b):
            if isinstance(x, Sym):
                key = f'{x.ty.tyname}.{o}' if x is a else f'{x.ty.tyname}.r{o}'
                if key in self.ext:
                    return self.ext[key](self, [a, b], {})
            elif isinstance(x, Obj) and isinstance(self.h(x), HInst) and isinstance(self.h(x).cls, ExtClass):
                m = self.h(x).cls.methods.get(o if x is a else 'r' + o)
                if m is not None:
                    return m(self, a, [b], {})
        if isinstance(a, Obj) and isinstance(self.h(a), HInst) and isinstance(self.h(a).cls, ClassVal):
            m = self.h(a).cls.lookup({'+': '__add__', '/': '__truediv__'}.get(o, ''))
            if m is not None:
                return self.call(m, [a, b], {})
        host = (int, str, bytes, float)
        if isinstance(a, host) and isinstance(b, host):
            return self.host_op(o, a, b)
        for pred, fn in getattr(self, 'host_ops', ()):
            if pred(a) or pred(b):
                r = fn(self, o, a, b)
                if r is not MISSING:
                    return r
        if o == '%' and isinstance(a, str):
            return self.format_percent(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and o == '+':
            return a + b
        ta, tb = self.type_of_scalar(a), self.type_of_scalar(b)
        if ta in (INT, BOOL) and tb in (INT, BOOL) and ta is not None:
            x, y = self.int_term(a), self.int_term(b)
            if o == '+':
                return INT.wrap(self, x + y)
            if o == '-':
                return INT.wrap(self, x - y)
            if o == '*':
                return INT.wrap(self, x * y)
            if o in ('//', '%'):
                if self.branch(y == 0, 'division by zero'):
                    self.raise_(ZeroDivisionError)
                if isinstance(b, int) and b > 0:
                    return INT.wrap(self, x / y if o == '//' else x % y)
                if self.branch(y > 0, 'positive divisor'):
                    return INT.wrap(self, x / y if o == '//' else x % y)
                raise Unsupported('division by a negative number')
            if o == '|' and ta is BOOL and tb is BOOL:
                return BOOL.wrap(self, z3.Or(self.truth(a), self.truth(b)))
            if o == '&' and ta is BOOL and tb is BOOL:
                return BOOL.wrap(self, z3.And(self.truth(a), self.truth(b)))
        if ta is STR and tb is STR and o == '+':
            return STR.wrap(self, World.strings.concat(STR.unwrap(self, a), STR.unwrap(self, b)))
        if ta is BYTES and tb is BYTES and o == '+':
            return BYTES.wrap(self, z3.Concat(BYTES.unwrap(self, a), BYTES.unwrap(self, b)))
        if o == '*' and ta is STR and tb is INT:
            s, n = STR.unwrap(self, a), self.int_term(b)
            r = self.uf('str_repeat', STR, STR, INT)(s, n)
            if isinstance(a, str):
                self.assume(World.strings.length(r) == z3.If(n > 0, n * len(a), 0))
            return STR.wrap(self, r)
        if isinstance(a, SlotRef):
            a = self.slot_value(a)
        if isinstance(b, SlotRef):
            b = self.slot_value(b)
        from . import pybuiltins
        r = pybuiltins.container_op(self, o, a, b)
        if r is not MISSING:
            return r
        if o in ('|', '&', '-') and ta is tb and isinstance(ta, Abs) and o in ta.methods:
            return ta.methods[o](self, a, [b], {})
        raise Unsupported(f'operator {o} on {a!r}, {b!r}')

    def host_op(self, o, a, b):
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                    '//': lambda: a // b, '%': lambda: a % b, '|': lambda: a | b, '&': lambda: a & b,
                    '^': lambda: a ^ b, '**': lambda: a ** b, '<<': lambda: a << b, '>>': lambda: a >> b}[o]()
        except Exception as ex:
            self.raise_(type(ex), str(ex))

    def format_percent(self, fmt, arg):
        args = arg if isinstance(arg, tuple) else (arg,)
        if all(isinstance(x, (str, int)) for x in args):
            return fmt % args
        return STR.wrap(self, self.fresh('formatted', STR.sort))

    def uf(self, name, ret, *tys):
        return z3.Function(name + ':' + World.strings.name, *[t.sort for t in tys], ret.sort)

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            acc.append(self.compare(op, left, right))
            if acc[-1] is False:
                return False
            left = right
        r = self.and_(acc)
        return r if isinstance(r, bool) else BOOL.wrap(self, r)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n == 'Eq':
            return self.eq(a, b)
        if n == 'NotEq':
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if n == 'Is':
            return self.is_(a, b)
        if n == 'IsNot':
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if n == 'In':
            return self.contains(b, a)
        if n == 'NotIn':
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        o = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[n]
        return self.order(o, a, b)

    def order(self, o, a, b):
        if isinstance(a, (int, str, bytes)) and isinstance(b, (int, str, bytes)) and \
                isinstance(a, str) == isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
        for pred, fn in getattr(self, 'host_order', ()):
            if pred(a) or pred(b):
                return fn(self, o, a, b)
        ta, tb = self.type_of_scalar(a), self.type_of_scalar(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            if o in ('>', '>='):
                return self.order({'>': '<', '>=': '<='}[o], b, a)
            if not a or not b:
                return (len(a) < len(b)) if o == '<' else (len(a) <= len(b))
            same = self.eq(a[0], b[0])
            if same is True:
                return self.order(o, a[1:], b[1:])
            first = self.order('<', a[0], b[0])
            if same is False:
                return first
            rest = self.order(o, a[1:], b[1:])
            return self.or_([first, self.and_([same, rest])])
        ok = {INT, BOOL}
        if ta in ok and tb in ok and ta is not None:
            x, y = self.int_term(a), self.int_term(b)
        elif ta is tb and ta is INSTANT:
            x, y = a.t, b.t
        elif ta is tb and ta is STR and World.strings.name == 'theory':
            x, y = STR.unwrap(self, a), STR.unwrap(self, b)
        elif ta is tb and ta is STR:
            x, y = World.strings.rank(STR.unwrap(self, a)), World.strings.rank(STR.unwrap(self, b))
        elif ta is tb and isinstance(ta, Abs) and ta.ordered:
            self.assume(ta.rank_axiom())
            x, y = ta.rank(ta.unwrap(self, a)), ta.rank(ta.unwrap(self, b))
        elif isinstance(a, Obj) and isinstance(b, Obj) and o in ('<', '<=', '>', '>='):
            ha, hb = self.content(a), self.content(b)
            if ha.kind == 'set' == hb.kind:
                ty = ha.ty if isinstance(ha, HSym) else hb.ty if isinstance(hb, HSym) else self.type_of(a)
                x, y = ty.mem(self.h_term(ha, ty)), ty.mem(self.h_term(hb, ty))
                if o in ('>', '>='):
                    x, y = y, x
                e = z3.Const('sub_x', ty.elem.sort)
                r = z3.ForAll([e], z3.Implies(x[e], y[e]), patterns=[x[e]])
                return r if o in ('<=', '>=') else z3.And(r, x != y)
            raise Unsupported('ordering of containers')
        else:
            raise Unsupported(f'ordering of {a!r}, {b!r}')
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]

    def contains(self, c, x):
        if isinstance(c, SlotRef):
            c = self.slot_value(c)
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes, int)):
            return x in c
        tc = self.type_of_scalar(c)
        if tc is STR:
            return World.strings.contains(STR.unwrap(self, c), STR.unwrap(self, x))
        if tc is BYTES:
            return z3.Contains(c.t, BYTES.unwrap(self, x))
        if isinstance(c, Obj):
            h = self.content(c)
            if isinstance(h, HSym):
                if isinstance(h.ty, DictTy):
                    if c.id in self.touched:
                        raise Unsupported('in default dict after lookups')
                    return h.ty.has(h.t, h.ty.key.unwrap(self, x))
                return h.ty.has(h.t, h.ty.elem.unwrap(self, x))
            if isinstance(h, HInst):
                if isinstance(h.cls, ExtClass) and '__contains__' in h.cls.methods:
                    return self.truth(h.cls.methods['__contains__'](self, c, [x], {}))
                if isinstance(h.cls, ClassVal) and h.cls.lookup('__contains__'):
                    return self.truth(self.call(h.cls.lookup('__contains__'), [c, x], {}))
        if isinstance(c, Sym) and isinstance(c.ty, Abs) and '__contains__' in c.ty.methods:
            return self.truth(c.ty.methods['__contains__'](self, c, [x], {}))
        items = self.concrete_items(c)
        if items is not None:
            return self.or_([self.eq(x, y) for y in items])
        if isinstance(c, (GenVal, DictView)):
            from . import pybuiltins
            if isinstance(c, DictView) and c.what == 'keys':
                return self.contains(c.obj, x)
            return pybuiltins.any_(self, c, lambda y: self.eq(x, y))
        raise Unsupported(f'in {c!r}')

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, k):
        if isinstance(o, SlotRef):
            o = self.slot_value(o)
        if isinstance(o, ClassVal) and o.is_enum:
            for n, m in o.members.items():
                e = self.eq(n, k)
                if e is True or (e is not False and self.branch(e, f'name is {n}')):
                    return m
            self.raise_(KeyError, k)
        if isinstance(o, (tuple, str, bytes)) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                self.raise_(IndexError, 'index out of range')
        if isinstance(o, tuple) and isinstance(k, Sym) and k.ty is INT:
            for i in range(len(o)):
                if self.branch(k.t == i, f'index {i}'):
                    return o[i]
            raise Unsupported('tuple index')
        if isinstance(o, Sym):
            ty = o.ty
            if isinstance(ty, (Abs, Rec)) and '__getitem__' in ty.methods:
                return ty.methods['__getitem__'](self, o, [k], {})
            if ty is STR and isinstance(k, (int, Sym)):
                n = World.strings.length(o.t)
                i = self.int_term(k)
                if isinstance(k, int) and k < 0:
                    i = n + k
                if self.branch(z3.And(0 <= i, i < n), 'string index in range'):
                    return STR.wrap(self, World.strings.substr(o.t, i, z3.IntVal(1)))
                self.raise_(IndexError, 'string index out of range')
        if isinstance(o, Obj):
            h = self.h(o)
            if isinstance(h, HInst):
                if isinstance(h.cls, ExtClass) and '__getitem__' in h.cls.methods:
                    return h.cls.methods['__getitem__'](self, o, [k], {})
                if isinstance(h.cls, ClassVal) and h.cls.lookup('__getitem__'):
                    return self.call(h.cls.lookup('__getitem__'), [o, k], {})
            if isinstance(h, HList):
                self.content(o)
                if isinstance(k, int):
                    try:
                        return h.items[k]
                    except IndexError:
                        self.raise_(IndexError, 'list index out of range')
                for i in range(len(h.items)):
                    if self.branch(k.t == i, f'index {i}'):
                        return h.items[i]
                raise Unsupported('symbolic index of a list')
            if isinstance(h, HDict):
                if h.default in ('list', 'set') and any(f.is_pre(o.id) for f in self.ctx.loops):
                    return SlotRef(o, k)
                self.content(o)
                for kk, vv in h.items:
                    e = self.eq(kk, k)
                    if e is True or (e is not False and self.branch(e, f'key is {kk!r}'[:40])):
                        return vv
                if h.default is not None:
                    if h.default not in ('list', 'set'):
                        v = self.call(h.default, [], {})
                        self.mutate(o, 'store', k, v)
                        return v
                    v = self.new_list() if h.default == 'list' else self.alloc(HSet(()))
                    self.mutate(o, 'store', k, v)
                    return v
                self.raise_(KeyError, k)
            if isinstance(h, HSym):
                ty = h.ty
                if isinstance(ty, ListTy):
                    self.content(o)
                    n = ty.n(h.t)
                    i = self.int_term(k)
                    if isinstance(k, int) and k < 0:
                        i = n + k
                    elif not isinstance(k, int):
                        if not self.branch(i >= 0, 'index not negative'):
                            i = n + i
                    if self.branch(z3.And(0 <= i, i < n), 'index in range'):
                        return ty.elem.wrap(self, ty.get(h.t, i))
                    self.raise_(IndexError, 'list index out of range')
                if isinstance(ty, DictTy):
                    if h.default:
                        return SlotRef(o, k)
                    self.content(o)
                    kt = ty.key.unwrap(self, k)
                    if self.branch(ty.has(h.t, kt), 'key present'):
                        if isinstance(ty.val, (ListTy, SetTy)):
                            return SlotRef(o, k)
                        return ty.val.wrap(self, ty.get(h.t, kt))
                    self.raise_(KeyError, k)
        raise Unsupported(f'subscript of {o!r}')

    def getslice(self, o, lo, hi, st):
        if isinstance(o, SlotRef):
            o = self.slot_value(o)
        idx = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if isinstance(o, (tuple, str, bytes)) and idx:
            return o[lo:hi:st]
        if isinstance(o, Obj):
            h = self.content(o)
            if isinstance(h, HList) and idx:
                return self.new_list(h.items[lo:hi:st])
            if isinstance(h, HSym) and isinstance(h.ty, ListTy):
                ty = h.ty
                if st is None or st == 1:
                    n = ty.n(h.t)
                    a = self.clamp(lo, n, z3.IntVal(0))
                    b = self.clamp(hi, n, n)
                    m = z3.If(b > a, b - a, z3.IntVal(0))
                    return self.map_list(ty, m, lambda i: ty.get(h.t, a + i), lambda i: ty.get(h.t, i),
                                         inv=lambda j: j - a, lo=a, hi=a + m, tup=h.tuple)
                if st == -1 and lo is None and hi is None:
                    n = ty.n(h.t)
                    return self.map_list(ty, n, lambda i: ty.get(h.t, n - 1 - i), lambda i: ty.get(h.t, i),
                                         inv=lambda j: n - 1 - j, lo=z3.IntVal(0), hi=n, tup=h.tuple)
        tc = self.type_of_scalar(o)
        if tc is STR and 'str.__getslice__' in self.ext:
            r = self.ext['str.__getslice__'](self, [o, lo, hi, st], {})
            if r is not None:
                return r
        if tc in (STR, BYTES) and st is None:
            S = World.strings
            ot = tc.unwrap(self, o)
            if tc is BYTES:
                length, substr = z3.Length, z3.SubString
            else:
                length, substr = S.length, S.substr
            n = length(ot)
            a = self.clamp(lo, n, z3.IntVal(0))
            b = self.clamp(hi, n, n)
            if lo is None:
                return tc.wrap(self, substr(ot, z3.IntVal(0), b))
            return tc.wrap(self, substr(ot, a, z3.If(b > a, b - a, z3.IntVal(0)) if hi is not None else n - a))
        if isinstance(o, Sym) and isinstance(o.ty, Abs) and '__getslice__' in o.ty.methods:
            return o.ty.methods['__getslice__'](self, o, [lo, hi, st], {})
        raise Unsupported(f'slice of {o!r}')

    def clamp(self, x, n, default):
        if x is None:
            return default
        if isinstance(x, int):
            if x >= 0:
                return z3.If(z3.IntVal(x) > n, n, z3.IntVal(x)) if x else z3.IntVal(0)
            return z3.If(n + x > 0, n + x, z3.IntVal(0))
        t = self.int_term(x)
        t = z3.If(t < 0, z3.If(n + t > 0, n + t, z3.IntVal(0)), t)
        return z3.If(t > n, n, t)

    def map_list(self, ty, n, elem, src_trigger=None, inv=None, lo=None, hi=None, tup=False, trigger_is_elem=True):
        '''New list with new[i] = elem(i), 0 <= i < n (elem by terms).'''
        new = ty.fresh(self, 'list')
        i = z3.Int('mi')
        self.assume(ty.n(new) == n)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ty.get(new, i) == elem(i)),
                              patterns=[ty.get(new, i)]))
        if inv is not None:
            self.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), ty.get(new, inv(i)) == elem(inv(i))),
                                  patterns=[src_trigger(i)]))
            # the element at the source position is the one at inv(i)
            if trigger_is_elem:
                self.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), src_trigger(i) == ty.get(new, inv(i))),
                                      patterns=[src_trigger(i)]))
        return self.alloc(HSym(ty, new, None, tup))

    def setitem(self, o, k, v):
        if isinstance(o, Sym) and isinstance(o.ty, Abs) and '__setitem__' in o.ty.methods:
            o.ty.methods['__setitem__'](self, o, [k, v], {})
            return
        if isinstance(o, Obj):
            h = self.h(o)
            if h.kind == 'dict':
                self.mutate(o, 'store', k, v)
                return
            if isinstance(h, HInst):
                if isinstance(h.cls, ExtClass) and '__setitem__' in h.cls.methods:
                    h.cls.methods['__setitem__'](self, o, [k, v], {})
                    return
            if isinstance(h, HList) and isinstance(k, int):
                items = list(h.items)
                items[k] = v
                self.mutate(o, 'replace', HList(items))
                return
        raise Unsupported(f'item assignment on {o!r}')

    def delitem(self, o, k):
        if isinstance(o, Sym) and isinstance(o.ty, Abs) and '__delitem__' in o.ty.methods:
            o.ty.methods['__delitem__'](self, o, [k], {})
            return
        if isinstance(o, Obj):
            h = self.content(o)
            if h.kind == 'dict':
                c = self.contains(o, k)
                if not self.branch(c, 'key present'):
                    self.raise_(KeyError, k)
                self.mutate(o, 'delete', k)
                return
            if isinstance(h, HList) and isinstance(k, int):
                items = list(h.items)
                del items[k]
                self.mutate(o, 'replace', HList(items))
                return
            if isinstance(h, HInst) and isinstance(h.cls, ExtClass) and '__delitem__' in h.cls.methods:
                h.cls.methods['__delitem__'](self, o, [k], {})
                return
        raise Unsupported(f'del item of {o!r}')

    # ------------------------------------------------------------ strings
    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord('r'):
                    x = self.to_repr(x)
                elif v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                    if isinstance(x, (int, str)) and isinstance(spec, str):
                        x = format(x, spec)
                    else:
                        x = STR.wrap(self, self.fresh('formatted', STR.sort))
                parts.append(self.to_str(x))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        ts = [STR.unwrap(self, p) for p in parts if p != '' or not isinstance(p, str)]
        return STR.wrap(self, World.strings.concat(*ts))

    def to_repr(self, v):
        if isinstance(v, (int, str, bytes)) or v is None:
            return repr(v)
        return STR.wrap(self, self.fresh('repr', STR.sort))

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or isinstance(v, int) or v is None:
            return str(v)
        if isinstance(v, Sym):
            if v.ty is STR:
                return v if not isinstance(v, StrSub) else STR.wrap(self, v.t)
            if v.ty is INT:
                return STR.wrap(self, World.strings.from_int(v.t))
            key = f'{v.ty.tyname}.__str__'
            if key in self.ext:
                return self.ext[key](self, [v], {})
            if isinstance(v.ty, Abs):
                if isinstance(v.ty, Abs) and '__str__' in v.ty.methods:
                    return v.ty.methods['__str__'](self, v, [], {})
                return STR.wrap(self, self.uf('str_of:' + v.ty.tyname, STR, v.ty)(v.t))
        for pred, fn in getattr(self, 'host_str', ()):
            if pred(v):
                return fn(self, v)
        if isinstance(v, Obj):
            h = self.h(v)
            if isinstance(h, HInst) and isinstance(h.cls, ClassVal):
                m = h.cls.lookup('__str__') or h.cls.lookup('__repr__')
                if m is not None:
                    return self.call(m, [v], {})
        return STR.wrap(self, self.fresh('str', STR.sort))

    # ------------------------------------------------------------ comprehensions
    def comp_loop(self, gens, fr, body):
        g = gens[0]
        it = self.ev(g.iter, fr)

        def step(x):
            self.assign(g.target, x, fr)
            for c in g.ifs:
                if not self.cond(c, fr):
                    return
            if len(gens) > 1:
                self.comp_loop(gens[1:], fr, body)
            else:
                body()
        self.iterate(it, step, node=g, fr=fr)

    def comp_frame(self, fr):
        f = Frame(fr.module, self.alloc(HEnv({})), fr, fr.func, None, None)
        f.comp = True
        return f

    def ev_ListComp(self, e, fr):
        f = self.comp_frame(fr)
        o = self.new_list()
        return self.build(o, lambda: self.comp_loop(e.generators, f, lambda: self.mutate(o, 'append', self.ev(e.elt, f))))

    def ev_SetComp(self, e, fr):
        f = self.comp_frame(fr)
        o = self.alloc(HSet(()))
        return self.build(o, lambda: self.comp_loop(e.generators, f, lambda: self.mutate(o, 'add', self.ev(e.elt, f))))

    def ev_DictComp(self, e, fr):
        f = self.comp_frame(fr)
        o = self.alloc(HDict(()))
        return self.build(o, lambda: self.comp_loop(e.generators, f, lambda: self.mutate(o, 'store', self.ev(e.key, f), self.ev(e.value, f))))

    def ev_GeneratorExp(self, e, fr):
        # the first iterable is evaluated immediately
        f = self.comp_frame(fr)
        first = self.ev(e.generators[0].iter, fr)

        def run(step):
            g = e.generators[0]
            f2 = Frame(fr.module, self.alloc(HEnv(dict(self.h(f.env).fields))), fr, fr.func)

            def inner(x):
                self.assign(g.target, x, f2)
                for c in g.ifs:
                    if not self.cond(c, f2):
                        return
                if len(e.generators) > 1:
                    self.comp_loop(e.generators[1:], f2, lambda: step(self.ev(e.elt, f2)))
                else:
                    step(self.ev(e.elt, f2))
            self.iterate(first, inner, node=g, fr=f2)
        return GenVal(run, 'genexpr')

    def ev_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def ev_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        f = fr
        while f is not None and f.yield_cb is None:
            f = f.parent
        f.yield_cb(v)
        return None

    def ev_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.yield_cb is None:
            f = f.parent
        self.iterate(v, f.yield_cb)
        return None


class _Missing:
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class ExtClass:
    '''Class of an external object that lives in the heap: methods(I, obj, args, kwargs), attrs(I, obj).'''

    def __init__(self, name, methods=None, attrs=None):
        self.name = name
        self.methods = methods or {}
        self.attrs = attrs or {}

    def mro(self):
        return [self]

    def lookup(self, name):
        return None


class CtxMgr:
    def __init__(self, func, vals):
        self.func = func
        self.vals = vals


def is_generator(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False
