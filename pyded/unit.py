'''Verification units: contracts stated over the real functions, and their execution.'''
import os
import time
import traceback
import z3

from . import terms as T
from .terms import (Sym, StrSub, Unsupported, INT, BOOL, STR, BYTES, INSTANT, NONE, Abs, Rec, Ty, World, Container,
                    ListTy, SetTy, DictTy)
from .core import Ctx, FailFast, PyRaise, PathEnd, NotSummarizable, Signal
from .prover import Prover
from .interp import Interp, MISSING, ExtClass
from .values import *
from . import stdlib
from .loops import LoopSpec


class Outcome:
    '''How a call ended: value, or exception object.'''
    def __init__(self, v, value=None, exc=None):
        self._v = v
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def exc_name(self):
        return self._v.I.exc_class_name(self.exc) if self.exc is not None else None


def _has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_app_of(t, z3.Z3_OP_ITE) or any(_has_ite(c, seen) for c in t.children())


class V:
    '''What a unit uses to talk about code.'''

    def __init__(self, I, unit):
        self.I = I
        self.ctx = I.ctx
        self.unit = unit

    # values
    def const(self, name, ty):
        return ty.wrap(self.I, ty.fresh(self.I, name))

    def t(self, value, ty=None):
        if isinstance(value, bool):
            return z3.BoolVal(value)
        if isinstance(value, Sym) and (ty is None or value.ty is ty):
            return value.t
        if z3.is_expr(value):
            return value
        ty = ty or self.I.type_of(value)
        return ty.unwrap(self.I, value)

    def assume(self, t):
        t = self._b(t)
        self.ctx.assume(t)
        return t

    def _b(self, t):
        if isinstance(t, Sym):
            return t.t
        return t

    def check(self, label, t, keep=True, using=None):
        t = self._b(t)
        self.ctx.check(label, t, keep, using)
        return t

    def lemma(self, label, t, using=None):
        '''An obligation that is used only where it is named.'''
        return self.check('lemma: ' + label, t, keep=False, using=using)

    def hint(self, t):
        '''Used when it can be proved; not an obligation.'''
        return self.ctx.hint(t)

    def fail(self, label):
        self.ctx.check(label, z3.BoolVal(False))

    def forall(self, tys, f, patterns=None):
        '''forall x: f(x); f gets terms'''
        tys = tys if isinstance(tys, (list, tuple)) else [tys]
        vs = [z3.Const(f'q{self.ctx.nfresh}_{k}', t.sort if isinstance(t, Ty) else t) for k, t in enumerate(tys)]
        self.ctx.nfresh += 1
        body = f(*vs)
        if patterns:
            ps = patterns(*vs)
            if not any(_has_ite(p) for p in ps):
                return z3.ForAll(vs, body, patterns=ps)
        return z3.ForAll(vs, body)

    def exists(self, tys, f, patterns=None):
        tys = tys if isinstance(tys, (list, tuple)) else [tys]
        vs = [z3.Const(f'q{self.ctx.nfresh}_{k}', t.sort if isinstance(t, Ty) else t) for k, t in enumerate(tys)]
        self.ctx.nfresh += 1
        return z3.Exists(vs, f(*vs), patterns=patterns(*vs) if patterns else [])

    # code
    def get(self, path):
        return self.I.resolve(path)

    def has(self, path):
        try:
            self.I.resolve(path)
            return True
        except LookupError:
            return False

    def call(self, f, *args, **kwargs):
        if isinstance(f, str):
            f = self.I.resolve(f)
        return self.I.call(f, list(args), kwargs)

    def body(self, path, *args, **kwargs):
        '''Call the function itself, even if there is a contract for it.'''
        f = self.I.resolve(path)
        if isinstance(f, ClassMethodVal) or isinstance(f, StaticMethodVal):
            self.I.force_body = f.func.qualname
        elif isinstance(f, PropertyVal):
            self.I.force_body = f.getter.qualname
            f = f.getter
        elif isinstance(f, FuncVal):
            self.I.force_body = f.qualname
        return self.I.call(f, list(args), kwargs)

    def attempt(self, fn, *args, **kwargs):
        '''Run fn (or call a function by name), catching the exception it raises.'''
        try:
            if isinstance(fn, str) or not callable(fn):
                return Outcome(self, self.call(fn, *args, **kwargs))
            return Outcome(self, fn(*args, **kwargs))
        except PyRaise as e:
            return Outcome(self, None, e.exc)

    def method(self, obj, name, *args, **kwargs):
        return self.I.call(self.I.getattr(obj, name), list(args), kwargs)

    def getattr(self, obj, name):
        return self.I.getattr(obj, name)

    def setattr(self, obj, name, value):
        self.I.setattr(obj, name, value)

    def new(self, cls, **fields):
        '''Instance of a class with given fields (no constructor call).'''
        c = self.I.resolve(cls) if isinstance(cls, str) else cls
        return self.I.alloc(HInst(c, dict(fields)))

    def list(self, *items):
        return self.I.new_list(items)

    def dict(self, items=(), default=None):
        items = items.items() if isinstance(items, dict) else items
        return self.I.alloc(HDict(tuple(items), default))

    def is_exc(self, o, path):
        c = self.I.resolve(path) if isinstance(path, str) else PyType(path)
        return o.exc is not None and self.I.exc_matches(o.exc, c)

    def stub(self, path, fn):
        '''Contract of a function, used instead of its body: fn(I, f, args, kwargs).'''
        self.I.stubs[path] = fn

    def become(self, obj, ty, t):
        '''A container gets other content.'''
        self.I.mutate(obj, 'become', ty, t)

    def ext(self, name, fn):
        self.I.ext[name] = fn

    def loop(self, where, inv, **kw):
        self.I.loop_specs.append(LoopSpec(where, inv, **kw))

    def branch(self, t, label=''):
        return self.I.branch(self._b(t), label)

    def choose(self, n, label=''):
        return self.ctx.choose(n, label)

    def items(self, obj):
        '''concrete items of a container, None if symbolic'''
        return self.I.concrete_items(obj)

    def kind(self, obj):
        return self.I.h(obj).kind if isinstance(obj, Obj) else type(obj).__name__

    def eq(self, a, b):
        r = self.I.eq(a, b)
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def truth(self, a):
        r = self.I.truth(a)
        return z3.BoolVal(r) if isinstance(r, bool) else r


class Unit:
    def __init__(self, name, fn, targets=(), mode='theory', budget=120, ext=None, optional=None, setup=None,
                 unroll=None):
        self.name = name
        self.fn = fn
        self.targets = tuple(targets)
        self.mode = mode
        self.budget = budget
        self.ext = ext
        self.optional = optional    # path: the unit is dropped when the code has no such function
        self.setup = setup
        self.unroll = unroll


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.obligations = {}
        self.reason = ''
        self.functions = []
        self.stubs = []
        self.ext = []
        self.paths = 0
        self.time = 0.0
        self.solver_time = 0.0
        self.queries = 0
        self.skipped = False

    def as_dict(self):
        return {k: v for k, v in self.__dict__.items()}


def run_unit(unit, root, quick=True):
    '''Decide a unit; with other assignments of roles to variables, if there are and the first does not do.'''
    first, more = run_unit_once(unit, root, quick, 0)
    alt = 1
    while first.status in ('failed', 'undecided') and alt < min(more, 12):
        r, _ = run_unit_once(unit, root, quick, alt)
        if r.status == 'proved':
            r.reason = f'with assignment of roles {alt}'
            return r
        alt += 1
    return first


def run_unit_once(unit, root, quick, alt):
    World.reset(unit.mode)
    res = UnitResult(unit.name)
    t0 = time.monotonic()
    prover = Prover(quick=quick)
    ctx = Ctx(prover, unit.budget * (1 if quick else 4))
    ctx.fail_fast = alt > 0
    reg = stdlib.ext()
    if unit.ext:
        reg.update(unit.ext() if callable(unit.ext) else unit.ext)
    I = Interp(ctx, root, reg)
    I.alt = alt
    if unit.unroll is not None:
        I.loop_engine.UNROLL = unit.unroll
    v = V(I, unit)
    if unit.optional:
        try:
            I.resolve(unit.optional)
        except (LookupError, Unsupported):
            res.skipped = True
            res.status = 'skipped'
            res.reason = f'{unit.optional} is not in the code, its callers are verified with what they call'
            return res, 0
    final = []

    def run():
        r = unit.fn(v)
        final.append(1)
        return r
    base_stubs = None
    try:
        if unit.setup:
            unit.setup(v)
        base_stubs = dict(I.stubs), list(I.loop_specs), dict(I.ext)

        def top():
            I.stubs, I.loop_specs, I.ext = dict(base_stubs[0]), list(base_stubs[1]), dict(base_stubs[2])
            I.depth = 0
            I.building = []
            I.force_body = None
            return run()
        paths = ctx.explore(top, signals=True)
        for p in paths:
            if p.outcome != 'ok':
                msg = type(p.outcome).__name__
                if isinstance(p.outcome, PyRaise):
                    ctx.heap = p.state[0]
                    msg = 'uncaught exception ' + I.exc_class_name(p.outcome.exc) + ' ' + \
                        str(I.h(p.outcome.exc).fields.get('args'))[:200]
                # is the path possible at all?
                st, back, info = prover.prove(World.axioms() + p.pc, z3.BoolVal(False))
                if st != 'proved':
                    from .core import Obligation
                    ob = ctx.obligations.setdefault('no unexpected exception', Obligation('no unexpected exception'))
                    ob.count += 1
                    ob.failures.append((st, msg, list(p.state[7]), None))
        live = [p for p in paths if p.outcome == 'ok']
        if not any(o.failures for o in ctx.obligations.values()):
            if not ctx.obligations:
                res.status, res.reason = 'undecided', 'no obligations were generated'
            elif not live and not ctx.npaths_ended:
                res.status, res.reason = 'undecided', 'vacuous: no path gets to the end'
            elif live and all(prover.contradictory(World.axioms() + p.pc) for p in live[:6]):
                res.status, res.reason = 'undecided', 'vacuous: contradictory assumptions'
    except FailFast:
        res.status = 'failed'
    except (Unsupported, NotSummarizable) as e:
        res.status, res.reason = 'undecided', f'outside of the verifier: {e}'
    except LookupError as e:
        res.status, res.reason = 'undecided', f'not found: {e}'
    except RecursionError:
        res.status, res.reason = 'undecided', 'recursion limit of the verifier'
    except Exception as e:
        res.status, res.reason = 'undecided', f'verifier error: {type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]
    for label, ob in ctx.obligations.items():
        res.obligations[label] = dict(count=ob.count, proved=ob.proved, time=round(ob.time, 3), backends=ob.backends,
                                      failures=[(f[0], str(f[1])[:1500], [str(x) for x in f[2][-40:]],
                                                 str(f[3])[:1500] if f[3] is not None else '')
                                                for f in ob.failures[:3]])
        if ob.failures and res.status in ('proved', 'undecided'):
            res.status = 'failed'
    res.functions = sorted(I.used_functions)
    res.stubs = sorted(I.used_stubs)
    res.ext = sorted(I.used_ext)
    res.paths = ctx.npaths
    res.time = time.monotonic() - t0
    res.solver_time = prover.time
    res.queries = prover.queries
    return res, I.role_alternatives
