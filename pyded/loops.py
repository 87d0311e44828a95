'''
Loops over sequences of unknown length.

1. Summarization: the body is executed on one generic iteration i. Changes of
   containers made before the loop are collected as events, and the exact effect
   of all iterations is described by quantified facts (no bound). Iterations that
   leave the loop (break, return, raise) become separate continuations.
2. Invariants: where an iteration depends on the previous ones, a LoopSpec gives
   the invariant; it is checked on entry and for an arbitrary iteration.
'''
import ast
import z3

from . import terms as T
from .terms import (Sym, Unsupported, INT, BOOL, STR, NONE, Union, Tup, Rec, ListTy, SetTy, DictTy, ListOf, SetOf,
                    DictOf, TupOf, Container)
from .core import Signal, PathEnd, NotSummarizable, BreakSig, ContinueSig, PyRaise, ReturnSig, ConsumerSig
from .values import *

LOGGED = {'append', 'extend_items', 'extend', 'add', 'union', 'store', 'slotappend', 'slotadd', 'discard', 'delete'}


def coerce(I, frm, to, t):
    '''Term of type frm as a term of type to.'''
    if frm is to:
        return t
    if isinstance(to, Union):
        if isinstance(frm, Union):
            out = None
            for a, ty in reversed(list(frm.alts.items())):
                c = coerce(I, ty, to, None if ty is NONE else frm.val(a, t))
                out = c if out is None else z3.If(frm.is_(a, t), c, out)
            return out
        for a, ty in to.alts.items():
            if ty is frm:
                return to.mk(a) if ty is NONE else to.mk(a, t)
        for a, ty in to.alts.items():
            if ty is not NONE:
                try:
                    return to.mk(a, coerce(I, frm, ty, t))
                except Unsupported:
                    pass
    if isinstance(frm, Tup) and isinstance(to, Tup) and len(frm.tys) == len(to.tys):
        return to.mk(*[coerce(I, a, b, frm.item(k, t)) for k, (a, b) in enumerate(zip(frm.tys, to.tys))])
    if frm is BOOL and to is INT:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f'cannot use {frm} as {to}')


class Frozen:
    '''value fixed as a term'''
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class SumFrame:
    def __init__(self, watermark, known_writes, mutated, carried_types):
        self.watermark = watermark
        self.known_writes = known_writes
        self.mutated = mutated
        self.carried_types = carried_types
        self.events = ()
        self.writes = frozenset()
        self.reads = frozenset()
        self.carried = ()

    def snapshot(self):
        return (self.events, self.writes, self.reads, self.carried)

    def restore(self, s):
        self.events, self.writes, self.reads, self.carried = s

    def effects(self):
        return (len(self.events), self.writes)

    def merge_reads(self, s):
        self.reads = self.reads | s[2]
        self.carried = s[3]

    def is_pre(self, oid):
        return oid <= self.watermark

    def on_field_read(self, I, obj, name, v):
        if obj.id > self.watermark:
            return None
        key = (obj.id, name)
        if key in self.writes or key not in self.known_writes:
            return None
        for k, val in self.carried:
            if k == key:
                return val
        ty = self.carried_types.get(key)
        if ty is None or isinstance(ty, Container):
            raise NotSummarizable(f'{name!r} is carried from one iteration to the next')
        t = ty.fresh(I, 'carried_' + name)
        val = ty.wrap(I, t)
        self.carried = self.carried + ((key, val),)
        return val

    def on_field_write(self, I, obj, name, old):
        if obj.id <= self.watermark:
            self.writes = self.writes | {(obj.id, name)}

    def on_content_read(self, I, obj):
        if obj.id <= self.watermark:
            if obj.id in self.mutated:
                raise NotSummarizable('a container changed in the loop is read in it')
            self.reads = self.reads | {obj.id}

    def on_mutate(self, I, obj, op, args):
        if obj.id > self.watermark:
            return False
        if op not in LOGGED:
            raise NotSummarizable(f'{op} in a loop')
        if obj.id in self.reads:
            raise NotSummarizable('a container read in the loop is changed in it')
        self.events = self.events + (freeze_event(I, obj, op, args),)
        return True


class RecFrame:
    '''Records what a loop body changes.'''
    def __init__(self, watermark):
        self.watermark = watermark
        self.writes = frozenset()
        self.muts = frozenset()

    def snapshot(self):
        return (self.writes, self.muts)

    def restore(self, s):
        self.writes, self.muts = s

    def effects(self):
        return (len(self.muts), self.writes)

    def merge_reads(self, s):
        pass

    def is_pre(self, oid):
        return False

    def on_field_read(self, I, obj, name, v):
        return None

    def on_field_write(self, I, obj, name, old):
        if obj.id <= self.watermark:
            self.writes = self.writes | {(obj.id, name)}

    def on_content_read(self, I, obj):
        pass

    def on_mutate(self, I, obj, op, args):
        if obj.id <= self.watermark:
            self.muts = self.muts | {obj.id}
        return False


def freeze(I, v):
    ty = I.type_of(v)
    if ty is None:
        raise NotSummarizable(f'no type for {v!r} stored in a container in a loop')
    return Frozen(ty, None if ty is NONE else ty.unwrap(I, v))


def freeze_event(I, obj, op, args):
    if op in ('append', 'add', 'discard', 'delete'):
        return (obj, op, (freeze(I, args[0]),))
    if op == 'extend_items':
        return (obj, op, tuple(freeze(I, x) for x in args[0]))
    if op in ('extend', 'union'):
        return (obj, op, (Frozen(args[0], args[1]),))
    if op in ('store', 'slotappend', 'slotadd'):
        return (obj, op, (freeze(I, args[0]), freeze(I, args[1])))
    raise NotSummarizable(op)


class LoopSpec:
    '''
    Loop contract. where: qualified function name (or its beginning and *); match: optional
    predicate on the ast node. inv(L) -> [(label, term)].
    types: variable name -> Ty for containers.
    '''
    def __init__(self, where, inv, match=None, types=None, name=None, prefer=False, over=None):
        self.where = where
        self.inv = inv
        self.match = match
        self.types = types or {}
        self.name = name or where
        self.prefer = prefer
        self.over = over        # predicate on what the loop goes over
        self.used = 0


class LoopView:
    '''What an invariant can refer to.'''
    def __init__(self, I, fr, i, view, node, entry=None):
        self.I = I
        self.fr = fr
        self.i = i
        self.view = view
        self.n = view.n if view is not None else None
        self.node = node
        self.entry = entry if entry is not None else {}

    def at_entry(self, obj, ty):
        '''What a container was when the loop was entered (to be used in every state of the loop).'''
        if obj.id not in self.entry:
            self.entry[obj.id] = ty.unwrap(self.I, obj)
        return self.entry[obj.id]

    def frames(self):
        f = self.fr
        while f is not None and f.parent is not None:
            yield f
            f = f.parent

    def has(self, name):
        return any(name in self.I.h(f.env).fields for f in self.frames())

    def var(self, name):
        for f in self.frames():
            fs = self.I.h(f.env).fields
            if name in fs:
                return fs[name]
        raise Unsupported(f'loop contract: no variable {name}')

    def tested(self, pred):
        '''The variables with a property that the test of the while loop goes by.'''
        if not isinstance(self.node, ast.While):
            return []
        names = [n.id for n in ast.walk(self.node.test) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
        made = [n.target.id for n in ast.walk(self.node.test) if isinstance(n, ast.NamedExpr)]
        out = []
        for k in dict.fromkeys(names):
            if k not in made and self.has(k):
                x = self.var(k)
                if not isinstance(x, Poison) and pred(x):
                    out.append(x)
        return out

    def find(self, pred, what='variable'):
        '''The only local variable with a property.'''
        out = []
        for f in self.frames():
            for k, v in self.I.h(f.env).fields.items():
                if not isinstance(v, Poison) and pred(k, v) and not any(v is x or v == x for x in out):
                    out.append(v)
        if len(out) != 1:
            raise Unsupported(f'loop contract: {len(out)} candidates for {what}')
        return out[0]

    def term(self, v, ty):
        return ty.unwrap(self.I, v)

    def roles(self, key, hints, pred):
        '''
        Names of the local variables that play the given roles: hints are their
        usual names. When the code uses other names, the assignments of roles
        are tried one after the other (every one is a complete proof).
        '''
        memo = self.I.role_memo
        if key not in memo:
            import itertools
            names = []
            f = self.fr
            while f is not None and f.parent is not None:
                for k, v in self.I.h(f.env).fields.items():
                    if k not in names and not isinstance(v, Poison) and pred(v):
                        names.append(k)
                f = f.parent
            perms = [p for p in itertools.permutations(names, len(hints))]
            # what was defined last is the likely one (parameters come first)
            perms.sort(key=lambda p: (-sum(a == b for a, b in zip(p, hints)), [-names.index(x) for x in p]))
            if all(h in names for h in hints):
                perms = perms[:1]
            if not perms:
                raise Unsupported('loop contract: no variables for its roles')
            # all the combinations of the roles of different keys are numbered
            before = self.I.role_alternatives or 1
            self.I.role_alternatives = before * len(perms)
            memo[key] = perms[self.I.alt // before % len(perms)]
        return [self.var(n) for n in memo[key]]

    def variant(self, key, n):
        '''One of n forms of an invariant: they are tried one after the other.'''
        memo = self.I.role_memo
        if key not in memo:
            before = self.I.role_alternatives or 1
            self.I.role_alternatives = before * n
            memo[key] = self.I.alt // before % n
        return memo[key]

    def collected(self, key, hints, pred):
        '''The container the elements go to: one under construction, or a local variable.'''
        if self.I.building:
            return self.I.building[-1]
        return self.roles(key, hints, pred)[0]

    def is_container(self, *kinds):
        return lambda v: isinstance(v, Obj) and self.I.h(v).kind in kinds


class LoopEngine:
    UNROLL = 40

    def __init__(self, I):
        self.I = I
        self.summarized = 0

    def effects_of(self, snap):
        if len(snap) == 4:
            return (len(snap[0]), snap[1])
        return (len(snap[1]), snap[0])

    def spec_for(self, node, fr):
        f = fr
        qual = None
        while f is not None:
            if f.func is not None:
                qual = f.func.qualname
                break
            f = f.parent
        for s in self.I.loop_specs:
            if qual is not None and (qual == s.where or (s.where[-1:] == '*' and qual.startswith(s.where[:-1]))) and (s.match is None or s.match(node)):
                return s
        return None

    # ------------------------------------------------------------ for
    def for_loop(self, view, step, node, fr):
        n = z3.simplify(view.n) if z3.is_expr(view.n) else z3.IntVal(view.n)
        if z3.is_int_value(n):
            k = n.as_long()
            if k <= self.UNROLL:
                for i in range(k):
                    step(view.elem(z3.IntVal(i)))
                return
        spec = self.spec_for(node, fr) if fr is not None else None
        if spec is not None and spec.over is not None and not spec.over(view):
            spec = None
        if spec is not None and spec.prefer:
            return self.for_invariant(spec, view, step, node, fr)
        try:
            self.summarize(view, step, node, fr)
        except NotSummarizable as e:
            if spec is None:
                where = ast.unparse(node).splitlines()[0][:80] if node is not None else 'loop'
                raise Unsupported(f'loop needs an invariant ({e}): {where}')
            self.for_invariant(spec, view, step, node, fr)

    def summarize(self, view, step, node, fr):
        I = self.I
        ctx = I.ctx
        known, mutated, ctypes = frozenset(), frozenset(), {}
        n = view.n
        checks = ctx.checks_enabled
        watermark = ctx.nid
        base_heap = ctx.heap
        base_fresh = ctx.nfresh
        nbase = len(ctx.pc)
        ivar = z3.Const(f'it!{ctx.nfresh}!{len(ctx.loops)}', z3.IntSort())
        depth = len(ctx.loops)

        def attempt(known, mutated, ctypes, final):
            frame = SumFrame(watermark, known, mutated, ctypes)
            ctx.loops.append(frame)
            ctx.checks_enabled = checks and final

            def body():
                ctx.assume(z3.And(0 <= ivar, ivar < n))
                step(view.elem(ivar))
            try:
                return ctx.explore(body)
            finally:
                ctx.loops.pop()
                ctx.checks_enabled = checks

        for rnd in range(8):
            paths = attempt(known, mutated, ctypes, False)
            k2, m2 = set(known), set(mutated)
            for p in paths:
                ev, wr, rd, _ = p.extra[depth]
                k2 |= wr
                m2 |= {e[0].id for e in ev}
            # types of the written scalars
            t2 = {}
            for key in k2:
                oid, name = key
                tys = []
                bad = False
                if name in base_heap.get(oid, _NOFIELDS).fields if oid in base_heap else False:
                    tys.append(self.scalar_type(base_heap[oid].fields[name]))
                elif oid in ctx.static and name in ctx.static[oid].fields:
                    tys.append(self.scalar_type(ctx.static[oid].fields[name]))
                else:
                    bad = True      # not defined before the loop
                for p in paths:
                    if key in p.extra[depth][1]:
                        fs = p.state[0][oid].fields if oid in p.state[0] else {}
                        tys.append(self.scalar_type(fs[name]) if name in fs else None)
                if not bad and tys and None not in tys:
                    ty = I.join_types(tys)
                    if ty is not None:
                        t2[key] = ty
            if k2 == known and m2 == mutated and t2 == ctypes:
                break
            known, mutated, ctypes = frozenset(k2), frozenset(m2), t2
        else:
            raise Unsupported('loop effects did not stabilize')
        if checks:
            paths = attempt(known, mutated, ctypes, True)
        self.summarized += 1
        for p in paths:
            if any(e[0].id in p.extra[depth][2] for q in paths for e in q.extra[depth][0]):
                raise NotSummarizable('a container changed in the loop is read in it')
        normal = [p for p in paths if p.outcome == 'ok']
        exits = [p for p in paths if p.outcome != 'ok']
        # outer frames: reads made by the body
        for p in paths:
            for f, s in zip(ctx.loops, p.extra):
                if isinstance(f, SumFrame):
                    f.reads = f.reads | s[2]
        S = Summary(I, view, ivar, base_fresh, normal, known, depth, ctypes, base_heap)
        alt = ctx.choose(1 + len(exits), 'loop outcome',
                         lambda a: True if a else (bool(normal) or ctx.feasible(z3.Not(n > 0))))
        if alt == 0:
            if not normal:
                ctx.assume(z3.Not(n > 0))
                return
            ctx.assume(n >= 0) if z3.is_expr(n) else None
            S.apply_prefix(n)
            return
        p = exits[alt - 1]
        # leaves at iteration ivar
        S.apply_prefix(ivar, p)
        raise p.outcome

    def scalar_type(self, v):
        if isinstance(v, Poison):
            return None
        if isinstance(v, Obj) or isinstance(v, SlotRef):
            h = self.I.ctx.heap.get(v.id) if isinstance(v, Obj) else None
            return None
        try:
            ty = self.I.type_of(v)
        except Exception:
            return None
        return ty

    # ------------------------------------------------------------ invariants
    def learn(self, body, havoc, spec):
        '''Which pre-loop fields and containers a generic iteration changes.'''
        ctx = self.I.ctx
        W, M = frozenset(), frozenset()
        checks, ctx.checks_enabled = ctx.checks_enabled, False
        types = {}
        try:
            for rnd in range(6):
                frame = RecFrame(ctx.nid)
                wm = ctx.nid

                def run():
                    havoc(W, M, types)
                    frame.writes, frame.muts = frozenset(), frozenset()
                    body()
                ctx.loops.append(frame)
                frame.watermark = wm
                try:
                    paths = ctx.explore(run)
                finally:
                    ctx.loops.pop()
                w2, m2, t2 = set(W), set(M), dict(types)
                for p in paths:
                    w, m = p.extra[-1]
                    w2 |= {x for x in w if x[0] <= wm}
                    m2 |= {x for x in m if x <= wm}
                    heap = p.state[0]
                    saved = ctx.heap
                    ctx.heap = heap
                    try:
                        for x in m2:
                            if x in heap:
                                try:
                                    ty = self.I.type_of(Obj(x))
                                except Exception:
                                    ty = None
                                if ty is not None:
                                    t2[x] = ty
                        for oid, name in w2:
                            fs = heap[oid].fields if oid in heap else {}
                            if name in fs and not isinstance(fs[name], Poison):
                                v = fs[name]
                                ty = None
                                try:
                                    ty = self.I.type_of(v)
                                except Exception:
                                    pass
                                old = t2.get((oid, name))
                                t2[(oid, name)] = ty if old is None or old is ty else self.I.join_types([old, ty])
                    finally:
                        ctx.heap = saved
                if w2 == W and m2 == M:
                    return W, M, t2
                W, M, types = frozenset(w2), frozenset(m2), t2
        finally:
            ctx.checks_enabled = checks
        raise Unsupported('loop effects did not stabilize')

    def havoc(self, spec, fr, W, M, types):
        I = self.I
        names = {}
        f = fr
        while f is not None and f.parent is not None:
            for k, v in I.h(f.env).fields.items():
                if isinstance(v, Obj) and k in spec.types:
                    names[v.id] = spec.types[k]
            f = f.parent
        for oid in sorted(M):
            h = I.h(Obj(oid))
            ty = names.get(oid) or (h.ty if isinstance(h, HSym) else None) or types.get(oid)
            if ty is None:
                raise Unsupported('loop contract: unknown type of a changed container')
            for f in reversed(I.ctx.loops):     # it is changed in the enclosing loops, too
                f.on_mutate(I, Obj(oid), 'become', ())
            I.set_h(Obj(oid), HSym(ty, ty.fresh(I, 'inv'), getattr(h, 'default', None)))
        for oid, name in sorted(W):
            fs = I.h(Obj(oid)).fields
            old = fs.get(name)
            ty = spec.types.get(name) or types.get((oid, name))
            oty = None
            if name in fs and not isinstance(old, Poison):
                try:
                    oty = I.type_of(old)
                except Exception:
                    oty = None
                if spec.types.get(name) is None:
                    ty = I.join_types([ty, oty]) if oty is not None else None
            else:
                ty = spec.types.get(name)
            if ty is None:
                val = Poison('changed in a loop')
            elif isinstance(ty, Container):
                val = I.alloc(HSym(ty, ty.fresh(I, 'inv_' + name)))
            else:
                val = ty.wrap(I, ty.fresh(I, 'inv_' + name))
            I.set_field(Obj(oid), name, val)

    def for_invariant(self, spec, view, step, node, fr):
        I = self.I
        ctx = I.ctx
        spec.used += 1
        entry = {}
        n = view.n
        ctx.assume(n >= 0)
        for label, t in spec.inv(LoopView(I, fr, z3.IntVal(0), view, node, entry)):
            ctx.check(f'{spec.name}: invariant on entry: {label}', t)
        i = ctx.fresh('inv_i', z3.IntSort())

        def hv(W, M, types):
            self.havoc(spec, fr, W, M, types)

        def body():
            ctx.assume(z3.And(0 <= i, i < n))
            for label, t in spec.inv(LoopView(I, fr, i, view, node, entry)):
                ctx.assume(t)
            step(view.elem(i))
        W, M, types = self.learn(body, hv, spec)
        hv(W, M, types)
        if ctx.choose(2, 'loop iteration or end') == 0:
            for label, t in spec.inv(LoopView(I, fr, n, view, node, entry)):
                ctx.assume(t)
            return
        body()
        for label, t in spec.inv(LoopView(I, fr, i + 1, view, node, entry)):
            ctx.check(f'{spec.name}: invariant preserved: {label}', t)
        raise PathEnd

    # ------------------------------------------------------------ while
    def while_loop(self, st, fr):
        I = self.I
        ctx = I.ctx

        def body():
            try:
                I.exec_block(st.body, fr)
            except ContinueSig:
                pass
        self.while_of(st, fr, lambda: I.cond(st.test, fr), body, ast.unparse(st.test)[:60])

    def call_loop(self, st, fr, call, sentinel):
        # for x in iter(call, sentinel)
        I = self.I
        box = []
        text = ast.unparse(st.iter)[:60]

        def test():
            x = I.call(call, [], {})
            if I.branch(I.eq(x, sentinel), text):
                return False
            box[:] = [x]
            return True

        def body():
            I.assign(st.target, box[0], fr)
            try:
                I.exec_block(st.body, fr)
            except ContinueSig:
                pass
        self.while_of(st, fr, test, body, text)

    def while_of(self, st, fr, test, body, text):
        I = self.I
        ctx = I.ctx
        spec = self.spec_for(st, fr)
        if spec is None:
            k = 0
            while test():
                try:
                    body()
                except BreakSig:
                    return
                k += 1
                if k > self.UNROLL or (ctx.oracle is not None and len(ctx.oracle.taken) > 60):
                    raise Unsupported(f'while loop needs an invariant: while {text}')
            I.exec_block(st.orelse, fr)
            return
        spec.used += 1
        entry = {}
        for label, t in spec.inv(LoopView(I, fr, None, None, st, entry)):
            ctx.check(f'{spec.name}: invariant on entry: {label}', t)

        def hv(W, M, types):
            self.havoc(spec, fr, W, M, types)

        def inv_assume():
            for label, t in spec.inv(LoopView(I, fr, None, None, st, entry)):
                ctx.assume(t)

        def iteration():
            inv_assume()
            if not test():
                raise PathEnd
            try:
                body()
            except BreakSig:
                pass
        W, M, types = self.learn(iteration, hv, spec)
        hv(W, M, types)
        inv_assume()
        if not test():
            I.exec_block(st.orelse, fr)
            return
        try:
            body()
        except BreakSig:
            return
        for label, t in spec.inv(LoopView(I, fr, None, None, st, entry)):
            ctx.check(f'{spec.name}: invariant preserved: {label}', t)
        raise PathEnd


class _NoFields:
    fields = {}


_NOFIELDS = _NoFields()


class Summary:
    '''Effects of the iterations 0 <= j < m, all of which complete normally.'''

    def __init__(self, I, view, ivar, base_fresh, normal, known, depth, ctypes, base_heap):
        self.I = I
        self.ctx = I.ctx
        self.view = view
        self.i = ivar
        self.normal = normal
        self.known = known
        self.depth = depth
        self.ctypes = ctypes
        self.base_heap = base_heap
        # constants and functions that were made during the iteration depend on it
        log = [c for k, c in self.ctx.fresh_log if k > base_fresh]
        self.csub, self.fsub = [], []
        for c in log:
            if isinstance(c, z3.FuncDeclRef):
                dom = [c.domain(k) for k in range(c.arity())]
                f = self.ctx.fresh_fun('sk_' + c.name(), z3.IntSort(), *dom, c.range())
                self.fsub.append((c, f(ivar, *[z3.Var(k, s) for k, s in enumerate(dom)])))
            else:
                f = self.ctx.fresh_fun('sk_' + c.decl().name(), z3.IntSort(), c.sort())
                self.csub.append((c, f(ivar)))
        if len(normal) > 1:
            self.pathf = self.ctx.fresh_fun('path', z3.IntSort(), z3.IntSort())
        else:
            self.pathf = None

    def at(self, t, j):
        '''Term t of the generic iteration, for iteration j.'''
        if self.csub:
            t = z3.substitute(t, *self.csub)
        if self.fsub:
            t = z3.substitute_funs(t, *self.fsub)
        return z3.substitute(t, (self.i, j))

    def sel(self, k, j):
        if self.pathf is None:
            return z3.BoolVal(True)
        return self.pathf(j) == k

    def pats(self, j):
        out = []
        if self.view.trigger is not None:
            out.append(self.view.trigger(j))
        if self.pathf is not None:
            out.append(self.pathf(j))
        for c, f in self.csub[:12]:
            out.append(z3.substitute(f, (self.i, j)))
        return out

    def forall_j(self, j, body, m, extra_pats=()):
        pats = self.pats(j) + list(extra_pats)
        pats = [p for p in pats if usable(p, [j])]
        f = z3.Implies(z3.And(0 <= j, j < m), body)
        self.ctx.assume(z3.ForAll([j], f, patterns=pats) if pats else z3.ForAll([j], f))

    def apply_prefix(self, m, exit_path=None):
        I, ctx = self.I, self.ctx
        j = z3.Int('j')
        normal = self.normal
        # what happened in the iterations before
        if normal:
            if self.pathf is not None:
                self.forall_j(j, z3.Or(*[self.pathf(j) == k for k in range(len(normal))]), m)
            for k, p in enumerate(normal):
                facts = [self.at(t, j) for t in p.pc[1:]]
                if facts:
                    self.forall_j(j, z3.Implies(self.sel(k, j), z3.And(*facts)) if self.pathf is not None
                                  else z3.And(*facts), m)
        elif exit_path is not None:
            ctx.assume(m == 0)
        objs = {}
        for k, p in enumerate(normal):
            for e in p.extra[self.depth][0]:
                objs.setdefault(e[0], {}).setdefault(k, []).append(e)
        deltas = []
        for o, per in objs.items():
            deltas.append((o, self.delta(o, per, m)))
        fields = {}
        for key in sorted(self.known):
            fields[key] = self.field_after(key, m)
        if exit_path is not None:
            p = exit_path
            own = p.extra[self.depth]
            ctx.pc = ctx.pc + list(p.pc)
            merged = dict(ctx.heap)
            merged.update(p.state[0])
            ctx.heap = merged
            ctx.nid = max(ctx.nid, p.state[2])
            for f, s in zip(ctx.loops, p.extra):
                f.restore(self.merge_frame(f, s))
            for key, v in fields.items():
                if key not in own[1]:
                    self.put_field(key, v)
            for o, d in deltas:
                for op, args in d:
                    I.mutate(o, op, *args)
            for e in own[0]:
                self.replay(e)
            return
        for key, v in fields.items():
            self.put_field(key, v)
        for o, d in deltas:
            for op, args in d:
                I.mutate(o, op, *args)

    def merge_frame(self, f, s):
        if isinstance(f, SumFrame):
            return (s[0], s[1], s[2] | f.reads, s[3])
        return s

    def replay(self, e):
        o, op, args = e
        I = self.I
        if op in ('extend', 'union'):
            I.mutate(o, op, args[0].ty, args[0].t)
        elif op == 'extend_items':
            I.mutate(o, op, tuple(self.thaw(a) for a in args))
        else:
            I.mutate(o, op, *[self.thaw(a) for a in args])

    def thaw(self, fz):
        if fz.ty is NONE:
            return None
        if isinstance(fz.ty, Union):
            return Sym(fz.ty, fz.t)
        return fz.ty.wrap(self.I, fz.t)

    def put_field(self, key, v):
        oid, name = key
        I = self.I
        if v is _DELETED:
            return
        I.set_field(Obj(oid), name, v)

    def field_after(self, key, m):
        I, ctx = self.I, self.ctx
        oid, name = key
        ty = self.ctypes.get(key)
        writers = {k: p for k, p in enumerate(self.normal) if key in p.extra[self.depth][1]}
        if not writers:
            # only written on paths that leave the loop
            fs = I.h(Obj(oid)).fields
            return fs[name] if name in fs else _DELETED
        if ty is None or isinstance(ty, Union):
            return Poison('changed in a loop')
        fs = self.base_heap[oid].fields if oid in self.base_heap else ctx.static[oid].fields
        old = ty.unwrap(I, fs[name])
        v = ctx.fresh('after_' + name, ty.sort)
        w = ctx.fresh('last_' + name, z3.IntSort())
        j = z3.Int('j')
        alts = []
        for k, p in writers.items():
            saved = ctx.heap
            ctx.heap = p.state[0]
            try:
                t = ty.unwrap(I, p.state[0][oid].fields[name])
            finally:
                ctx.heap = saved
            alts.append(z3.And(self.sel(k, w), v == self.at(t, w)))
        is_w = lambda x: z3.Or(*[self.sel(k, x) for k in writers])
        some = z3.And(0 <= w, w < m, z3.Or(*alts))
        if len(writers) == len(self.normal):
            ctx.assume(z3.If(m > 0, z3.And(w == m - 1, z3.Or(*alts)), v == old))
        else:
            ctx.assume(z3.Or(z3.And(w == -1, v == old), some))
            self.forall_j(j, z3.Implies(j > w, z3.Not(is_w(j))), m)
        return ty.wrap(I, v)

    # ---------------------------------------------------------- containers
    def elem_type(self, o, per, index):
        I = self.I
        tys = []
        h = I.h(o)
        if isinstance(h, HSym):
            return {ListTy: lambda: h.ty.elem, SetTy: lambda: h.ty.elem,
                    DictTy: lambda: (h.ty.key, h.ty.val)[index]}[type(h.ty)]()
        if isinstance(h, (HList, HSet)):
            tys += [I.type_of(x) for x in h.items]
        else:
            tys += [I.type_of(x[index]) for x in h.items]
        for evs in per.values():
            for _, op, args in evs:
                if op in ('extend', 'union'):
                    tys.append(args[0].ty.elem)
                elif op in ('store', 'slotappend', 'slotadd', 'delete'):
                    t = args[index].ty if index < len(args) else None
                    if t is None:
                        continue
                    if index == 1 and op == 'slotappend':
                        t = ListOf(t)
                    if index == 1 and op == 'slotadd':
                        t = SetOf(t)
                    tys.append(t)
                else:
                    tys += [a.ty for a in args]
        ty = I.join_types(tys)
        if ty is None:
            raise Unsupported('no common type for the elements of a container')
        return ty

    def delta(self, o, per, m):
        I = self.I
        h = I.h(o)
        ops = {e[1] for evs in per.values() for e in evs}
        if h.kind == 'list':
            return self.list_delta(o, per, m)
        if h.kind == 'set':
            if ops <= {'add', 'union'}:
                ty = SetOf(self.elem_type(o, per, 0))
                return [('union', (ty, self.set_delta(ty, per, m)))]
            if ops == {'discard'}:
                ty = SetOf(self.elem_type(o, per, 0))
                d = self.set_delta(ty, per, m)
                cur = I.h_term(h, ty)
                return [('replace', (HSym(ty, I.set_op(ty, '-', ty.mem(cur), ty.mem(d))),))]
        if h.kind == 'dict':
            if ops == {'store'}:
                return self.dict_delta(o, per, m)
            if ops in ({'slotappend'}, {'slotadd'}):
                return self.slot_delta(o, per, m, ops.pop())
            if ops == {'delete'}:
                return self.delete_delta(o, per, m)
        raise NotSummarizable(f'{sorted(ops)} on a {h.kind} in a loop')

    def items_of(self, ty, evs):
        '''[(kind, term)]: kind one: element; many: list term'''
        out = []
        for _, op, args in evs:
            if op in ('append', 'add', 'discard'):
                out.append(('one', coerce(self.I, args[0].ty, ty.elem, args[0].t)))
            elif op == 'extend_items':
                out += [('one', coerce(self.I, a.ty, ty.elem, a.t)) for a in args]
            elif op in ('extend', 'union'):
                if args[0].ty.elem is not ty.elem:
                    raise Unsupported('extend with another element type')
                out.append(('many', args[0].t))
        return out

    def list_delta(self, o, per, m):
        I, ctx = self.I, self.ctx
        et = self.elem_type(o, per, 0)
        ty = ListOf(et)
        items = {k: self.items_of(ty, evs) for k, evs in per.items()}
        S = ty.fresh(I, 'delta')
        j, e, x = z3.Int('j'), z3.Int('e'), z3.Int('x')
        if len(items) == len(self.normal) and all(len(v) == 1 and v[0][0] == 'one' for v in items.values()):
            ctx.assume(ty.n(S) == m)
            val = None
            for k, v in items.items():
                t = self.at(v[0][1], j)
                val = t if val is None else z3.If(self.sel(k, j), t, val)
            self.forall_j(j, ty.get(S, j) == val, m, [ty.get(S, j)])
            return [('extend', (ty, S))]
        start = ctx.fresh_fun('start', z3.IntSort(), z3.IntSort())
        itr = ctx.fresh_fun('iter_of', z3.IntSort(), z3.IntSort())
        ctx.assume(start(0) == 0)
        ctx.assume(ty.n(S) == start(m))

        def length(j):
            r = z3.IntVal(0)
            for k, v in items.items():
                l = z3.IntVal(0)
                for kind, t in v:
                    l = l + (1 if kind == 'one' else ty.n(self.at(t, j)))
                r = z3.If(self.sel(k, j), l, r)
            return z3.simplify(r)
        # (linked through pairs of positions: start(j + 1) as a consequence of start(j) would never stop)
        self.forall_j(j, z3.And(start(j) >= 0, start(j) + length(j) <= start(m)), m, [start(j)])
        ctx.assume(z3.ForAll([j, e], z3.Implies(z3.And(0 <= j, j < e, e <= m),
                                                z3.And(start(j) + length(j) <= start(e),
                                                       z3.Implies(e == j + 1, start(j) + length(j) == start(e)))),
                             patterns=[z3.MultiPattern(start(j), start(e))], qid='heavy'))
        # from results back to iterations
        ij = itr(x)
        opts = []
        for k, v in items.items():
            off = start(ij)
            for kind, t in v:
                t = self.at(t, ij)
                if kind == 'one':
                    opts.append(z3.And(self.sel(k, ij), x == off, ty.get(S, x) == t))
                    off = off + 1
                else:
                    opts.append(z3.And(self.sel(k, ij), off <= x, x < off + ty.n(t), ty.get(S, x) == ty.get(t, x - off),
                                       ty.has(t, ty.get(S, x))))
                    off = off + ty.n(t)
        ctx.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < ty.n(S)),
                                             z3.And(0 <= ij, ij < m, start(ij) <= x, x < start(ij) + length(ij), z3.Or(*opts))),
                             patterns=[ty.get(S, x), itr(x)]))
        # later results come from later (or the same) iterations
        y = z3.Int('y')
        ctx.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < ty.n(S)), itr(x) <= itr(y)),
                             patterns=[z3.MultiPattern(itr(x), itr(y))], qid='heavy'))
        # from iterations to results
        for k, v in items.items():
            off = start(j)
            for kind, t in v:
                t = self.at(t, j)
                if kind == 'one':
                    self.forall_j(j, z3.Implies(self.sel(k, j), z3.And(ty.get(S, off) == t, itr(off) == j,
                                                                      ty.has(S, t), off < ty.n(S))), m)
                    off = off + 1
                else:
                    body = z3.Implies(z3.And(0 <= j, j < m, self.sel(k, j), 0 <= e, e < ty.n(t)),
                                      z3.And(ty.get(S, off + e) == ty.get(t, e), itr(off + e) == j,
                                             ty.has(S, ty.get(t, e)), off + e < ty.n(S)))
                    pat = ty.get(t, e)
                    ctx.assume(z3.ForAll([j, e], body, patterns=[pat]) if usable(pat, [j, e])
                               else z3.ForAll([j, e], body))
                    w = z3.Const('w', et.sort)
                    body = z3.Implies(z3.And(0 <= j, j < m, self.sel(k, j), ty.has(t, w)), ty.has(S, w))
                    pat = ty.has(t, w)
                    ctx.assume(z3.ForAll([j, w], body, patterns=[pat]) if usable(pat, [j, w])
                               else z3.ForAll([j, w], body))
                    off = off + ty.n(t)
        return [('extend', (ty, S))]

    def set_delta(self, ty, per, m):
        ctx = self.ctx
        D = ty.fresh(self.I, 'delta')
        j = z3.Int('j')
        x = z3.Const('x', ty.elem.sort)
        w = ctx.fresh_fun('from', ty.elem.sort, z3.IntSort())
        opts = []
        for k, evs in per.items():
            for kind, t in self.items_of(ty, evs):
                tw, tj = self.at(t, w(x)), self.at(t, j)
                if kind == 'one':
                    opts.append(z3.And(self.sel(k, w(x)), x == tw))
                    self.forall_j(j, z3.Implies(self.sel(k, j), ty.has(D, tj)), m)
                else:
                    opts.append(z3.And(self.sel(k, w(x)), ty.has(tw, x)))
                    body = z3.Implies(z3.And(0 <= j, j < m, self.sel(k, j), ty.has(tj, x)), ty.has(D, x))
                    pat = ty.has(tj, x)
                    ctx.assume(z3.ForAll([j, x], body, patterns=[pat]) if usable(pat, [j, x])
                               else z3.ForAll([j, x], body))
        ctx.assume(z3.ForAll([x], z3.Implies(ty.has(D, x), z3.And(0 <= w(x), w(x) < m, z3.Or(*opts))),
                             patterns=[ty.has(D, x)]))
        return D

    def dict_delta(self, o, per, m):
        I, ctx = self.I, self.ctx
        kt, vt = self.elem_type(o, per, 0), self.elem_type(o, per, 1)
        ty = DictOf(kt, vt)
        for evs in per.values():
            if len(evs) > 1:
                raise NotSummarizable('several stores into a dict in an iteration')
        D = ty.fresh(I, 'delta')
        j = z3.Int('j')
        x = z3.Const('x', kt.sort)
        last = ctx.fresh_fun('last', kt.sort, z3.IntSort())
        opts = []
        for k, evs in per.items():
            key, val = evs[0][2]
            kk, vv = coerce(I, key.ty, kt, key.t), coerce(I, val.ty, vt, val.t)
            lx = last(x)
            opts.append(z3.And(self.sel(k, lx), x == self.at(kk, lx), ty.get(D, x) == self.at(vv, lx)))
            kj = self.at(kk, j)
            self.forall_j(j, z3.Implies(self.sel(k, j), z3.And(ty.has(D, kj), last(kj) >= j)), m)
        ctx.assume(z3.ForAll([x], z3.Implies(ty.has(D, x), z3.And(0 <= last(x), last(x) < m, z3.Or(*opts))),
                             patterns=[ty.has(D, x), last(x)]))
        return [('update', (ty, D))]

    def delete_delta(self, o, per, m):
        I, ctx = self.I, self.ctx
        h = I.h(o)
        if not isinstance(h, HSym):
            raise NotSummarizable('deletes from a dict')
        ty = h.ty
        st = SetOf(ty.key)
        per2 = {k: [(e[0], 'discard', e[2]) for e in evs] for k, evs in per.items()}
        D = self.set_delta(st, per2, m)
        new = ty.fresh(I, 'deleted')
        x = z3.Const('x', ty.key.sort)
        ctx.assume(z3.ForAll([x], ty.has(new, x) == z3.And(ty.has(h.t, x), z3.Not(st.has(D, x))),
                             patterns=[ty.has(new, x)]))
        ctx.assume(z3.ForAll([x], ty.has(new, x) == z3.And(ty.has(h.t, x), z3.Not(st.has(D, x))),
                             patterns=[ty.has(h.t, x)]))
        ctx.assume(ty.vals(new) == ty.vals(h.t))
        return [('replace', (HSym(ty, new, h.default),))]

    def slot_delta(self, o, per, m, op):
        '''dict of lists/sets: appended values by key'''
        I, ctx = self.I, self.ctx
        h = I.h(o)
        kt, vt = self.elem_type(o, per, 0), self.elem_type(o, per, 1)
        ty = DictOf(kt, vt)
        et = vt.elem
        if isinstance(h, HDict) and h.items or isinstance(h, HSym):
            raise NotSummarizable('dict of lists is not empty before the loop')
        D = ty.fresh(I, 'groups')
        j = z3.Int('j')
        x = z3.Const('x', kt.sort)
        y = z3.Const('y', et.sort)
        w = ctx.fresh_fun('from', kt.sort, et.sort, z3.IntSort())
        wk = ctx.fresh_fun('first', kt.sort, z3.IntSort())
        opts, kopts = [], []
        multi = False
        for k, evs in per.items():
            multi = multi or len(evs) > 1
            for e in evs:
                key, val = e[2]
                kk, vv = coerce(I, key.ty, kt, key.t), coerce(I, val.ty, et, val.t)
                wi, wki = w(x, y), wk(x)
                opts.append(z3.And(self.sel(k, wi), x == self.at(kk, wi), y == self.at(vv, wi)))
                kopts.append(z3.And(self.sel(k, wki), x == self.at(kk, wki)))
                kj, vj = self.at(kk, j), self.at(vv, j)
                self.forall_j(j, z3.Implies(self.sel(k, j), z3.And(ty.has(D, kj), vt.has(ty.get(D, kj), vj))), m)
        ctx.assume(z3.ForAll([x, y], z3.Implies(vt.has(ty.get(D, x), y),
                                                z3.And(0 <= w(x, y), w(x, y) < m, z3.Or(*opts))),
                             patterns=[vt.has(ty.get(D, x), y)]))
        ctx.assume(z3.ForAll([x], z3.Implies(ty.has(D, x), z3.And(0 <= wk(x), wk(x) < m, z3.Or(*kopts))),
                             patterns=[ty.has(D, x)]))
        if isinstance(vt, ListTy):
            # every slot holds a list: its members are its elements
            for a in list_wf_all(vt, lambda k: ty.get(D, k), x):
                ctx.assume(a)
            ctx.assume(z3.ForAll([x], z3.Implies(z3.Not(ty.has(D, x)), vt.n(ty.get(D, x)) == 0),
                                 patterns=[ty.get(D, x)]))
        ctx.assume(z3.ForAll([x], z3.Implies(z3.Not(ty.has(D, x)),
                                             z3.ForAll([y], z3.Not(vt.has(ty.get(D, x), y)),
                                                       patterns=[vt.has(ty.get(D, x), y)])),
                             patterns=[ty.has(D, x)]))
        return [('slotmerge', (ty, D))]


class _Deleted:
    pass


_DELETED = _Deleted()


def list_wf_all(lt, at, x):
    '''wf of all lists at(x)'''
    i = z3.Int('wi')
    y = z3.Const('wy', lt.elem.sort)
    idx = z3.Function('slotidx:' + lt.elem.tyname, lt.sort, lt.elem.sort, z3.IntSort())
    t = at(x)
    return [
        z3.ForAll([x], lt.n(t) >= 0, patterns=[t]),
        z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < lt.n(t)), lt.has(t, lt.get(t, i))), patterns=[lt.get(t, i)]),
        z3.ForAll([x, y], z3.Implies(lt.has(t, y), z3.And(0 <= idx(t, y), idx(t, y) < lt.n(t),
                                                         lt.get(t, idx(t, y)) == y)), patterns=[lt.has(t, y)]),
    ]


def usable(p, vs):
    '''Can p be a pattern: an uninterpreted application with all the variables?'''
    if not z3.is_app(p) or p.num_args() == 0:
        return False
    if p.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR):
        return False
    need = {v.get_id() for v in vs}
    seen = set()
    todo = [p]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return False
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ,
                                               z3.Z3_OP_LE, z3.Z3_OP_LT):
            return False
        todo += t.children()
    return need <= seen
