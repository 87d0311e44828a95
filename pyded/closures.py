'''
Functions as values in containers.

A closure made in a loop is a term: a constructor for its code, applied to the
values it captured. Only variables that can not change any more are captured by
value: parameters that are never assigned in their function, with immutable values
(not the variables of a loop or comprehension, which are shared by its closures).
'''
import ast

import z3

from .terms import Abs, World, Unsupported
from .values import *
from .core import PathEnd


class ClosureTy(Abs):
    def __init__(self):
        super().__init__('Closure')
        self.codes = []     # (key, FuncVal, names, types, constructor)

    def make_sort(self):
        World.opaque.append(self)
        return super().make_sort()

    def axioms(self):
        code = z3.Function('closure_code', self.sort, z3.IntSort())
        out = []
        for k, (_, f, names, tys, con) in enumerate(self.codes):
            vs = [z3.Const(f'cap{i}', t.sort) for i, t in enumerate(tys)]
            t = con(*vs)
            body = z3.And(code(t) == k, *[self.cap(k, i)(t) == x for i, x in enumerate(vs)])
            out.append(z3.ForAll(vs, body, patterns=[t]) if vs else body)
        return out

    def cap(self, k, i):
        return z3.Function(f'closure_{k}_{i}', self.sort, self.codes[k][3][i].sort)

    def captured(self, I, f):
        '''[(name, value, type)], or None when it can not be taken by value'''
        a = f.node.args
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        out, seen = [], set()
        if f.cls is not None or f.is_gen or f.decorators:
            return None
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                return None
            if isinstance(n, ast.Name) and n.id not in params and n.id not in seen:
                seen.add(n.id)
                fr = f.frame
                while fr is not None and fr.parent is not None:
                    fields = I.h(fr.env).fields
                    if n.id in fields:
                        break
                    fr = fr.parent
                else:
                    continue
                v = fields[n.id]
                ty = I.type_of(v)
                if ty is None or isinstance(v, Obj) or fr.comp or fr.func is None or not self.fixed(I, fr, n.id):
                    return None
                out.append((n.id, v, ty))
        for k, v in enumerate(f.defaults):
            ty = I.type_of(v)
            if ty is None or isinstance(v, Obj):
                return None
            out.append((k, v, ty))
        if f.kwdefaults:
            return None
        return out

    def fixed(self, I, fr, name):
        node = fr.func.node
        a = node.args
        if name not in {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}:
            return False
        body = node.body if isinstance(node.body, list) else [node.body]
        return not any(isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) or
               isinstance(n, (ast.Nonlocal, ast.Global)) and name in n.names for st in body for n in ast.walk(st))

    def unwrap(self, I, v):
        if not isinstance(v, FuncVal):
            return super().unwrap(I, v)
        cs = self.captured(I, v)
        if cs is None:
            raise Unsupported(f'{v!r} stored in a container')
        key = (id(v.node), tuple(c[0] for c in cs), tuple(id(c[2]) for c in cs))
        for k, c in enumerate(self.codes):
            if c[0] == key:
                break
        else:
            k = len(self.codes)
            tys = [c[2] for c in cs]
            self.codes.append((key, v, [c[0] for c in cs], tys, z3.Function(f'closure_{k}', *[t.sort for t in tys], self.sort)))
        con = self.codes[k][4]
        return con(*[t.unwrap(I, x) for _, x, t in cs])

    def accepts(self, v):
        return isinstance(v, FuncVal) or super().accepts(v)

    def rebuild(self, I, t):
        code = z3.Function('closure_code', self.sort, z3.IntSort())
        for k, (_, f, names, tys, con) in enumerate(self.codes):
            if I.branch(code(t) == k, f'function {f.qualname}'):
                vals = [ty.wrap(I, self.cap(k, i)(t)) for i, ty in enumerate(tys)]
                env = I.alloc(HEnv({n: x for n, x in zip(names, vals) if isinstance(n, str)}))
                top = f.frame
                while top.parent is not None:
                    top = top.parent
                fr = type(f.frame)(f.module, env, top, f.frame.func)
                return FuncVal(f.node, fr, f.module, f.qualname, None, tuple(x for n, x in zip(names, vals) if not isinstance(n, str)))
        ctx = I.ctx
        if ctx.prover.prove(World.axioms() + ctx.axioms + ctx.pc, z3.BoolVal(False))[0] == 'proved':
            raise PathEnd
        raise Unsupported('call of an unknown function')
