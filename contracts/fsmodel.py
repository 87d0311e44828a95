'''Paths and a file system, for the contracts.'''
import z3
from pyded.unit import *
from pyded.terms import *
from pyded.values import *
from pyded.interp import ExtClass

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies


class Paths:
    '''
    Path values. A symbolic path is of the type PATH; p / 'a' is join(p, 'a').
    Constant relative paths are objects with their text.
    '''
    def __init__(w, v):
        w.v = v
        I = v.I
        if not hasattr(v, 'PATH'):
            v.PATH = Abs('Path')
            v.PATH.ordered = True
            v.join = z3.Function('join', v.PATH.sort, STR.sort, v.PATH.sort)
            v.as_posix = z3.Function('as_posix', v.PATH.sort, STR.sort)
            v.path_of = z3.Function('path_of', STR.sort, v.PATH.sort)
            v.parent = z3.Function('parent', v.PATH.sort, v.PATH.sort)
            v.pname = z3.Function('path_name', v.PATH.sort, STR.sort)
            v.constpath = ExtClass('Path', {})
        w.PATH, w.join_, w.as_posix, w.path_of, w.parent, w.pname = v.PATH, v.join, v.as_posix, v.path_of, v.parent, v.pname
        P = w.PATH
        v.ext('Path./', lambda I, a, k: w.wrap(w.join(a[0], a[1])))
        v.constpath.methods.update({
            '/': lambda I, o, a, k: w.const(I.get_field(o, 'text') + '/' + w.text(a[0])),
            'as_posix': lambda I, o, a, k: I.get_field(o, 'text'),
            '__str__': lambda I, o, a, k: I.get_field(o, 'text'),
            '__fspath__': lambda I, o, a, k: I.get_field(o, 'text')})
        v.constpath.attrs.update(name=lambda I, o: I.get_field(o, 'text').split('/')[-1])
        P.attrs.update(
            name=lambda I, s: STR.wrap(I, w.pname(s.t)),
            parent=lambda I, s: w.wrap(w.parent(s.t)))
        P.methods.update(
            as_posix=lambda I, s, a, k: STR.wrap(I, w.as_posix(s.t)),
            __str__=lambda I, s, a, k: STR.wrap(I, w.as_posix(s.t)),
            __fspath__=lambda I, s, a, k: STR.wrap(I, w.as_posix(s.t)),
            joinpath=lambda I, s, a, k: w.wrap(w.joins(s.t, a)))
        v.ext('pathlib.Path', lambda I, a, k: w.path(a[0]))
        v.ext('os.path.join', lambda I, a, k: w.wrap(w.joins(w.t(a[0]), a[1:])))
        v.ext('os.fspath', lambda I, a, k: a[0])
        v.assume(v.forall(P, lambda p: w.path_of(w.as_posix(p)) == p, patterns=lambda p: [w.as_posix(p)]))

    def wrap(w, t):
        return w.PATH.wrap(w.v.I, t)

    def const(w, text):
        return w.v.I.alloc(HInst(w.v.constpath, {'text': text}))

    def text(w, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Obj) and isinstance(w.v.I.h(x), HInst) and w.v.I.h(x).cls is w.v.constpath:
            return w.v.I.get_field(x, 'text')
        raise Unsupported('a path that is not constant')

    def is_const(w, x):
        return isinstance(x, str) or (isinstance(x, Obj) and isinstance(w.v.I.h(x), HInst) and w.v.I.h(x).cls is w.v.constpath)

    def path(w, x):
        if isinstance(x, Sym) and x.ty is w.PATH:
            return x
        if isinstance(x, Obj):
            return x
        if isinstance(x, str):
            return w.const(x)
        return w.wrap(w.path_of(w.v.t(x, STR)))

    def t(w, x):
        '''term for a path-like value'''
        if isinstance(x, Sym) and x.ty is w.PATH:
            return x.t
        if z3.is_expr(x):
            return x
        if w.is_const(x):
            return w.path_of(w.v.t(w.text(x), STR))
        return w.path_of(w.v.t(x, STR))

    def join(w, p, x):
        '''term for p / x'''
        p = w.t(p)
        if w.is_const(x):
            for part in w.text(x).split('/'):
                if part not in ('', '.'):
                    p = w.join_(p, w.v.t(part, STR))
            return p
        if isinstance(x, Sym) and x.ty is w.PATH:
            return w.join_(p, w.as_posix(x.t))
        return w.join_(p, w.v.t(x, STR))

    def joins(w, p, xs):
        for x in xs:
            p = w.join(p, x)
        return p
