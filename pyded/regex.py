'''
Regular expressions: the patterns of the code are translated to regular
expressions of the solver (theory of strings). Patterns that are not in the
supported subset, and calls that are not modelled, are Unsupported.
'''
import re
import re._constants as C
import re._parser as parser

import z3

from .terms import BOOL, INT, STR, World, Unsupported
from .values import *

ALL = lambda: z3.Full(z3.ReSort(z3.StringSort()))


def union(rs):
    rs = list(rs)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def cat(rs):
    rs = list(rs)
    return z3.Re('') if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)


def char(o):
    return z3.Re(World.strings.lit(chr(o)))


CATEGORIES = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_SPACE: r'\s', C.CATEGORY_WORD: r'\w'}
RANGES = {}


def category(c):
    '''the ranges of its characters (as far as the solver has characters)'''
    if c not in RANGES:
        f, out = re.compile(CATEGORIES[c]).fullmatch, []
        for o in range(0x30000):
            if not 0xd800 <= o < 0xe000 and f(chr(o)):
                if out and out[-1][1] == o - 1:
                    out[-1][1] = o
                else:
                    out.append([o, o])
        RANGES[c] = out
    return [z3.Range(World.strings.lit(chr(a)), World.strings.lit(chr(b))) for a, b in RANGES[c]]


def chars(items):
    out, neg = [], False
    for op, a in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append(char(a))
        elif op is C.RANGE:
            out.append(z3.Range(World.strings.lit(chr(a[0])), World.strings.lit(chr(a[1]))))
        elif op is C.CATEGORY and a in CATEGORIES:
            out += category(a)
        else:
            raise Unsupported(f'regular expression: {op}')
    r = union(out)
    return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r)) if neg else r


def to_re(nodes):
    out = []
    for op, a in nodes:
        if op is C.LITERAL:
            out.append(char(a))
        elif op is C.NOT_LITERAL:
            out.append(chars([(C.NEGATE, None), (C.LITERAL, a)]))
        elif op is C.IN:
            out.append(chars(a))
        elif op is C.ANY:
            out.append(chars([(C.NEGATE, None), (C.LITERAL, 10)]))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = a
            r = to_re(sub)
            if hi is C.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else cat([r] * lo + [z3.Star(r)]))
            elif hi == lo:
                out.append(cat([r] * lo))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is C.SUBPATTERN:
            if a[1] or a[2]:
                raise Unsupported('regular expression flags')
            out.append(to_re(a[3]))
        elif op is C.BRANCH:
            out.append(union([to_re(x) for x in a[1]]))
        else:
            raise Unsupported(f'regular expression: {op}')
    return cat(out)


def parse(pattern, flags=0):
    if flags:
        raise Unsupported('regular expression flags')
    tree = parser.parse(pattern)
    return list(tree), dict(tree.state.groupdict)


def groups_of(nodes):
    '''{group number: (offset, width)} for the groups at fixed positions'''
    out = {}

    def walk(nodes, off):
        for op, a in nodes:
            if op is C.SUBPATTERN:
                lo, hi = a[3].getwidth()
                if off is not None and lo == hi and a[0]:
                    out[a[0]] = (off, lo)
                walk(a[3], off)
            lo, hi = (a[3] if op is C.SUBPATTERN else _sub(op, a)).getwidth()
            off = off + lo if off is not None and lo == hi else None
    walk(nodes, 0)
    return out


def _sub(op, a):
    s = parser.SubPattern(parser.State())
    s.append((op, a))
    return s


def split(s, pattern):
    '''pattern, and what has to follow to the end: (nodes, alternatives for the rest)'''
    nodes, names = parse(pattern)
    end = None
    if nodes and nodes[-1][0] is C.AT:
        at = nodes[-1][1]
        if at is C.AT_END_STRING:
            end = ['']
        elif at is C.AT_END:
            end = ['', '\n']
        nodes = nodes[:-1]
    return nodes, names, end


def flat(t):
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [x for c in t.children() for x in flat(c)]
    return [t]


def cuts(t, c):
    '''The ways to cut a text before a character of one of its literals'''
    parts = flat(t)
    out = []
    join = lambda ts: z3.StringVal('') if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)
    for i, x in enumerate(parts):
        if z3.is_string_value(x):
            text = x.as_string()
            if '\\u{' in text:
                continue
            for j, y in enumerate(text):
                if y == c:
                    before = parts[:i] + ([z3.StringVal(text[:j])] if j else [])
                    out.append((join(before), join([z3.StringVal(text[j:])] + parts[i + 1:])))
    return out


def proved(I, goal):
    return I.ctx.prover.prove(World.axioms() + I.ctx.axioms + I.ctx.pc, goal, short=True)[0] == 'proved'


RELATIONS = {}      # id of a regular expression -> (is it empty, the expression)


class Languages:
    '''
    Membership of texts in languages as predicates, with what is known about
    pairs of languages (same, disjoint, included - decided by the solver for the
    regular expressions alone). Texts put together from pieces of known shape are
    members, when the language of their shape is included.
    '''
    def __init__(self, v):
        self.v, self.known, self.pieces = v, [], {}

    def piece(self, t, r, width):
        '''t is a text of the language r, which has texts of this width only'''
        self.pieces[t.get_id()] = (t, r, width)
        return t

    def empty(self, r):
        k = r.get_id()
        if k not in RELATIONS:
            x = z3.String('re_x')
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(z3.InRe(x, r))
            RELATIONS[k] = (s.check() == z3.unsat, r)
        return RELATIONS[k][0]

    def same(self, q, r):
        return q.eq(r) or (self.empty(z3.Intersect(q, z3.Complement(r))) and self.empty(z3.Intersect(r, z3.Complement(q))))

    def predicate(self, r):
        for q, p in self.known:
            if self.same(q, r):
                return p
        p = z3.Function(f'is_in_language_{len(self.known)}', z3.StringSort(), z3.BoolSort())
        self.known.append((r, p))
        return p

    def shape(self, t):
        '''[(term, regular expression, width)] of a text put together from pieces'''
        out = []
        for x in flat(t):
            if z3.is_string_value(x):
                out.append((x, z3.Re(x), len(x.as_string())))
            elif x.get_id() in self.pieces:
                out.append(self.pieces[x.get_id()])
            else:
                return None
        return out

    def member(self, t, r):
        sh = self.shape(t)
        if sh is not None:
            L = cat([x[1] for x in sh])
            if self.empty(z3.Intersect(L, z3.Complement(r))):
                return z3.BoolVal(True)
            if self.empty(z3.Intersect(L, r)):
                return z3.BoolVal(False)
        return self.predicate(r)(t)

    def facts(self, t, r):
        '''what follows for a member of r'''
        p = self.predicate(r)
        for q, o in self.known:
            if not o.eq(p):
                if self.empty(z3.Intersect(q, r)):
                    self.v.assume(z3.Implies(p(t), z3.Not(o(t))))
                elif self.empty(z3.Intersect(r, z3.Complement(q))):
                    self.v.assume(z3.Implies(p(t), o(t)))

    def part(self, t, off, width):
        sh = self.shape(t)
        at = 0
        for x, _, w in sh or ():
            if (at, w) == (off, width):
                return x
            at += w
        return z3.SubString(t, off, width)


def digits_only(nodes):
    k = str(nodes)
    if k not in RELATIONS:
        RELATIONS[k] = _digits_only(nodes)
    return RELATIONS[k]


def _digits_only(nodes):
    r = z3.Complement(z3.Plus(z3.Range('0', '9')))
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(z3.InRe(z3.String('re_x'), z3.Intersect(to_re(nodes), r)))
    return s.check() == z3.unsat


def group_nodes(nodes):
    out = {}
    for op, a in nodes:
        if op is C.SUBPATTERN:
            if a[0]:
                out[a[0]] = a[3]
            out.update(group_nodes(a[3]))
    return out


def flags_of(a, k, i):
    return a[i] if len(a) > i else k.get('flags', 0)


def model(v, languages=None):
    '''
    Contracts of the functions of re, for symbolic strings (real ones for constants).
    With languages: what matches is told by their predicates.
    '''
    from .interp import ExtClass
    mcls, pcls = ExtClass('Match', {}), ExtClass('Pattern', {})

    def fullmatch(I, pattern, s):
        if isinstance(s, str):
            m = re.fullmatch(pattern, s)
            return None if m is None else I.alloc(HInst(mcls, {'groups': dict(enumerate(m.groups(), 1)), 'names': dict(m.re.groupindex), 'text': s}))
        nodes, names = parse(pattern)
        t = v.t(s, STR)
        if languages is not None:
            r = to_re(nodes)
            languages.facts(t, r)
            if not I.branch(languages.member(t, r), f'matches {pattern[:30]}'):
                return None
            gs, inner = {}, group_nodes(nodes)
            for g, (off, w) in groups_of(nodes).items():
                x = languages.part(t, off, w)
                if digits_only(inner[g]):
                    I.assume(I.uf('int_ok', BOOL, STR)(x))
                gs[g] = STR.wrap(I, x)
            return I.alloc(HInst(mcls, {'groups': gs, 'names': names, 'text': s}))
        if not I.branch(z3.InRe(t, to_re(nodes)), f'matches {pattern[:30]}'):
            return None
        gs = {g: STR.wrap(I, z3.SubString(t, off, w)) for g, (off, w) in groups_of(nodes).items()}
        return I.alloc(HInst(mcls, {'groups': gs, 'names': names, 'text': s}))

    def group(I, o, g):
        if g == 0:
            return I.get_field(o, 'text')
        names, gs = I.h(o).fields['names'], I.h(o).fields['groups']
        n = names.get(g, g)
        if n not in gs:
            raise Unsupported(f'group {g} of a match')
        return gs[n]

    def groupdict(I, o, a, k):
        return v.dict({n: group(I, o, n) for n in I.h(o).fields['names']})

    def sub(I, pattern, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return re.sub(pattern, repl, s, count=count)
        nodes, names, end = split(s, pattern)
        if end is None or not isinstance(repl, str) or '\\' in repl:
            raise Unsupported(f're.sub of {pattern!r}')
        # where a match starts is determined, when its first character is nowhere else in it
        if not nodes or nodes[0][0] is not C.LITERAL:
            raise Unsupported(f're.sub of {pattern!r}')
        P, tail = to_re(nodes), to_re(nodes[1:])
        first = nodes[0][1]
        x = z3.String('re_x')
        sol = z3.Solver()
        sol.set('timeout', 3000)
        sol.add(z3.InRe(x, tail), z3.Not(z3.InRe(x, z3.Star(chars([(C.NEGATE, None), (C.LITERAL, first), (C.LITERAL, 10)])))))
        if sol.check() != z3.unsat:
            raise Unsupported(f're.sub of {pattern!r}')
        t = v.t(s, STR)
        # a match that is known to be at some place is the one
        for a, m in cuts(t, chr(first)):
            if proved(I, z3.InRe(m, P)):
                return STR.wrap(I, World.strings.concat(a, World.strings.lit(repl)))
        for e in end:
            rest = World.strings.lit(e)
            if I.branch(z3.InRe(t, cat([ALL(), P, z3.Re(rest)])), f'has {pattern[:30]}'):
                a, m = v.const('before', STR), v.const('match', STR)
                I.assume(z3.And(t == World.strings.concat(a.t, m.t, rest), z3.InRe(m.t, P)))
                return STR.wrap(I, World.strings.concat(a.t, World.strings.lit(repl), rest))
        return s

    def method(f):
        return lambda I, o, a, k: f(I, I.h(o).fields['pattern'], *a, **k)
    mcls.methods.update(group=lambda I, o, a, k: group(I, o, a[0]) if len(a) == 1 else tuple(group(I, o, g) for g in a) if a else I.get_field(o, 'text'),
                        groupdict=groupdict, __getitem__=lambda I, o, a, k: group(I, o, a[0]),
                        groups=lambda I, o, a, k: tuple(group(I, o, g) for g in sorted(I.h(o).fields['groups'])))
    pcls.methods.update(fullmatch=method(fullmatch), sub=lambda I, o, a, k: sub(I, I.h(o).fields['pattern'], *a, **k))

    def compile_(I, a, k):
        if flags_of(a, k, 1):
            raise Unsupported('regular expression flags')
        if isinstance(a[0], Obj):
            return a[0]
        return I.alloc(HInst(pcls, {'pattern': a[0]}))
    v.ext('re.compile', compile_)

    def noflags(f, n):
        def run(I, a, k):
            if len(a) > n or 'flags' in k:
                raise Unsupported('regular expression flags')
            p = a[0]
            return f(I, I.h(p).fields['pattern'] if isinstance(p, Obj) else p, *a[1:], **k)
        return run
    v.ext('re.fullmatch', noflags(fullmatch, 2))
    v.ext('re.sub', noflags(sub, 4))
    v.ext('re.escape', lambda I, a, k: re.escape(a[0]))


def splitext(v):
    '''os.path.splitext and basename of symbolic names'''
    import posixpath

    def f(I, a, k):
        s = a[0]
        if isinstance(s, str):
            return posixpath.splitext(s)
        t = v.t(s, STR)
        root, ext = v.const('root', STR), v.const('ext', STR)
        S = World.strings
        nodot = z3.Star(chars([(C.NEGATE, None), (C.LITERAL, ord('.')), (C.LITERAL, ord('/'))]))
        dots = z3.Star(z3.Re('.'))
        lead = z3.Option(z3.Concat(ALL(), z3.Re('/')))
        I.assume(t == z3.Concat(root.t, ext.t))
        has = z3.InRe(t, z3.Concat(ALL(), chars([(C.NEGATE, None), (C.LITERAL, ord('.')), (C.LITERAL, ord('/'))]), z3.Star(chars([(C.NEGATE, None), (C.LITERAL, ord('/'))])), z3.Re('.'), nodot))
        if I.branch(has, 'has an extension'):
            for a, b in cuts(t, '.')[-1:]:
                if proved(I, z3.InRe(b, z3.Concat(z3.Re('.'), nodot))):
                    return (STR.wrap(I, a), STR.wrap(I, b))
            I.assume(z3.InRe(ext.t, z3.Concat(z3.Re('.'), nodot)))
        else:
            I.assume(ext.t == S.lit(''))
            I.assume(root.t == t)
        return (root, ext)
    v.ext('os.path.splitext', f)
