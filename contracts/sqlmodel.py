'''
The part of SQL the index uses, with sqlite3 connections.

A table is a bag of rows (how many times it holds a row). The statements that
the code executes are parsed from their text: the columns and keys come from the
CREATE TABLE statements of the current source.
'''
import ast
import os
import re

from contracts.fsmodel import *

TOKEN = re.compile(r'\s+|([A-Za-z_][A-Za-z_0-9]*|\?|<=|>=|<>|!=|==|[=<>(),*;]|\d+)')
WORDS = {'SELECT', 'FROM', 'WHERE', 'AND', 'OR', 'NOT', 'ORDER', 'BY', 'INSERT', 'REPLACE', 'INTO', 'VALUES', 'DELETE', 'IN', 'CREATE', 'TABLE', 'INDEX', 'IF', 'EXISTS',
         'ON', 'PRIMARY', 'KEY', 'FOREIGN', 'REFERENCES', 'NULL', 'TEXT', 'INTEGER', 'IGNORE', 'ASC', 'DESC', 'UNIQUE', 'UPDATE', 'SET', 'LIMIT', 'DISTINCT', 'DROP'}
CLAUSE = re.compile(r'\s*([a-z_]+)\s*(=|==|<>|!=|<=|>=|<|>)\s*\?\s*', re.I)


def tokens(pieces):
    out = []
    for kind, *x in pieces:
        if kind == 'join':
            out.append(('join', *x))
            continue
        pos, text = 0, x[0]
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise Unsupported(f'SQL: {text[pos:pos + 20]!r}')
            pos = m.end()
            t = m.group(1)
            if t:
                out.append(t.upper() if t.upper() in WORDS else t if not t[0].isalpha() and t[0] != '_' else t.lower())
    return [t for t in out if t != ';']


class Parse:
    def __init__(p, toks):
        p.t, p.i, p.marks = toks, 0, 0

    def peek(p, n=0):
        return p.t[p.i + n] if p.i + n < len(p.t) else None

    def take(p, *want):
        for w in want:
            if p.peek() != w:
                raise Unsupported(f'SQL: {w} expected at {p.t[p.i:p.i + 4]}')
            p.i += 1

    def accept(p, *want):
        if [p.peek(k) for k in range(len(want))] == list(want):
            p.i += len(want)
            return True
        return False

    def name(p):
        t = p.peek()
        if not isinstance(t, str) or not re.fullmatch('[a-z_][a-z_0-9]*', t):
            raise Unsupported(f'SQL: a name expected at {p.t[p.i:p.i + 4]}')
        p.i += 1
        return t

    def names(p):
        out = [p.name()]
        while p.accept(','):
            out.append(p.name())
        return out

    def mark(p):
        p.take('?')
        p.marks += 1
        return p.marks - 1

    def statement(p):
        if p.accept('CREATE', 'TABLE'):
            guarded = p.accept('IF', 'NOT', 'EXISTS')
            s = ('table', p.name(), *p.columns(), guarded)
        elif p.accept('CREATE', 'INDEX'):
            s = ('index', p.accept('IF', 'NOT', 'EXISTS'))
            p.i = len(p.t)
        elif p.accept('CREATE', 'UNIQUE'):
            raise Unsupported('SQL: unique index')
        elif p.peek() == 'SELECT':
            s = p.select()
        elif p.peek() in ('INSERT', 'REPLACE'):
            how = ''
            if p.accept('REPLACE'):
                how = 'REPLACE'
            else:
                p.take('INSERT')
                if p.accept('OR'):
                    how = p.peek()
                    p.i += 1
            p.take('INTO')
            table = p.name()
            cols = None
            if p.accept('('):
                cols = p.names()
                p.take(')')
            p.take('VALUES', '(')
            vals = [p.mark()]
            while p.accept(','):
                vals.append(p.mark())
            p.take(')')
            s = ('insert', how, table, cols, vals)
        elif p.accept('DELETE', 'FROM'):
            table = p.name()
            s = ('delete', table, p.where())
        else:
            raise Unsupported(f'SQL: {p.t[:3]}')
        if p.i != len(p.t):
            raise Unsupported(f'SQL: {p.t[p.i:p.i + 4]}')
        return s

    def columns(p):
        cols, key = {}, None
        p.take('(')
        while True:
            if p.accept('PRIMARY', 'KEY'):
                p.take('(')
                key = p.names()
                p.take(')')
            elif p.accept('FOREIGN', 'KEY'):
                # not enforced by sqlite unless asked
                p.take('(')
                p.names()
                p.take(')', 'REFERENCES')
                p.name()
                p.take('(')
                p.names()
                p.take(')')
            else:
                n = p.name()
                ty = p.peek()
                if ty not in ('TEXT', 'INTEGER'):
                    raise Unsupported(f'SQL: type {ty}')
                p.i += 1
                null = not p.accept('NOT', 'NULL')
                if p.accept('PRIMARY', 'KEY'):
                    key = [n]
                if null:
                    raise Unsupported('SQL: column that can be NULL')
                cols[n] = ty
            if not p.accept(','):
                break
        p.take(')')
        return cols, key

    def select(p):
        p.take('SELECT')
        distinct = p.accept('DISTINCT')
        cols = ['*'] if p.accept('*') else p.names()
        p.take('FROM')
        table = p.name()
        where = p.where()
        if p.accept('ORDER', 'BY'):
            p.name()
            p.accept('ASC') or p.accept('DESC')
            while p.accept(','):
                p.name()
                p.accept('ASC') or p.accept('DESC')
        return ('select', cols, table, where, distinct)

    def where(p):
        return p.pred() if p.accept('WHERE') else ('true',)

    def pred(p):
        out = p.conj()
        while p.accept('OR'):
            out = ('or', out, p.conj())
        return out

    def conj(p):
        out = p.atom()
        while p.accept('AND'):
            out = ('and', out, p.atom())
        return out

    def atom(p):
        t = p.peek()
        if isinstance(t, tuple):
            p.i += 1
            return t
        if p.accept('NOT'):
            return ('not', p.atom())
        if t == '(':
            if isinstance(p.peek(1), str) and p.peek(2) == ',':
                p.i += 1
                cols = p.names()
                p.take(')', 'IN', '(')
                s = p.select()
                p.take(')')
                return ('in', cols, s)
            p.i += 1
            out = p.pred()
            p.take(')')
            return out
        c = p.name()
        if p.accept('IN'):
            p.take('(')
            s = p.select()
            p.take(')')
            return ('in', [c], s)
        op = p.peek()
        if op not in ('=', '==', '<>', '!=', '<', '>', '<=', '>='):
            raise Unsupported(f'SQL: {op}')
        p.i += 1
        return ('cmp', c, op, p.mark())


OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '<>': lambda a, b: a != b, '!=': lambda a, b: a != b,
       '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def constants(path):
    '''the texts in a source file'''
    return [n.value for n in ast.walk(ast.parse(open(path).read())) if isinstance(n, ast.Constant) and isinstance(n.value, str)]


class Sql:
    '''
    The database of the index, and connections to it.

    With fails=True every statement can fail, and so can opening and committing.
    '''
    def __init__(q, v, module='bead.box_index', fails=False):
        q.v, q.fails, I = v, fails, v.I
        q.committed = False
        q.n = 0
        q.path = os.path.join(I.root, *module.split('.')) + '.py'
        if not hasattr(v, 'sql_tables'):
            v.sql_tables = {}
            q.texts = constants(q.path)
            for t in q.texts:
                if re.match(r'\s*CREATE\s+TABLE', t, re.I):
                    _, name, cols, key, _ = Parse(tokens([('text', t)])).statement()
                    ty = {'TEXT': STR, 'INTEGER': INT}
                    row = Rec('row_' + name, {c: ty[x] for c, x in cols.items()})
                    bag = Abs('table_' + name)
                    v.sql_tables[name] = (row, key, bag, z3.Function('count_' + name, bag.sort, row.sort, z3.IntSort()))
            v.sql_db, v.sql_conn, v.sql_cursor = ExtClass('Database', {}), ExtClass('Connection', {}), ExtClass('Cursor', {})
            v.VALUE = Abs('Value')
            v.of_text, v.of_int = z3.Function('text_value', STR.sort, v.VALUE.sort), z3.Function('int_value', z3.IntSort(), v.VALUE.sort)
            v.to_text, v.to_int = z3.Function('value_text', v.VALUE.sort, STR.sort), z3.Function('value_int', v.VALUE.sort, z3.IntSort())
            v.PARTS, v.VALUES = ListOf(STR), ListOf(v.VALUE)
        q.tables = v.sql_tables
        v.assume(v.forall(STR, lambda s: v.to_text(v.of_text(s)) == s, patterns=lambda s: [v.of_text(s)]))
        v.assume(v.forall(INT, lambda i: v.to_int(v.of_int(i)) == i, patterns=lambda i: [v.of_int(i)]))
        for row, key, bag, count in q.tables.values():
            v.assume(v.forall([bag, row], lambda b, r: count(b, r) >= 0, patterns=lambda b, r: [count(b, r)]))
            if key:
                k = lambda r: [row.f(c, r) for c in key]
                v.assume(v.forall([bag, row], lambda b, r: count(b, r) <= 1, patterns=lambda b, r: [count(b, r)]))
                same = lambda r, s: And(*[a == b for a, b in zip(k(r), k(s))])
                v.assume(v.forall([bag, row, row], lambda b, r, s: Implies(And(count(b, r) > 0, count(b, s) > 0, same(r, s)), r == s),
                                  patterns=lambda b, r, s: [z3.MultiPattern(count(b, r), count(b, s))]))
        q.db = I.alloc(HInst(v.sql_db, {n: v.const('table_' + n, t[2]) for n, t in q.tables.items()}))
        v.ext('sqlite3.connect', q.connect)
        v.sql_conn.methods.update(execute=q.execute, commit=q.commit, rollback=q.rollback, close=lambda I, o, a, k: None, cursor=lambda I, o, a, k: o, __enter__=lambda I, o, a, k: o, __exit__=q.exit_)
        v.sql_cursor.methods.update(fetchall=lambda I, o, a, k: I.get_field(o, 'rows'), fetchone=q.fetchone, __iter__=lambda I, o, a, k: I.get_field(o, 'rows'))

    # ------------------------------------------------------------ state
    def row(q, table):
        return q.tables[table][0]

    def bag(q, table, of=None):
        return q.v.t(q.v.I.get_field(of or q.db, table), q.tables[table][2])

    def count(q, table, r, of=None, bag=None):
        return q.tables[table][3](q.bag(table, of) if bag is None else bag, r)

    def snapshot(q):
        return {n: q.bag(n) for n in q.tables}

    def set(q, table, of, f, name='table'):
        '''the table gets the counts f(row)'''
        v = q.v
        row, key, bag, count = q.tables[table]
        b = v.const(name + '_' + table, bag)
        v.assume(v.forall(row, lambda r: count(b.t, r) == f(r), patterns=lambda r: [count(b.t, r)]))
        v.I.set_field(of, table, b)
        return b.t

    def may_fail(q):
        if q.fails and q.v.choose(2, 'database fails'):
            q.v.I.raise_(OSError)

    def connect(q, I, a, k):
        q.may_fail()
        q.connection = I.alloc(HInst(q.v.sql_conn, {n: I.get_field(q.db, n) for n in q.tables}))
        return q.connection

    def commit(q, I, o, a, k):
        q.may_fail()
        q.committed = q.committed or any(not z3.eq(q.bag(n), q.bag(n, o)) for n in q.tables)
        for n in q.tables:
            I.set_field(q.db, n, I.get_field(o, n))

    def exit_(q, I, o, a, k):
        # a connection as a context manager is a transaction
        (q.commit if a[0] is None else q.rollback)(I, o, (), {})
        return False

    def rollback(q, I, o, a, k):
        for n in q.tables:
            I.set_field(o, n, I.get_field(q.db, n))

    # ------------------------------------------------------------ statements
    def pieces(q, sql):
        if isinstance(sql, str):
            return [('text', sql)]
        t = q.v.t(sql, STR)
        lits = {x.get_id(): s for s, x in World.strings.lits.items()}
        out = []

        def walk(t):
            if t.get_id() in lits:
                out.append(('text', lits[t.get_id()]))
            elif t.decl().name() == World.strings.f_cat.name():
                walk(t.arg(0))
                walk(t.arg(1))
            elif t.decl().name().startswith('str.join:'):
                if t.arg(0).get_id() not in lits:
                    raise Unsupported('SQL: join')
                sep = lits[t.arg(0).get_id()]
                if sep.strip().upper() != 'AND' or sep == sep.strip():
                    raise Unsupported(f'SQL: joined by {sep!r}')
                out.append(('join', t.arg(1)))
            else:
                raise Unsupported('SQL text that is not known')
        walk(t)
        return out

    def execute(q, I, o, a, k):
        v = q.v
        q.may_fail()
        pieces = q.pieces(a[0])
        s = Parse(tokens(pieces)).statement()
        params = a[1] if len(a) > 1 else ()
        items = I.concrete_items(params)
        plist = None if items is not None else v.t(params, v.VALUES)
        if items is not None:
            want = sum(x[1].count('?') for x in pieces if x[0] == 'text')
            if any(x[0] == 'join' for x in pieces):
                if items or want:
                    raise Unsupported('SQL: parameters')
                plist = v.t(v.const('no_values', v.VALUES), v.VALUES)
                v.assume(v.VALUES.n(plist) == 0)
            elif want != len(items):
                I.raise_(OSError)
        return getattr(q, 'do_' + s[0])(o, s, items, plist)

    def value(q, x, ty):
        v = q.v
        if isinstance(x, Sym) and x.ty is v.VALUE:
            return v.to_text(x.t) if ty is STR else v.to_int(x.t)
        return v.t(x, ty)

    def pred(q, o, where, row, items, plist):
        '''row term -> condition'''
        v = q.v
        k = where[0]
        if k == 'true':
            return lambda r: z3.BoolVal(True)
        if k in ('and', 'or'):
            p1, p2 = (q.pred(o, w, row, items, plist) for w in where[1:])
            return lambda r: (And if k == 'and' else Or)(p1(r), p2(r))
        if k == 'not':
            p1 = q.pred(o, where[1], row, items, plist)
            return lambda r: Not(p1(r))
        if k == 'join':
            return lambda r: q.all_sat(where[1], plist, r)
        if k == 'cmp':
            _, c, op, mark = where
            ty = row.fields[c]
            if ty is STR and op not in ('=', '==', '<>', '!='):
                raise Unsupported('SQL: order of texts')
            if items is None:
                raise Unsupported('SQL: parameters')
            x = items[mark]
            if ty is INT and not (isinstance(x, (int, Sym)) and v.I.type_of(x) in (INT, v.VALUE)):
                raise Unsupported('SQL: type of a parameter')
            val = q.value(x, ty)
            return lambda r: OPS[op](row.f(c, r), val)
        if k == 'in':
            _, cols, (_, cols2, table, where2, _) = where
            row2, _, bag2, count2 = q.tables[table]
            b2 = q.bag(table, o)
            p2 = q.pred(o, where2, row2, items, plist)
            q.n += 1
            sorts = [row.fields[c].sort for c in cols]
            F = z3.Function(f'in_{q.n}', *sorts, z3.BoolSort())
            W = z3.Function(f'in_row_{q.n}', *sorts, row2.sort)
            v.assume(v.forall(row2, lambda r: Implies(And(count2(b2, r) > 0, p2(r)), F(*[row2.f(c, r) for c in cols2])), patterns=lambda r: [count2(b2, r)]))
            tys = [row.fields[c] for c in cols]
            v.assume(v.forall(tys, lambda *x: Implies(F(*x), And(count2(b2, W(*x)) > 0, p2(W(*x)), *[row2.f(c, W(*x)) == y for c, y in zip(cols2, x)])), patterns=lambda *x: [F(*x)]))
            return lambda r: F(*[row.f(c, r) for c in cols])
        raise Unsupported(f'SQL: {k}')

    # conditions of unknown number
    def sat(q, row):
        return z3.Function('satisfies', STR.sort, q.v.VALUE.sort, row.sort, z3.BoolSort())

    def all_sat(q, parts, values, r):
        row = next(t[0] for t in q.tables.values() if t[0].sort == r.sort())
        return z3.Function('satisfies_all', q.v.PARTS.sort, q.v.VALUES.sort, row.sort, z3.BoolSort())(parts, values, r)

    def clauses(q, row):
        '''the meaning of the conditions with one parameter in the source'''
        v, sat = q.v, q.sat(row)
        for t in constants(q.path):
            m = CLAUSE.fullmatch(t)
            if not m or m.group(1).lower() not in row.fields:
                continue
            c, op = m.group(1).lower(), m.group(2)
            lit = v.t(t, STR)
            if row.fields[c] is STR:
                if op not in ('=', '==', '<>', '!='):
                    continue
                f = lambda x, r, c=c, op=op: OPS[op](v.of_text(row.f(c, r)), x)
            else:
                f = lambda x, r, c=c, op=op: OPS[op](row.f(c, r), v.to_int(x))
            v.assume(v.forall([v.VALUE, row], lambda x, r, f=f, lit=lit: sat(lit, x, r) == f(x, r), patterns=lambda x, r, lit=lit: [sat(lit, x, r)]))

    def do_table(q, o, s, items, plist):
        # it can be there already
        if not s[-1] and q.v.choose(2, 'is there'):
            q.v.I.raise_(OSError)

    do_index = do_table

    def do_select(q, o, s, items, plist):
        v, I = q.v, q.v.I
        _, cols, table, where, distinct = s
        row, key, bag, count = q.tables[table]
        if distinct:
            raise Unsupported('SQL: DISTINCT')
        cols = list(row.fields) if cols == ['*'] else cols
        T = TupOf(*[row.fields[c] for c in cols])
        L = ListOf(T)
        rows = v.const('rows', L)
        t = v.t(rows, L)
        b = q.bag(table, o)
        p = q.pred(o, where, row, items, plist)
        q.n += 1
        src = z3.Function(f'row_at_{q.n}', z3.IntSort(), row.sort)
        pos = z3.Function(f'position_{q.n}', row.sort, z3.IntSort())
        tup = lambda r: T.mk(*[row.f(c, r) for c in cols])
        at = lambda i: L.get(t, i)
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < L.n(t)), And(count(b, src(i)) > 0, p(src(i)), at(i) == tup(src(i)), Implies(count(b, src(i)) == 1, pos(src(i)) == i))),
                          patterns=lambda i: [at(i)]))
        v.assume(v.forall(row, lambda r: Implies(And(count(b, r) > 0, p(r)), And(0 <= pos(r), pos(r) < L.n(t), src(pos(r)) == r, at(pos(r)) == tup(r))), patterns=lambda r: [count(b, r)]))
        q.selected = dict(list=rows, t=t, L=L, src=src, pos=pos, pred=p, tup=tup, bag=b)
        return I.alloc(HInst(v.sql_cursor, {'rows': rows}))

    def fetchone(q, I, o, a, k):
        v = q.v
        rows = I.get_field(o, 'rows')
        L = I.type_of(rows)
        t = v.t(rows, L)
        if not I.branch(L.n(t) > 0, 'a row'):
            return None
        return L.elem.wrap(I, L.get(t, z3.IntVal(0)))

    def do_insert(q, o, s, items, plist):
        v, I = q.v, q.v.I
        _, how, table, cols, vals = s
        row, key, bag, count = q.tables[table]
        cols = cols or list(row.fields)
        if set(cols) != set(row.fields) or len(cols) != len(vals):
            raise Unsupported('SQL: columns of INSERT')
        if items is None:
            raise Unsupported('SQL: parameters')
        by = dict(zip(cols, vals))
        new = row.mk(*[q.value(items[by[c]], ty) for c, ty in row.fields.items()])
        b = q.bag(table, o)
        if not key:
            q.set(table, o, lambda r: count(b, r) + If(r == new, 1, 0))
            return None
        same = lambda r: And(*[row.f(c, r) == row.f(c, new) for c in key])
        if how != 'REPLACE':
            if how not in ('', 'IGNORE'):
                raise Unsupported(f'SQL: {how}')
            there = v.const('conflict', BOOL)
            other = v.const('other', row)
            v.assume(Implies(there.t, And(count(b, v.t(other, row)) > 0, same(v.t(other, row)))))
            v.assume(Implies(Not(there.t), v.forall(row, lambda r: Implies(same(r), count(b, r) == 0), patterns=lambda r: [count(b, r)])))
            if I.branch(there.t, 'conflict'):
                if how == 'IGNORE':
                    return None
                I.raise_(OSError)
        q.set(table, o, lambda r: If(r == new, 1, If(same(r), 0, count(b, r))))
        return None

    def do_delete(q, o, s, items, plist):
        _, table, where = s
        row, key, bag, count = q.tables[table]
        b = q.bag(table, o)
        p = q.pred(o, where, row, items, plist)
        q.set(table, o, lambda r: If(p(r), 0, count(b, r)))
        return None
