'''C11: timestamps round-trip and order by the instant they denote.'''
import z3
from z3 import And, If, Implies, Not, Or

from pyded import regex
from pyded.regex import C as RC
from pyded.terms import *
from pyded.unit import Unit
from pyded.values import *
from pyded.interp import ExtClass, PyRaise
from pyded.pybuiltins import to_list

ASSUMPTIONS = [
    'datetime.datetime: the constructor refuses what is not a date and time of the calendar with ValueError and keeps the parts it is given, '
    'utcoffset() asks the tzinfo and refuses a day or more with ValueError, aware datetimes compare and subtract by instant (date and time minus utcoffset)',
    'datetime.now(timezone.utc) is the present instant, astimezone() keeps the instant and gives the local date, time and offset of it; '
    'now(tz) for a tzinfo that has to guess from the local time (bead.tech.timestamp.Local) can be off when daylight saving ends',
    'strftime writes parts in decimal with zeros (years have four digits from 1000 on), zone offsets are whole minutes',
    're.compile(p).fullmatch, re.fullmatch: translated to the string theory of the solver (pyded/regex.py), groups at fixed positions',
    're.findall of a text that is a sequence of matches, which end with a character that is nowhere else in them, gives these matches',
    'int() of decimal digits is the number, timedelta is exact in microseconds',
]
NOT_COVERED = ['time differences out of the range of datetime (OverflowError)', 'time zones with offsets that are not whole minutes',
               'local time arithmetic over daylight saving changes (now + difference is local time)']
T = 'bead.tech.timestamp'
MINUTE = 60 * 10 ** 6
US = dict(weeks=7 * 86400 * 10 ** 6, days=86400 * 10 ** 6, hours=3600 * 10 ** 6, minutes=MINUTE, seconds=10 ** 6, milliseconds=1000, microseconds=1)
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
FULL = 'YmdTHMSfz'
# what is in the documented formats, Y m d H M S f z are the parts
FORMATS = [FULL, 'Y', 'Ym', 'Y-m', 'Ymd', 'Y-m-d', 'YmdTHMSz', 'Y-m-dTH:M:Sz', 'Y-m-dTH:M:S.fz']
WIDTH = dict(Y=4, m=2, d=2, H=2, M=2, S=2, f=6)
DEFAULT = dict(Y=0, m=1, d=1, H=0, M=0, S=0, f=0)
I_ = z3.IntVal
DIGITS = {n: z3.Loop(z3.Range('0', '9'), n, n) for n in (2, 4, 6)}
SIGN = z3.Union(z3.Re('+'), z3.Re('-'))


def language(fmt):
    out = []
    for c in fmt:
        out += [DIGITS[WIDTH[c]]] if c in WIDTH else [SIGN, DIGITS[2], DIGITS[2]] if c == 'z' else [z3.Re(c)]
    return z3.Concat(*out) if len(out) > 1 else out[0]


def denoted(w, t, fmt):
    '''the parts of a text in the format, and the zone offset in minutes'''
    val, off, pos = {}, I_(0), 0
    num = lambda p, n: w.v.I.uf('int_of', INT, STR)(w.langs.part(t, p, n))
    for c in fmt:
        if c == 'z':
            m = num(pos + 1, 2) * 60 + num(pos + 3, 2)
            off = If(w.langs.part(t, pos, 1) == z3.StringVal('-'), -m, m)
            pos += 5
        elif c in WIDTH:
            val[c] = num(pos, WIDTH[c])
            pos += WIDTH[c]
        else:
            pos += 1
    return [val.get(c, I_(DEFAULT[c])) for c in 'YmdHMSf'], off


class W:
    '''datetime, timedelta'''
    def __init__(w, v):
        w.v, I = v, v.I
        if not hasattr(v, 'TD'):
            v.TD = Rec('timedelta', dict(us=INT))
            v.valid = z3.Function('date_and_time', *[z3.IntSort()] * 7, z3.BoolSort())
            v.civil = z3.Function('microseconds_of', *[z3.IntSort()] * 7, z3.IntSort())
            v.dcls = ExtClass('datetime', {})
            v.dcls.methods.update(utcoffset=lambda I, o, a, k: w.utcoffset(o), astimezone=lambda I, o, a, k: w.astimezone(o, a, k),
                                  strftime=lambda I, o, a, k: w.strftime(o, a[0]))
            v.dcls.methods['+'] = lambda I, o, a, k: w.plus(o, a[0])
            v.zcls = ExtClass('zone', {})
        TD = v.TD

        def timedelta(I, a, k):
            parts = dict(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a), **k)
            us = I_(0)
            for n, x in parts.items():
                us = us + v.t(x, INT) * US[n]
            return TD.wrap(I, TD.mk(z3.simplify(us)))
        v.ext('datetime.timedelta', timedelta)
        pair = lambda f: lambda I, a, k: TD.wrap(I, TD.mk(f(TD.f('us', v.t(a[0], TD)), TD.f('us', v.t(a[1], TD)))))
        v.ext('timedelta.+', pair(lambda x, y: x + y))
        v.ext('timedelta.-', pair(lambda x, y: x - y))
        v.ext('time.timezone', INT.wrap(I, z3.Int('time_timezone')))
        v.ext('time.altzone', INT.wrap(I, z3.Int('time_altzone')))
        v.ext('time.daylight', INT.wrap(I, z3.Int('time_daylight')))

        def datetime(I, a, k):
            names = list(FIELDS) + ['tzinfo']
            got = dict(zip(names, a), **k)
            vals = [v.t(got.get(n, 0), INT) for n in FIELDS]
            if not I.branch(v.valid(*vals), 'a date and time'):
                I.raise_(ValueError)
            return w.made(dict(zip(FIELDS, vals)), tzinfo=got.get('tzinfo'))
        v.ext('datetime.datetime', datetime)
        w.utc = I.alloc(HInst(v.zcls, {'utc': True}))
        v.ext('datetime.timezone.utc', w.utc)
        v.ext('datetime.UTC', w.utc)
        w.langs = regex.Languages(v)
        regex.model(v, w.langs)

    def member(w, t, fmt):
        w.langs.facts(t, language(fmt))
        return w.langs.member(t, language(fmt))

    def made(w, fields, tzinfo=None, **kw):
        return w.v.I.alloc(HInst(w.v.dcls, {**{n: INT.wrap(w.v.I, t) for n, t in fields.items()}, 'tzinfo': tzinfo, **kw}))

    def offset(w, o):
        '''of a datetime: the offset its tzinfo gives, in microseconds'''
        v = w.v
        d = v.method(v.I.get_field(o, 'tzinfo'), 'utcoffset', o)
        return v.TD.f('us', v.t(d, v.TD))

    def utcoffset(w, o):
        v = w.v
        us = w.offset(o)
        if not v.I.branch(And(us > -1440 * MINUTE, us < 1440 * MINUTE), 'offset less than a day'):
            v.I.raise_(ValueError)
        return v.TD.wrap(v.I, v.TD.mk(us))

    def fields(w, o):
        return [w.v.t(w.v.I.get_field(o, n), INT) for n in FIELDS]

    # the present
    def present(w):
        v, I = w.v, w.v.I
        w.now = v.const('now', INT).t
        w.local_minutes = z3.Function('local_offset', z3.IntSort(), z3.IntSort())

        def now(I, a, k):
            tz = a[0] if a else k.get('tz')
            if tz is None:
                return w.instant(w.now, w.local_minutes(w.now), naive=True)
            if tz == w.utc:
                return w.instant(w.now, I_(0))
            return w.instant(None, None, tz=tz)
        v.ext('datetime.datetime.now', now)

    def instant(w, at, off, naive=False, tz=None):
        v = w.v
        vals = [v.const(n, INT).t for n in FIELDS]
        v.assume(v.valid(*vals))
        v.assume(And(vals[0] >= 1000, vals[0] <= 9999, *[And(x >= 0, x <= 99) for x in vals[1:6]], vals[6] >= 0, vals[6] < 10 ** 6))
        if at is not None:
            v.assume(v.civil(*vals) - off * MINUTE == at)
            v.assume(And(off > -1440, off < 1440))
        else:
            off = v.const('guessed_offset', INT).t
            at = v.const('guessed_instant', INT).t
            v.assume(And(off > -1440, off < 1440))
        return w.made(dict(zip(FIELDS, vals)), tzinfo=tz, at=INT.wrap(v.I, at), off=INT.wrap(v.I, off), naive=naive, present=at is not None and at is w.now or tz is not None)

    def astimezone(w, o, a, k):
        if a or k:
            raise Unsupported('astimezone to a zone')
        at = w.v.t(w.v.I.get_field(o, 'at'), INT)
        return w.instant(at, w.local_minutes(at))

    def strftime(w, o, fmt):
        v, I = w.v, w.v.I
        vals = dict(zip('YmdHMSf', w.fields(o)))
        if not isinstance(fmt, str):
            raise Unsupported('strftime of a computed format')
        out, i = [], 0
        while i < len(fmt):
            if fmt[i] != '%':
                out.append(z3.StringVal(fmt[i]))
                i += 1
                continue
            c = fmt[i + 1]
            i += 2
            if c in vals:
                out.append(w.decimal(vals[c], WIDTH[c]))
            elif c == 'z':
                if I.get_field(o, 'naive'):
                    continue
                out += w.zone(v.t(I.get_field(o, 'off'), INT))
            else:
                raise Unsupported(f'strftime %{c}')
        return STR.wrap(I, z3.Concat(*out) if len(out) > 1 else out[0])

    def decimal(w, x, n):
        p = w.v.const('digits', STR).t
        w.v.assume(w.v.I.uf('int_of', INT, STR)(p) == x)
        w.v.assume(w.v.I.uf('int_ok', BOOL, STR)(p))
        return w.langs.piece(p, DIGITS[n], n)

    def zone(w, off):
        '''+hhmm of minutes'''
        v = w.v
        s = v.const('sign', STR).t
        a = v.const('abs_minutes', INT).t
        h, m = v.const('zone_hours', INT).t, v.const('zone_minutes', INT).t
        v.assume(And(s == If(off < 0, z3.StringVal('-'), z3.StringVal('+')), a == If(off < 0, -off, off), a == h * 60 + m, h >= 0, m >= 0, m < 60))
        return [w.langs.piece(s, SIGN, 1), w.decimal(h, 2), w.decimal(m, 2)]

    def plus(w, o, d):
        v = w.v
        return v.I.alloc(HInst(v.dcls, {'sum_of': (o, d)}))


def check_read(w, o, t, fmt, when=None):
    '''the datetime is the one denoted by the text in the format'''
    v = w.v
    vals, off = denoted(w, t, fmt)
    cond = when if when is not None else z3.BoolVal(True)
    for n, got, want in zip(FIELDS, w.fields(o), vals):
        v.check(f'{fmt}: {n}', Implies(cond, got == want), keep=False)
    v.check(f'{fmt}: zone offset', Implies(cond, w.offset(o) == off * MINUTE), keep=False)


def refusable(w, t, fmt):
    '''the text is not a time in the format'''
    vals, off = denoted(w, t, fmt)
    return Or(Not(w.member(t, fmt)), Not(w.v.valid(*vals)), off <= -1440, off >= 1440)


def strict_unit(v):
    w = W(v)
    s = v.const('text', STR)
    t = v.t(s, STR)
    r = v.attempt(lambda: v.call(T + ':time_from_timestamp', s))
    if r.ok:
        v.check('only complete timestamps are read', w.member(t, FULL), keep=False)
        check_read(w, r.value, t, FULL)
        off = w.offset(r.value)
        v.check('the time can be compared', And(off > -1440 * MINUTE, off < 1440 * MINUTE), keep=False)
    else:
        v.check('what is not read is a ValueError', v.is_exc(r, ValueError), keep=False)
        v.check('complete timestamps are read', refusable(w, t, FULL), keep=False)


def round_trip_unit(v):
    w = W(v)
    vals = [v.const(n, INT).t for n in FIELDS]
    off = v.const('offset', INT).t
    v.assume(v.valid(*vals))
    v.assume(And(off > -1440, off < 1440))
    pieces = [w.decimal(x, WIDTH[c]) for c, x in zip('YmdHMSf', vals)] + w.zone(off)
    t = z3.Concat(*pieces[:3], z3.StringVal('T'), *pieces[3:])
    r = v.attempt(lambda: v.call(T + ':time_from_timestamp', STR.wrap(v.I, t)))
    v.check('a timestamp is read', z3.BoolVal(r.ok), keep=False)
    if r.ok:
        for n, got, want in zip(FIELDS, w.fields(r.value), vals):
            v.check(f'{n} is what was written', got == want, keep=False)
        v.check('the zone offset is what was written', w.offset(r.value) == off * MINUTE, keep=False)


def iso_unit(v):
    w = W(v)
    s = v.const('text', STR)
    t = v.t(s, STR)
    r = v.attempt(lambda: v.call(T + ':parse_iso8601', s))
    if r.ok:
        v.check('only documented formats are read', Or(*[w.member(t, f) for f in FORMATS]), keep=False)
        for f in FORMATS:
            if v.branch(w.member(t, f), f):
                check_read(w, r.value, t, f)
    else:
        v.check('what is not read is a ValueError', v.is_exc(r, ValueError), keep=False)
        for f in FORMATS:
            v.check(f'{f}: times are read', refusable(w, t, f), keep=False)


def now_unit(v):
    w = W(v)
    w.present()
    r = v.attempt(lambda: v.call(T + ':timestamp'))
    v.check('there is always a timestamp', z3.BoolVal(r.ok), keep=False)
    if not r.ok:
        return
    back = v.attempt(lambda: v.call(T + ':time_from_timestamp', r.value))
    v.check('it can be read', z3.BoolVal(back.ok), keep=False)
    if back.ok:
        v.check('it denotes the present instant', v.civil(*w.fields(back.value)) - w.offset(back.value) == w.now, keep=False)


UNIT_US = dict(w=7 * 86400 * 10 ** 6, d=86400 * 10 ** 6, H=3600 * 10 ** 6, M=MINUTE, S=10 ** 6)


def delta_unit(v):
    w = W(v)
    I = v.I
    if not hasattr(v, 'ITEM'):
        v.ITEM = TupOf(STR, STR)
        v.ITEMS = ListOf(v.ITEM)
        v.total = z3.Function('microseconds_of_first', z3.IntSort(), z3.IntSort())
    ascii_items = z3.Star(regex.to_re(regex.parse('([+-]?[0-9]+)([wdHMS])')[0]))
    all_items = z3.Star(regex.to_re(regex.parse(r'([+-]?\d+)([wdHMS])')[0]))
    s = v.const('text', STR)
    t = v.t(s, STR)
    items = v.const('items', v.ITEMS)
    L = v.t(items, v.ITEMS)
    n = v.ITEMS.n(L)
    amount = lambda i: I.uf('int_of', INT, STR)(v.ITEM.item(0, v.ITEMS.get(L, i)))
    unit = lambda i: v.ITEM.item(1, v.ITEMS.get(L, i))
    v.assume(v.total(I_(0)) == 0)

    def step(i):
        x = I_(0)
        for u, us in UNIT_US.items():
            x = If(unit(i) == z3.StringVal(u), amount(i) * us, x)
        return x

    def facts(i):
        v.assume(v.total(i + 1) == v.total(i) + step(i))
        v.assume(I.uf('int_ok', BOOL, STR)(v.ITEM.item(0, v.ITEMS.get(L, i))))
        v.assume(Or(*[unit(i) == z3.StringVal(u) for u in UNIT_US]))

    def findall(I, a, k):
        pattern, text = a[0], a[1]
        if isinstance(pattern, Obj):
            pattern = I.get_field(pattern, 'pattern')
        nodes, _ = regex.parse(pattern)
        r = regex.to_re(nodes)
        if not v.t(text, STR).eq(t):
            raise Unsupported('findall of another text')
        # a sign and digits, and a unit; both captured
        shape = len(nodes) == 2 and all(x[0] is RC.SUBPATTERN and x[1][0] == k + 1 for k, x in enumerate(nodes))
        if not shape or not w.langs.same(r, regex.to_re(regex.parse(r'[+-]?\d+[wdHMS]')[0])) or nodes[1][1][3].getwidth() != (1, 1):
            if not w.langs.same(r, regex.to_re(regex.parse('[+-]?[0-9]+[wdHMS]')[0])):
                raise Unsupported(f'findall of {pattern}')
        whole = z3.Star(r)
        w.langs.facts(t, whole)
        v.check('the items are looked for in a sequence of items', w.langs.member(t, whole), keep=False)
        return items
    v.ext('re.findall', findall)

    def inv(Lp):
        d = Lp.find(lambda k, x: isinstance(x, Sym) and x.ty is v.TD or isinstance(x, Obj) and False, 'sum')
        if not z3.is_int_value(z3.simplify(Lp.i)):
            pass
        facts(Lp.i)
        return [('parts added so far', v.TD.f('us', v.t(d, v.TD)) == v.total(Lp.i))]
    v.loop(T + ':*', inv, prefer=True)
    w.langs.predicate(ascii_items)
    w.langs.predicate(all_items)
    r = v.attempt(lambda: v.call(T + ':parse_timedelta', s))
    for x in (ascii_items, all_items):
        w.langs.facts(t, x)
    if r.ok:
        v.check('only documented differences are read', w.langs.member(t, all_items), keep=False)
        v.check('all parts are added', v.TD.f('us', v.t(r.value, v.TD)) == v.total(n), keep=False)
    else:
        v.check('what is not read is a ValueError', v.is_exc(r, ValueError), keep=False)
        v.check('documented differences are read', Not(w.langs.member(t, ascii_items)), keep=False)


def user_unit(v):
    w = W(v)
    w.present()
    I = v.I
    s = v.const('text', STR)
    iso_ok, delta_ok = v.const('iso', BOOL).t, v.const('delta', BOOL).t
    iso = w.instant(w.now, I_(0))
    d = v.const('difference', v.TD)

    def parser(ok, value):
        def run(I, f, a, k):
            v.check('the text of the user is read', v.t(a[0], STR) == v.t(s, STR), keep=False)
            if not I.branch(ok, 'is read'):
                I.raise_(ValueError)
            return value
        return run
    v.stub(T + ':parse_iso8601', parser(iso_ok, iso))
    v.stub(T + ':parse_timedelta', parser(delta_ok, d))
    r = v.attempt(lambda: v.call(T + ':time_from_user', s))
    if not r.ok:
        v.check('what is not read is a ValueError', v.is_exc(r, ValueError), keep=False)
        v.check('only what is neither time nor difference is refused', And(Not(iso_ok), Not(delta_ok)), keep=False)
        return
    sum_of = I.h(r.value).fields.get('sum_of')
    if sum_of is None:
        v.check('a time is what the formats say', And(iso_ok, z3.BoolVal(r.value == iso)), keep=False)
    else:
        v.check('a difference is from now', And(Not(iso_ok), delta_ok, z3.BoolVal(bool(I.h(sum_of[0]).fields.get('present')))), keep=False)
        v.check('by the difference', v.t(sum_of[1], v.TD) == v.t(d, v.TD), keep=False)


UNITS = [
    Unit('time differences', delta_unit, mode='theory'),
    Unit('times of the user', user_unit, mode='theory'),
    Unit('strict reader', strict_unit, mode='theory'),
    Unit('round trip', round_trip_unit, mode='theory'),
    Unit('documented formats', iso_unit, mode='theory'),
    Unit('the present', now_unit, mode='theory'),
]
