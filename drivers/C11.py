import re
import subprocess
import sys
from datetime import datetime, timedelta, timezone

from lib import *
from bead.tech import timestamp as T

FORMATS = ['%Y%m%dT%H%M%S%f%z', '%Y', '%Y%m', '%Y-%m', '%Y%m%d', '%Y-%m-%d', '%Y%m%dT%H%M%S%z', '%Y-%m-%dT%H:%M:%S%z', '%Y-%m-%dT%H:%M:%S.%f%z']
PARTS = {'%Y': '(?P<Y>[0-9]{4})', '%m': '(?P<m>[0-9]{2})', '%d': '(?P<d>[0-9]{2})', '%H': '(?P<H>[0-9]{2})', '%M': '(?P<M>[0-9]{2})',
         '%S': '(?P<S>[0-9]{2})', '%f': '(?P<f>[0-9]{6})', '%z': '(?P<s>[-+])(?P<zh>[0-9]{2})(?P<zm>[0-9]{2})', '.': '[.]'}
UNITS = dict(w=7 * 86400, d=86400, H=3600, M=60, S=1)
UTC = timezone.utc


def pattern(fmt):
    return re.compile(re.sub('%.|[.]', lambda m: PARTS[m.group()], fmt))


PATTERNS = {f: pattern(f) for f in FORMATS}


def denoted(text, formats):
    '''(instant in microseconds as an aware datetime, offset) - or None, when it is not a time'''
    for f in formats:
        m = PATTERNS[f].fullmatch(text)
        if m:
            g = m.groupdict()
            n = lambda k, default: int(g.get(k, default))
            off = (n('zh', 0) * 60 + n('zm', 0)) * (-1 if g.get('s') == '-' else 1)
            try:
                return datetime(n('Y', 0), n('m', 1), n('d', 1), n('H', 0), n('M', 0), n('S', 0), n('f', 0), timezone(timedelta(minutes=off)))
            except ValueError:
                return None
    return None


def instant(t):
    '''integer arithmetic only'''
    n = t.replace(tzinfo=None) - datetime(1, 1, 1)
    n -= t.utcoffset()
    return n // timedelta(microseconds=1)


def some(r):
    y = r.choice([1, 999, 1000, 1582, 1900, 1969, 1970, 1999, 2000, 2004, 2020, 2021, 2038, 2100, 9999, r.randint(1, 9999)])
    mo = r.randint(1, 12)
    last = ((datetime(y + (mo == 12), mo % 12 + 1, 1) - timedelta(days=1)) if (y, mo) != (9999, 12) else datetime(9999, 12, 31)).day
    d = r.choice([1, last, r.randint(1, last)])
    us = r.choice([0, 1, 9, 10, 999, 1000, 99999, 100000, 123456, 500000, 999999, r.randrange(10 ** 6)])
    off = r.choice([0, 1, -1, 59, 60, -60, -30, -1, 330, 345, -210, 840, -720, 1439, -1439, r.randint(-1439, 1439)])
    return datetime(y, mo, d, r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]), us,
                    timezone(timedelta(minutes=off)))


def write(t, fmt=FORMATS[0]):
    off = t.utcoffset() // timedelta(minutes=1)
    z = f'{"-" if off < 0 else "+"}{abs(off) // 60:02}{abs(off) % 60:02}'
    vals = {'%Y': f'{t.year:04}', '%m': f'{t.month:02}', '%d': f'{t.day:02}', '%H': f'{t.hour:02}', '%M': f'{t.minute:02}', '%S': f'{t.second:02}',
            '%f': f'{t.microsecond:06}', '%z': z}
    return re.sub('%.', lambda m: vals[m.group()], fmt)


def fields(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.utcoffset())


def mangled(d, text):
    r = d.rng
    s = list(text)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(s))
        k = r.randrange(5)
        if k == 0 and s:
            del s[min(i, len(s) - 1)]
        elif k == 1:
            s.insert(i, r.choice('0123456789T+-: .\n\t٣９éZ'))
        elif k == 2 and s:
            s[min(i, len(s) - 1)] = r.choice('0123456789T+-: .\n٣９tZ')
        elif k == 3 and len(s) > 1:
            i = min(i, len(s) - 2)
            s[i], s[i + 1] = s[i + 1], s[i]
        else:
            s = s[:i] if r.random() < .5 else s[i:]
    return ''.join(s)


def attempt(f, *a):
    try:
        return f(*a)
    except ValueError:
        return None


def same(got, want, what, text):
    expect((got is None) == (want is None), what + (': accepted' if want is None else ': rejected'), text=text, got=got, want=want)
    if want is not None:
        expect(fields(got) == fields(want), what, text=text, got=fields(got), want=fields(want))


@case(20)
def round_trip(d):
    for _ in range(20):
        t = some(d.rng)
        s = write(t)
        same(attempt(T.time_from_timestamp, s), t, 'strict reader', s)


@case(20)
def order(d):
    r = d.rng
    for _ in range(10):
        a = some(r)
        off = timezone(timedelta(minutes=r.randint(-1439, 1439)))
        try:
            b = (a + timedelta(microseconds=r.choice([0, 0, 1, -1, 10 ** 6, 60 * 10 ** 6, -3600 * 10 ** 6, r.randrange(-10 ** 12, 10 ** 12)]))).astimezone(off)
        except OverflowError:
            continue
        x, y = T.time_from_timestamp(write(a)), T.time_from_timestamp(write(b))
        i, j = instant(a), instant(b)
        expect((x < y, x == y, x > y, x <= y) == (i < j, i == j, i > j, i <= j), 'order of instants', a=write(a), b=write(b))
        expect((x - y) // timedelta(microseconds=1) == i - j, 'difference of instants', a=write(a), b=write(b))


@case(20)
def strict(d):
    for _ in range(20):
        s = write(some(d.rng), d.rng.choice([FORMATS[0]] * 4 + FORMATS))
        if d.rng.random() < .8:
            s = mangled(d, s)
        same(attempt(T.time_from_timestamp, s), denoted(s, FORMATS[:1]), 'strict reader', s)


@case(20)
def formats(d):
    for _ in range(20):
        s = write(some(d.rng), d.rng.choice(FORMATS))
        if d.rng.random() < .4:
            s = mangled(d, s)
        want = denoted(s, FORMATS)
        same(attempt(T.parse_iso8601, s), want, 'time formats', s)
        if want is not None or not re.search('[wdHMS]', s):
            if s:
                same(attempt(T.time_from_user, s), want, 'user time', s)


def delta(d):
    r = d.rng
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    out, total = '', 0
    for _ in range(n):
        k, u = r.choice([0, 1, 2, 3, 7, 10, 99, 400, r.randint(0, 5000)]), r.choice('wdHMS')
        sign = r.choice(['', '', '-', '+'])
        out += f'{sign}{r.choice(["", "", "0", "00"])}{k}{u}'
        total += (-k if sign == '-' else k) * UNITS[u]
    return out, total


@case(20)
def deltas(d):
    for _ in range(20):
        s, total = delta(d)
        if d.rng.random() < .3:
            s = mangled(d, s)
            if re.search('[^-+0-9wdHMSym]', s):
                ok = False
            else:
                ok = re.fullmatch('([-+]?[0-9]+[wdHMS])*', s) is not None
            if ok:
                total = sum(int(n) * UNITS[u] for n, u in re.findall('([-+]?[0-9]+)([wdHMS])', s))
            elif not s.isascii():
                continue
        else:
            ok = True
        if ok and abs(total) > 10 ** 10:
            continue
        got = attempt(T.parse_timedelta, s)
        expect((got is not None) == ok, 'time difference: ' + ('rejected' if ok else 'accepted'), text=s, got=got)
        if ok:
            expect(got == timedelta(seconds=total), 'time difference', text=s, got=got, want=timedelta(seconds=total))


@case(4)
def bad_user_times(d):
    s = d.rng.choice(['1y', '1m', '3', '2w3', '1d 2d', ' 1d', '1d\n', 'now', 'today', '1.5d', '--1d', '1D', '2012-11-30T23', '20121130T23:59:47-0100',
                      '20121130T235947', '2021-13', '20210230', '2021\n', '20210304T050607890123+2400', '+', 'd', '12345', '1234567'])
    expect(attempt(T.time_from_user, s) is None, 'user time accepted', text=s)


def run(tz, code):
    code = f'import sys; sys.path.insert(0, {REPO!r})\n' + code
    p = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, TZ=tz), capture_output=True, text=True, timeout=50)
    return p


ZONES = ['UTC', 'Europe/Budapest', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'America/St_Johns', 'Pacific/Kiritimati', 'Pacific/Pago_Pago',
         'Asia/Kathmandu', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'AEST-10AEDT,M10.1.0,M4.1.0/3', '<-0330>3:30<-0230>,M3.2.0,M11.1.0',
         '<+0545>-5:45', 'XXX12', 'YYY-14']


@case(2)
def present(d):
    '''timestamp() at chosen instants, in a time zone'''
    r = d.rng
    tz = r.choice(ZONES)
    # around the changes of daylight saving time of the years, and other times
    year = 86400 * 365.2425
    base = [int(r.randrange(1990, 2036) * year - 1970 * year) + r.randrange(int(year)) for _ in range(40)]
    code = f'''
import time
from datetime import datetime as real, timedelta, timezone
from bead.tech import timestamp as T
base = {base!r}
spots = list(base)
step = 3600 * 24
for b in base[:6]:
    for k in range(370):
        x, y = b + k * step, b + (k + 1) * step
        if time.localtime(x).tm_gmtoff != time.localtime(y).tm_gmtoff:
            while y - x > 1:
                m = (x + y) // 2
                x, y = (m, y) if time.localtime(m).tm_gmtoff == time.localtime(x).tm_gmtoff else (x, m)
            spots += [y + s for s in (-7200, -3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200)]
now = None
class datetime(real):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(now, tz) + timedelta(microseconds=us) if tz is not None else (lambda x: x.replace(microsecond=us))(cls.fromtimestamp(now))
    @classmethod
    def utcnow(cls):
        return real.fromtimestamp(now, timezone.utc).replace(tzinfo=None, microsecond=us)
T.datetime = datetime
time.time = lambda: now + us / 1e6
time.time_ns = lambda: now * 10 ** 9 + us * 1000
for k, s in enumerate(spots):
    now, us = s, [0, 1, 999999, 500000, 123456][k % 5]
    text = T.timestamp()
    t = T.time_from_timestamp(text)
    want = real(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=s, microseconds=us)
    assert t == want, (text, want.isoformat())
    assert text == want.astimezone().strftime('%Y%m%dT%H%M%S%f%z'), (text, want.isoformat())
print('ok', len(spots))
'''
    p = run(tz, code)
    if p.returncode and 'AssertionError' not in p.stderr and 'ValueError' not in p.stderr:
        raise RuntimeError(p.stderr[-800:])
    expect(p.returncode == 0, 'the timestamp of the present moment', zone=tz, error=p.stderr[-300:])


@case(2)
def user_now(d):
    s, total = delta(d)
    tz = d.rng.choice(ZONES)
    code = f'''
from datetime import datetime, timedelta, timezone
from bead.tech import timestamp as T
a = datetime.now(timezone.utc)
t = T.time_from_user({s!r})
b = datetime.now(timezone.utc)
n = T.time_from_timestamp(T.timestamp())
c = datetime.now(timezone.utc)
assert b - timedelta(microseconds=1) <= n <= c, ('now', n)
x = timedelta(seconds={total})
# local time: daylight saving may change on the way
lo, hi = a + x - timedelta(hours=2), b + x + timedelta(hours=2)
assert lo <= t <= hi, ('user', t, lo, hi)
if not {total}:
    assert abs(t - a) <= (b - a), ('user now', t, a)
'''
    if abs(total) > 1000 * 365 * 86400:
        raise Skip
    p = run(tz, code)
    if p.returncode and 'AssertionError' not in p.stderr and 'ValueError' not in p.stderr:
        raise RuntimeError(p.stderr[-800:])
    expect(p.returncode == 0, 'user time relative to now', text=s, zone=tz, error=p.stderr[-300:])


if __name__ == '__main__':
    main('texts of times and time differences, mangled texts, time zones around daylight saving changes')
