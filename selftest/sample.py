'''Sample code for comparing the verifier's interpreter with CPython.'''
from collections import defaultdict
from functools import partial
from itertools import chain
import contextlib


class A:
    x = 3

    def __init__(self, a, b=2, *rest, c=4, **kw):
        self.a, self.b, self.c = a, b, c
        self.rest = rest
        self.kw = kw

    @property
    def total(self):
        return self.a + self.b

    @classmethod
    def make(cls, a):
        return cls(a, 10)

    @staticmethod
    def stat(z):
        return z * 2

    def __eq__(self, other):
        return self.a == other.a


class B(A):
    def __init__(self, *a):
        super().__init__(*a)
        self.extra = 1


def classes(n):
    a = A(n, 5, 6, 7, c=8, d=9)
    b = B(n)
    return (a.total, a.rest, sorted(a.kw.items()), a.c, b.total, b.extra, A.make(n).b, A.stat(n), b.x, isinstance(b, A))


def loops(n):
    out = []
    for i in range(n):
        if i == 2:
            continue
        if i > 6:
            break
        for j in range(i):
            if j == 3:
                break
        else:
            out.append(('else', i))
        out.append(i)
    else:
        out.append('end')
    k = 0
    while k < n:
        k += 2
    else:
        out.append(k)
    return out


def exceptions(n):
    log = []
    try:
        try:
            if n == 1:
                raise ValueError('one')
            if n == 2:
                raise KeyError('two')
            if n == 3:
                return 'early'
            log.append('no exc')
        except ValueError as e:
            log.append(str(e.args[0]))
            if n == 1:
                raise RuntimeError('again')
        else:
            log.append('else')
        finally:
            log.append('finally')
    except (RuntimeError, KeyError) as e:
        log.append(type(e).__name__ if False else 'caught')
    return log


def gen(n):
    try:
        for i in range(n):
            if i % 2:
                yield i
        yield 'last'
    finally:
        pass


def generators(n):
    a = [x for x in gen(n)]
    b = list(gen(n))
    c = sum(x * x for x in range(n) if x != 3)
    d = {k: v for k, v in zip('abc', range(n))}
    e = {x % 3 for x in range(n)}
    f = list(map(lambda x: x + 1, filter(lambda x: x > 1, range(n))))
    g = any(x > 4 for x in range(n)), all(x < 4 for x in range(n))
    h = list(chain([1, 2], range(n)))
    i = next((x for x in range(n) if x > 2), None)
    j = next(iter(sorted(range(n), key=lambda x: -x)), 'none')
    return a, b, c, sorted(d.items()), sorted(e), f, g, h, i, j


def first_big(n):
    for x in gen(n):
        if x == 3:
            return 'found'
    return 'not found'


def containers(n):
    d = defaultdict(list)
    for i in range(n):
        d[i % 2].append(i)
    s = set()
    s.add(1)
    s.add(1)
    s |= {2, n}
    s.discard(7)
    l = [3, 1, 2]
    l.extend(range(n))
    l.sort(reverse=True)
    l2 = l[1:3] + l[:1] + l[-1:]
    l.pop()
    l.insert(0, 9)
    a, *rest = l
    dd = dict(x=1, y=n)
    dd.update({'z': 3})
    p = dd.pop('x')
    del dd['y']
    dd.setdefault('q', []).append(4)
    return sorted(d.items()), sorted(s), l, l2, a, rest, p, sorted(dd.items(), key=lambda x: x[0]), dd.get('nope', 5), \
        {1, 2} & {2, 3}, {1, 2} - {2}, min([3, n, 5]), max([3, n], key=lambda x: -x), sorted([(2, 'b'), (1, 'z'), (2, 'a')])


def strings(n):
    s = 'abc-%s-%d' % ('x', n)
    return (s, s.upper(), s.split('-'), f'{n}:{s!r}:{n:03d}', '{}.{a}'.format(n, a=s), ','.join(['a', 'b']), s[1:-1], s[0],
            s.startswith('ab'), s.rpartition('-'), 'b' in s, s.replace('a', 'zz'), b'abc'.hex())


@contextlib.contextmanager
def cm(log, swallow):
    log.append('in')
    try:
        yield len(log)
    except ValueError:
        log.append('err')
        if not swallow:
            raise
    finally:
        log.append('out')


def with_(n):
    log = []
    try:
        with cm(log, n == 1) as x:
            log.append(x)
            if n < 3:
                raise ValueError
            if n == 4:
                return log
        log.append('after')
    except ValueError:
        log.append('escaped')
    return log


def closures(n):
    fs = [lambda k=i: k + n for i in range(3)]
    cnt = 0

    def inc():
        nonlocal cnt
        cnt += 1
        return cnt
    inc()
    inc()
    g = partial(max, 3)
    return [f() for f in fs], cnt, g(n), (lambda *a, **k: (a, sorted(k)))(1, 2, z=3)


def boolops(n):
    x = n or 'zero'
    y = n and 'pos'
    return x, y, not n, 1 < n < 5, n if n > 2 else None, None is None, n in (1, 2), n not in [1]


# ---- symbolic
def s_filter(xs, lim):
    return [x for x in xs if x > lim]


def s_map(xs):
    out = []
    for x in xs:
        out.append(x + 1)
    return out


def s_find(xs, y):
    for x in xs:
        if x == y:
            return True
    return False


def s_all(xs, lim):
    return all(x < lim for x in xs)


def s_set(xs, ys):
    return {x for x in xs if x not in ys} | set(ys)


def s_dict(xs):
    d = {}
    for k, v in xs:
        d[k] = v
    return d


def s_group(xs):
    d = defaultdict(list)
    for k, v in xs:
        d[k].append(v)
    return d


def s_flat(xss):
    return [x for xs in xss for x in xs]


def s_gen(xs):
    for x in xs:
        if x > 0:
            yield x


def s_gen_use(xs):
    for x in s_gen(xs):
        if x > 10:
            return x
    raise KeyError('none')


def s_max(xs):
    return max(xs, key=lambda x: -x)


def s_sorted(xs):
    return sorted(xs, reverse=True)[:1]


def s_last(xs):
    last = None
    r = 0
    for x in xs:
        if x > 5:
            r = x
    return r


def s_uniq(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def s_sum(n):
    s = 0
    i = 0
    while i < n:
        i += 1
        s += i
    return s
