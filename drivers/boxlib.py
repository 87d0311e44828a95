'''Boxes with files made by hand, and what a search of them should find.'''
from datetime import datetime, timedelta, timezone

from ziplib import *

NAMES = ['a', 'b', 'ab', 'abc', 'a_b', 'bead', 'bead-2', 'bead[1]', 'bead[a-c]', '*', 'a*', '?', 'a?c', '[', ']', '[!a]', 'a b', 'é', 'e\u0301', '日本', '-x', '.hidden',
         'a.b', 'a.zip', "o'hara", 'q"q', 'A', 'Ab', 'a%', '_', 'a_', '%', '--', 'x\\y', 'a\nb', '~', '$HOME', '{a,b}', 'a_2020', 'a_20200101b', 'b_t20200101', '007', '1e3']
KINDS = ['k', 'k2', 'kind', 'K', "k'", 'k%', 'é', '007', '1e3', ' k', '']
BASE = datetime(2021, 3, 4, 5, 6, 7, 890123, tzinfo=timezone.utc)
CONDITIONS = dict(
    by_name=lambda b, x: b['name'] == x, by_kind=lambda b, x: b['kind'] == x, by_content_id=lambda b, x: b['content_id'] == x,
    at_time=lambda b, x: b['time'] == x, newer_than=lambda b, x: b['time'] > x, older_than=lambda b, x: b['time'] < x,
    at_or_newer=lambda b, x: b['time'] >= x, at_or_older=lambda b, x: b['time'] <= x)
TAGS = dict(by_name='BEAD_NAME', by_kind='KIND', by_content_id='CONTENT_ID', at_time='AT_TIME', newer_than='NEWER_THAN',
            older_than='OLDER_THAN', at_or_newer='AT_OR_NEWER', at_or_older='AT_OR_OLDER')


def text(t):
    '''the time in its time zone, as a freeze time'''
    off = int(t.utcoffset().total_seconds()) // 60
    sign = '-' if off < 0 else '+'
    return t.strftime('%Y%m%dT%H%M%S%f').rjust(21, '0') + f'{sign}{abs(off) // 60:02}{abs(off) % 60:02}'


def some_time(r, past=False):
    d = r.choice([0, 0, 1, -1, 2, 10, 10 ** 6, -10 ** 6, 86400 * 10 ** 6, r.randrange(-10 ** 12, 10 ** 12)])
    if r.random() < .15:
        d = (-1 if past else r.choice([-1, 1])) * r.randrange(40 * 365 * 86400) * 10 ** 6 + r.choice([0, 1, 999999])
    base = BASE
    if r.random() < .1:   # so far away that seconds as floating point numbers do not have microseconds
        base = datetime(r.choice([8, 1000] if past else [8, 9000]), 3, 4, 5, 6, 7, 890123, tzinfo=timezone.utc)
        d = r.choice([0, 0, 1, -1, 2])
    off = r.choice([0, 0, 60, -60, 330, -210, 840, -720])
    return (base + timedelta(microseconds=d)).astimezone(timezone(timedelta(minutes=off)))


def bead(d, box, names=NAMES, past=False):
    '''Put an archive in the box, return what should be found (with past: it is valid)'''
    r = d.rng
    name = r.choice(names)
    t = some_time(r, past)
    kind = r.choice(KINDS)
    inputs = {n: dict(kind=r.choice(KINDS), content_id=r.choice(['c1', 'c2', H(b'x')]), freeze_time=text(some_time(r)))
              for n in r.sample(['in', 'in2', 'é', 'a b', "i'n"], r.choice([0, 0, 1, 2]))}
    if r.random() < .02:
        inputs.update({f'many{i}': dict(kind=f'k{i % 3}', content_id=f'c{i % 11}', freeze_time=text(some_time(r))) for i in range(r.choice([20, 45]))})
    stamp = r.choice(['_' + text(t)] * 6 + ['_20200101', '_20200101', '', '', '_20200101t010203', '_20200101T', '_20210304T050607890123-0200'])
    path = os.path.join(box, name + stamp + '.zip')
    if os.path.lexists(path):
        return None
    link = r.random() < .06 and os.path.join(d.tmp, f'linked{r.randrange(10 ** 9)}', r.choice(['x_20200101.zip', name + '.zip', 'stored']))
    if link:   # the archive is stored elsewhere
        os.makedirs(os.path.dirname(link))
        os.symlink(link, path)
    make(link or path, kind=kind, name=r.choice([name, name, 'other']), freeze_time=text(t), inputs=inputs, data={'f': content(d)} if r.random() < .7 else {})
    return info(path, name)


def info(path, name):
    with zipfile.ZipFile(path) as z:
        m = json.loads(z.read('meta/bead'))
        cid = H(z.read('meta/manifest'))
    ft = m['freeze_time']
    t = datetime.strptime(ft, '%Y%m%dT%H%M%S%f%z')
    return dict(path=path, name=name, kind=m['kind'], content_id=cid, freeze_time_str=ft, time=t,
                inputs=sorted((k, x['kind'], x['content_id'], x['freeze_time']) for k, x in m['inputs'].items()))


BAD_TIMES = ['', 'now', '2021', '20210304', '20210304T050607890123', '20210304T050607890123+02', '20210304T050607890123+0200 ', '20211304T050607890123+0000',
             '20210304T050607890123+2400', '20210304T050607890123-9959', None, 20210304, [], {}]


def damaged(d, box):
    '''A file that is not a readable bead'''
    r = d.rng
    name = r.choice(NAMES + ['damaged'])
    path = os.path.join(box, name + r.choice(['', '_20200101', '_' + text(some_time(r))]) + '.zip')
    if os.path.lexists(path):
        return
    k = r.randrange(16)
    e = parts(freeze_time=text(some_time(r)), kind='k')
    m = json.loads(e['meta/bead'])
    if k == 0:
        open(path, 'w').close()
    elif k == 1:
        with open(path, 'wb') as f:
            f.write(r.randbytes(300))
    elif k == 2:
        os.mkdir(path)
    elif k == 3:
        os.symlink('/nonexistent/x', path)
    elif k == 4:
        write(path, {'data/x': b'1'})
    elif k == 5:
        e['meta/bead'] = r.choice([b'', b'{', b'[]', b'null', b'"x"', b'\xff\xfe\x00', b'3', b'{}', b'[1,2]'])
        write(path, e)
    elif k == 6:
        write(path, e)
        data = open(path, 'rb').read()
        with open(path, 'wb') as f:
            f.write(data[:r.randrange(len(data))])
    elif k == 7:
        m['freeze_time'] = r.choice(BAD_TIMES)
        e['meta/bead'] = dumps(m)
        write(path, e)
    elif k == 8:
        n = r.choice(['kind', 'freeze_time', 'inputs'])
        del m[n]
        e['meta/bead'] = dumps(m)
        write(path, e)
    elif k == 9:
        m['inputs'] = r.choice([None, 3, ['x'], {'i': None}, {'i': {}}, {'i': {'kind': 'k'}}, {'i': 'x'}, 'text'])
        e['meta/bead'] = dumps(m)
        write(path, e)
    elif k == 10:
        del e['meta/manifest']
        write(path, e)
    elif k == 11:
        del e['meta/bead']
        write(path, e)
    elif k == 12:
        write(path, e)
        data = bytearray(open(path, 'rb').read())
        i = data.find(b'meta/bead') + 9
        for j in range(i, min(i + 20, len(data))):
            data[j] ^= 0x5a
        with open(path, 'wb') as f:
            f.write(bytes(data))
    elif k == 13:
        open(path, 'w').close()
        os.chmod(path, 0)
    elif k == 14:
        write(path, e)
        os.rename(path, os.path.join(box, '_20200101.zip'))
    else:
        with open(os.path.join(box, r.choice(['notes.txt', 'README', 'x.zip.part', 'x.ZIP~'])), 'w') as f:
            f.write('x')


def near(d, text):
    '''something like the text, but not the same'''
    r = d.rng
    return r.choice([text.swapcase(), text.upper(), text.lower(), text[:-1], text + 'x', text + ' ', ' ' + text, text + '*', text[:1] + '%', '_' * len(text), text + '_20200101', text[1:],
                     'x' + text]) or 'x'


def condition(d, beads):
    '''(method, value) mostly about an existing bead'''
    r = d.rng
    how = r.choice(list(CONDITIONS))
    b = r.choice(beads) if beads and r.random() < .85 else None
    if b and how.startswith('by_') and r.random() < .2:
        return how, near(d, b[how[3:]])
    if how == 'by_name':
        return how, b['name'] if b else r.choice(NAMES)
    if how == 'by_kind':
        return how, (b['kind'] if b else r.choice(KINDS)) or 'k'
    if how == 'by_content_id':
        return how, b['content_id'] if b else H(b'none')
    t = b['time'] + timedelta(microseconds=r.choice([0, 0, 0, 1, -1])) if b else some_time(r)
    t = t.astimezone(timezone(timedelta(minutes=r.choice([0, 0, 60, -330]))))
    return how, text(t) if r.random() < .5 else t


def wanted(beads, conds):
    v = lambda x: datetime.strptime(x, '%Y%m%dT%H%M%S%f%z') if isinstance(x, str) else x
    return [b for b in beads if all(CONDITIONS[h](b, x if h.startswith('by_') else v(x)) for h, x in conds)]


def key(b):
    return (b['name'], b['kind'], b['content_id'], b['freeze_time_str'], tuple(b['inputs']))


def found(b):
    return (str(b.name), b.kind, b.content_id, b.freeze_time_str,
            tuple(sorted((i.name, i.kind, i.content_id, i.freeze_time_str) for i in b.inputs)))
