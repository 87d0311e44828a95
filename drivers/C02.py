import datetime as dt
import re

from ziplib import *
from bead.ziparchive import ZipArchive
from bead.exceptions import InvalidArchive

KEYS = ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs')


def instant(s):
    m = re.fullmatch(r'([0-9]{8}T[0-9]{12})([-+])([0-9]{2})([0-9]{2})', s)
    if not m:
        raise ValueError(s)
    t = dt.datetime.strptime(m[1], '%Y%m%dT%H%M%S%f').replace(tzinfo=dt.timezone.utc)
    off = dt.timedelta(hours=int(m[3]), minutes=int(m[4]))
    return t + off if m[2] == '-' else t - off


def valid(path, now):
    '''what the property says'''
    try:
        with zipfile.ZipFile(path) as z:
            meta = json.loads(z.read('meta/bead'))
            if any(k not in meta for k in KEYS):
                return False, 'mandatory metadata is missing'
            if instant(meta['freeze_time']) > now:
                return False, 'it is from the future'
            manifest = json.loads(z.read('meta/manifest'))
            for n in z.namelist():
                if n.startswith(('data/', 'code/')) and n not in manifest:
                    return False, f'{n} is not in the manifest'
            for n, h in manifest.items():
                if H(z.read(n)) != h:
                    return False, f'{n} is changed'
        return True, ''
    except Exception as e:
        return False, f'not readable: {e!r}'


def accepts(path):
    try:
        ZipArchive(path).validate()
        return True
    except Exception:
        return False


def stamp_at(t, offset_minutes):
    tz = dt.timezone(dt.timedelta(minutes=offset_minutes))
    return t.astimezone(tz).strftime('%Y%m%dT%H%M%S%f%z')


def change(d, e, now):
    '''one change of a valid archive'''
    r = d.rng
    meta = json.loads(e['meta/bead'])
    manifest = json.loads(e['meta/manifest'])
    k = r.randrange(17)
    names = [n for n in manifest]
    n = r.choice(names)
    remanifest = r.random() < .7

    def set_meta():
        e['meta/bead'] = dumps(meta)
        if remanifest:
            manifest['meta/bead'] = H(e['meta/bead'])
            e['meta/manifest'] = dumps(manifest)
    if k == 0:
        meta.pop(r.choice(KEYS), None)
        set_meta()
    elif k == 1:
        ahead = r.choice([30, 61, 3600, 86400, 10 ** 9])
        meta['freeze_time'] = stamp_at(now + dt.timedelta(seconds=ahead), r.choice([0, 60, -60, -720, 840, 330, -330]))
        set_meta()
    elif k == 2:
        behind = r.choice([1, 30, 3600, 86400])
        meta['freeze_time'] = stamp_at(now - dt.timedelta(seconds=behind), r.choice([0, 60, -60, -720, 840, 330]))
        remanifest = True
        set_meta()
    elif k in (3, 4):
        extra = r.choice(['data/extra', 'code/extra', 'data/sub/extra', 'code/.x', 'datax/y', 'code', 'data', 'meta/other', 'top',
                          n.rstrip('/') + '/', n.swapcase(), n + 'x', n[:-1] or 'x', './' + n, n.replace('/', '//', 1), n.split('/')[-1], 'data/' + n, 'meta/data/x', 'x/data/y', 'data/', 'code/sub/', 'DATA/x', 'data//x', 'code/meta/bead', 'data/../top', 'data/' + d.name(), r.choice(['data/', 'code/', 'data/sub/']) + r.choice(['.DS_Store', 'Thumbs.db', '.keep', '.gitkeep', '__pycache__/x.pyc', '.ipynb_checkpoints/x', '.nfs01', 'x~', '.x.swp', 'meta/bead', 'manifest', '__init__.py'])])
        e.setdefault(extra, b'' if extra.endswith('/') else content(d))
    elif k in (5, 6):
        b = bytearray(e[n])
        if b:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            e[n] = bytes(b)
        else:
            e[n] = b'x'
    elif k == 7:
        e.pop(n, None)
    elif k == 8:
        m = r.choice(names)
        e[n], e[m] = e[m], e[n]
    elif k == 9:
        h = manifest[n]
        manifest[n] = r.choice([h[:-1], h.upper(), h + '0', '', h[::-1], h[:40], H(b'other')])
        e['meta/manifest'] = dumps(manifest)
    elif k == 10:
        del manifest[n]
        e['meta/manifest'] = dumps(manifest)
    elif k == 11:
        manifest[r.choice(['data/ghost', 'code/ghost', 'ghost', 'meta/ghost'])] = H(b'')
        e['meta/manifest'] = dumps(manifest)
    elif k == 12:
        e['meta/manifest'] = r.choice([b'', b'{', b'[]', b'null', b'{}', dumps(names)])
    elif k == 13:
        e['meta/bead'] = r.choice([b'', b'{', b'{}', e['meta/bead'][:-2]])
    elif k == 14:
        meta['freeze_time'] = r.choice(['', '20200101', '2020-01-01T00:00:00+0000', '20200101T000000000000', 'x', '20200230T000000000000+0000'])
        set_meta()
    elif k == 15:
        e[n] = e[n][:-1] if r.random() < .5 else e[n] + b'\0'
    else:
        # listed, and so allowed
        extra = r.choice(['data/listed', 'code/sub/listed', 'top-listed', 'meta/listed'])
        e[extra] = content(d)
        manifest[extra] = H(e[extra])
        e['meta/manifest'] = dumps(manifest)


@case(40)
def validate(d):
    r = d.rng
    now = dt.datetime.now(dt.timezone.utc)
    big = r.random() < .04
    files = lambda: {p: content(d, big) for p in r.sample(['a', 'b/c', 'README', 'b/d', '.x', 'é', 'a b', 'c/d/e/f', 'A', 'b/c/'], r.randrange(0, 5))}
    many = {f'm/{i}': b'%d' % (i % 7) for i in range(r.choice([70, 300]))} if r.random() < .02 else {}
    e = parts(data={**files(), **many}, code=files(), freeze_time=r.choice(['20150901T151015000001+0200', stamp_at(now, 0), '19990101T000000000000-0100']))
    for _ in range(r.choice([0, 1, 1, 1, 1, 2])):
        try:
            change(d, e, now)
        except (ValueError, KeyError, TypeError, IndexError):
            pass
    path = os.path.join(d.tmp, 'bead_20150901T151015000001+0200.zip')
    items = list(e.items())
    r.shuffle(items)
    write(path, dict(items), compression=r.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]))
    if r.random() < .15:
        with zipfile.ZipFile(path, 'a') as z:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                z.writestr(r.choice(list(e) + ['code/a', 'data/a']), r.choice([b'HACKED', b'', content(d)]))
    raw = r.random() < .15
    if raw:
        b = bytearray(open(path, 'rb').read())
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        open(path, 'wb').write(bytes(b))
    want, why = valid(path, dt.datetime.now(dt.timezone.utc))
    got = accepts(path)
    if raw and not got:
        return      # damage elsewhere in the file may also be noticed
    expect(got == want, 'accepts an archive that is not complete or was tampered with' if got else 'refuses a complete, untampered archive',
           reason=why, entries={k: (b if len(b) < 300 else b[:300]) for k, b in e.items()})


@case(1)
def large_files(d):
    r = d.rng
    n = r.choice([65536, 70000, (1 << 20) - 1, 1 << 20, (1 << 20) + 7, (1 << 21) + 1, 1 << 22])
    b = bytearray(r.randbytes(1000) * (n // 1000 + 1))[:n]
    e = parts(data={'f': bytes(b), 'g': b'1'}, code={'c': b'2'})
    how = r.choice(['same', 'start', 'end', 'middle', 'random', 'shorter', 'longer'])
    if how == 'shorter':
        b = b[:-1]
    elif how == 'longer':
        b += b'x'
    elif how != 'same':
        b[{'start': 0, 'end': n - 1, 'middle': n // 2, 'random': r.randrange(n)}[how]] ^= 1 << r.randrange(8)
    e['data/f'] = bytes(b)
    path = os.path.join(d.tmp, 'big_20200101.zip')
    write(path, e, compression=r.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]))
    got = accepts(path)
    expect(got == (how == 'same'), 'accepts an archive with a changed large file' if got else 'refuses an archive with a large file', size=n, change=how)


main('one evaluation = one archive with up to two changes, validated and compared with the property evaluated by an independent reader')
