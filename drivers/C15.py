from ziplib import *
from bead import zipopener
from bead.zipopener import OpenZipLRUCache
from bead.ziparchive import ZipArchive
from bead.exceptions import InvalidArchive


def usable(z, path, text, what):
    expect(z.fp is not None, f'{what}: the handle is closed', path=path)
    got = z.read('which')
    expect(got == text, f'{what}: handle of another file', path=path, got=got, want=text)


def files(d, n):
    out = []
    for k in range(n):
        p = os.path.join(d.tmp, f'f{k}.zip')
        with zipfile.ZipFile(p, 'w') as z:
            z.writestr('which', f'content {k}')
        out.append((p, f'content {k}'.encode()))
    return out


def run(d, cache, size, fs, steps):
    r = d.rng
    recent = []     # model: least recent first
    handles = {}
    bad = os.path.join(d.tmp, 'bad.zip')
    with open(bad, 'w') as f:
        f.write('not a zip')
    everything = []
    log = []
    for _ in range(steps):
        k = r.random()
        if k < .06:
            log.append('close_all')
            cache.close_all()
            for z in everything:
                expect(z.fp is None, 'open after close_all', log=log)
            recent, handles = [], {}
            continue
        if k < .16:
            missing = r.choice([bad, os.path.join(d.tmp, 'missing.zip')])
            log.append(missing)
            try:
                cache.open(missing)
            except Exception:
                pass
            else:
                expect(False, 'opens what is not an archive', log=log)
            # room may have been made for it
            if len(recent) == size and handles[recent[0]].fp is None:
                handles.pop(recent.pop(0))
        else:
            p, text = r.choice(fs)
            log.append(os.path.basename(p))
            z = cache.open(p)
            usable(z, p, text, 'open')
            if p in recent:
                expect(z is handles[p], 'opened again while it is open', log=log)
                recent.remove(p)
            elif len(recent) == size:
                old = recent.pop(0)
                expect(handles.pop(old).fp is None, 'the least recently requested one is not closed', log=log, size=size)
            recent.append(p)
            handles[p] = z
            if z not in everything:
                everything.append(z)
        for p in recent:
            expect(handles[p].fp is not None, 'another one is closed', closed=p, log=log, size=size)
        n = sum(z.fp is not None for z in everything)
        expect(n == len(recent) and n <= size, 'number of open archives', open=n, max=size, log=log)
    cache.close_all()
    for z in everything:
        expect(z.fp is None, 'open after close_all', log=log)


@case()
def cache(d):
    size = d.rng.choice([1, 1, 2, 3, 4])
    run(d, OpenZipLRUCache(size), size, files(d, size + d.rng.choice([0, 1, 2, 4])), d.rng.randint(3, 40))


@case(2)
def default_size(d):
    c = OpenZipLRUCache()
    run(d, c, c.max_size, files(d, 13), 60)


@case(2)
def module(d):
    zipopener.close_all()
    run(d, zipopener, 10, files(d, 13), 60)


@case(2)
def archives(d):
    '''archives are usable however many others were used before'''
    r = d.rng
    zipopener.close_all()
    made = []
    for k in range(r.choice([3, 12, 14])):
        p = os.path.join(d.tmp, f'n{k}_20200101T000000000000+0000.zip')
        made.append((ZipArchive(write(p, parts(data={'f': b'%d' % k}, name=f'n{k}'))), k))
    for _ in range(30):
        a, k = r.choice(made)
        expect(a.manifest['data/f'] == H(b'%d' % k), 'another archive is served', archive=a.location)
        a.validate()
    zipopener.close_all()


if __name__ == '__main__':
    main('random sequences of requests, bad files and close_all against a model of an LRU cache')
