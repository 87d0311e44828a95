from ziplib import *
from bead.tech import securehash
from bead.ziparchive import ZipArchive
import bead.zipopener


class Stream(io.RawIOBase):
    '''arbitrarily short reads'''
    def __init__(self, b, rng):
        self.b, self.p, self.rng = b, 0, rng

    def readable(self):
        return True

    def read(self, n=-1):
        left = len(self.b) - self.p
        if n is None or n < 0:
            n = left
        n = min(n, left)
        if n > 1:
            n = self.rng.choice([n, n, 1, self.rng.randint(1, n)])
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def readinto(self, buf):
        r = self.read(len(buf))
        buf[:len(r)] = r
        return len(r)

    def readall(self):
        r = self.b[self.p:]
        self.p = len(self.b)
        return r


def big_content(d):
    r = d.rng
    block = getattr(securehash, 'READ_BLOCK_SIZE', 1024 ** 2)
    if not isinstance(block, int) or block > 4 * 1024 ** 2:
        block = 1024 ** 2
    n = r.choice([block - 1, block, block + 1, 2 * block, 2 * block + 1, 65536, 65537])
    return r.choice([b'\0', b'x', b'\n', b'ab', b'0123456789:;']) * n if r.random() < .5 else bytes([r.randrange(256)]) * n


def check_stream(d, b):
    s = d.rng.choice(['short', 'bytesio', 'file'])
    if s == 'short':
        f = Stream(b, d.rng)
    elif s == 'bytesio':
        f = io.BytesIO(b)
    else:
        p = os.path.join(d.tmp, 'f')
        with open(p, 'wb') as o:
            o.write(b)
        f = open(p, 'rb')
    got = securehash.file(f, len(b))
    expect(got == H(b), 'hash of stream', length=len(b), head=b[:40], got=got, want=H(b), stream=s)
    expect(f.closed, 'stream stays open')


@case()
def memory(d):
    b = content(d)
    expect(securehash.bytes(b) == H(b), 'hash of bytes', bytes=b[:300], length=len(b), got=securehash.bytes(b), want=H(b))


@case()
def stream(d):
    check_stream(d, content(d, True))


@case(2)
def big(d):
    b = big_content(d)
    check_stream(d, b)
    expect(securehash.bytes(b) == H(b), 'hash of bytes', length=len(b), head=b[:20])


@case(fixed=True)
def lengths(d):
    for n in list(range(0, 260)) + [999, 1000, 1001, 4095, 4096, 4097, 65535, 65536, 99999, 100000]:
        b = bytes(i * 7 % 256 for i in range(n % 1000)) + b'z' * (n - n % 1000)
        expect(len(b) == n, 'driver')
        expect(securehash.bytes(b) == H(b), 'hash of bytes', length=n)
        expect(securehash.file(io.BytesIO(b), n) == H(b), 'hash of file', length=n)


@case()
def other_size(d):
    b = content(d)
    r = d.rng
    n = r.choice([len(b) + 1, max(0, len(b) - 1), 0, len(b) * 2 + 1, len(b) + 1024 ** 2])
    if n == len(b):
        n += 1
    try:
        got = securehash.file(r.choice([io.BytesIO(b), Stream(b, r)]), n)
    except Exception:
        return
    expect(False, 'a hash is made for another size', length=len(b), declared=n, got=got)


@case()
def archive(d):
    r = d.rng
    p = os.path.join(d.tmp, 'x_20200101T000000000000+0000.zip')
    e = parts(data={'a': content(d)}, code={'b': content(d)}, kind=r.choice(['k', 'kind']))
    if r.random() < .5:
        e['meta/manifest'] = dumps({k: r.choice(['x', H(b)]) for k, b in e.items()}) + b' ' * r.randrange(3)
    if r.random() < .3:
        e['meta/other'] = content(d)
    write(p, e, comment=r.choice([b'', b'comment']), compression=r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
    a = ZipArchive(p, r.choice(['', 'box']))
    for k in range(2):
        got = a.content_id
        expect(got == H(e['meta/manifest']), 'content id', manifest=e['meta/manifest'], got=got, want=H(e['meta/manifest']))
    close = getattr(bead.zipopener, 'close_all', None)
    if close:
        close()


if __name__ == '__main__':
    main('content of random length, streams with short reads, declared sizes that are not true')
