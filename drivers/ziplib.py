'''Archives made by hand, independent of the code under test.'''
import hashlib
import io
import json
import os
import zipfile

from lib import *

META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'


def H(b):
    n = str(len(b)).encode()
    return hashlib.sha512(n + b':' + b + b';' + n).hexdigest()


def dumps(x):
    return json.dumps(x, indent=4, sort_keys=True).encode()


def parts(kind='kind', freeze_time='20200101T000000000000+0000', inputs=None, name='bead', data=None, code=None, meta=None):
    '''entries of a valid archive'''
    entries = {}
    for k, b in (data or {}).items():
        entries['data/' + k] = b
    for k, b in (code or {}).items():
        entries['code/' + k] = b
    m = dict(meta_version=META_VERSION, kind=kind, freeze_time=freeze_time, freeze_name=name, inputs=inputs or {})
    m.update(meta or {})
    entries['meta/bead'] = dumps(m)
    manifest = {k: H(b) for k, b in entries.items()}
    entries['meta/manifest'] = dumps(manifest)
    return entries


def write(path, entries, comment=b'', mode='w', compression=zipfile.ZIP_DEFLATED):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with zipfile.ZipFile(path, mode, compression=compression) as z:
        z.comment = comment
        for k, b in entries.items():
            zi = zipfile.ZipInfo(k)
            z.writestr(zi, b)
    return path


def make(path, **kw):
    e = parts(**kw)
    write(path, e)
    return e


def content(d, big=False):
    r = d.rng
    n = r.choice([0, 0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 1000] + ([70000, 70000, (1 << 20) + 7, (1 << 22) + 1] if big and r.random() < .2 else []))
    k = r.random()
    if k < .1:
        return b':' * n
    if k < .2:
        return (str(n) + ':').encode() * (n % 7)
    if k < .4:
        return r.choice([b'\r\n', b'\n', b'\x00', b'\xff\xfe', 'é\n'.encode(), b'text\n']) * (n % 50)
    return r.randbytes(n)
