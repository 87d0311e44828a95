'''Hashing, streams and zip archives: contracts of the library objects that are used.'''
import z3
from pyded.unit import *
from pyded.terms import *
from pyded.values import *
from pyded.interp import ExtClass

And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies
SH = 'bead.tech.securehash'
ZA = 'bead.ziparchive'
ZC = ZA + ':ZipArchive'

cat = lambda *ts: z3.Concat(*ts)
lit = z3.StringVal
dec = z3.IntToStr


def framed(b):
    n = z3.Length(b)
    return cat(dec(n), lit(':'), b, lit(';'), dec(n))


def sha512(v):
    return z3.Function('SHA512', BYTES.sort, STR.sort)


def H(v, b):
    '''content hash of bytes'''
    return sha512(v)(framed(b))


def hash_model(v):
    '''hashlib.sha512(): the digest is a function of the concatenation of what it is updated with'''
    def update(I, o, a, k):
        I.set_field(o, 'fed', BYTES.wrap(I, cat(v.t(I.get_field(o, 'fed'), BYTES), v.t(a[0], BYTES))))
        return None

    cls = ExtClass('sha512', dict(
        update=update,
        hexdigest=lambda I, o, a, k: STR.wrap(I, sha512(v)(v.t(I.get_field(o, 'fed'), BYTES)))))

    def new(I, a, k):
        fed = v.t(a[0], BYTES) if a else lit('')
        return I.alloc(HInst(cls, {'fed': BYTES.wrap(I, fed)}))
    v.ext('hashlib.sha512', new)
    v.ext('hashlib.new', lambda I, a, k: new(I, a[1:], k) if a[0] == 'sha512' else I.raise_(Exception, 'other hash'))


def stream_class(v, short_reads=True):
    '''A readable binary stream: reads return a part of what remains, at least one byte when there is any.'''
    def read(I, o, a, k):
        v.check('the stream is open when it is read', v.truth(I.get_field(o, 'open')), keep=False)
        rest = v.t(I.get_field(o, 'rest'), BYTES)
        n = a[0] if a else k.get('size', k.get('n', -1))
        if n is None:
            n = -1
        n = v.t(n, INT)
        block = v.t(v.const('block', BYTES), BYTES)
        after = v.t(v.const('rest', BYTES), BYTES)
        v.assume(rest == cat(block, after))
        v.assume(Implies(n >= 0, z3.Length(block) <= n))
        v.assume(Implies(n < 0, z3.Length(after) == 0))
        v.assume(Implies(And(n != 0, z3.Length(rest) > 0), z3.Length(block) > 0))
        I.set_field(o, 'rest', BYTES.wrap(I, after))
        return BYTES.wrap(I, block)

    def close(I, o, a, k):
        I.set_field(o, 'open', False)
        return None
    return ExtClass('stream', dict(read=read, close=close, __enter__=lambda I, o, a, k: o,
                                   __exit__=lambda I, o, a, k: close(I, o, a, k)),
                    attrs=dict(closed=lambda I, o: not v.items(I.get_field(o, 'open')) if False else _not(I, I.get_field(o, 'open'))))


def _not(I, x):
    return (not x) if isinstance(x, bool) else BOOL.wrap(I, Not(x.t))


def stream(v, content, cls=None):
    return v.I.alloc(HInst(cls or stream_class(v), {'rest': BYTES.wrap(v.I, content), 'open': True}))


def securehash_file_stub(v):
    '''contract of securehash.file (C01)'''
    def stub(I, f, a, k):
        s = a[0]
        size = a[1] if len(a) > 1 else k['file_size']
        rest = v.t(I.get_field(s, 'rest'), BYTES)
        v.check('precondition of securehash.file: an open stream', v.truth(I.get_field(s, 'open')), keep=False)
        I.set_field(s, 'open', False)
        I.set_field(s, 'rest', BYTES.wrap(I, lit('')))
        if I.branch(z3.Length(rest) == v.t(size, INT), 'size as declared'):
            return STR.wrap(I, H(v, rest))
        I.raise_(AssertionError)
    v.stub(SH + ':file', stub)


class ZipModel:
    '''An arbitrary readable zip file.'''
    def __init__(w, v):
        w.v = v
        I = v.I
        if not hasattr(v, 'zipmodel'):
            v.zipmodel = True
            v.NAMES = ListOf(STR)
            v.zcontent = z3.Function('content_of_entry', STR.sort, BYTES.sort)
            v.zbroken = z3.Function('entry_is_broken', STR.sort, BOOL.sort)
            v.zstream = stream_class(v)
            v.zinfo = ExtClass('ZipInfo', {}, dict(
                file_size=lambda I, o: INT.wrap(I, z3.Length(v.zcontent(v.t(I.get_field(o, 'filename'), STR)))),
                is_dir=None))
            v.zcls = ExtClass('ZipFile', {})
        w.content, w.broken = v.zcontent, v.zbroken
        w.names = v.NAMES.unwrap(I, v.const('entry_names', v.NAMES))
        v.zcls.methods.update(
            namelist=lambda I, o, a, k: I.alloc(HSym(v.NAMES, w.names)),
            getinfo=w.getinfo, open=w.open, read=w.read, __enter__=lambda I, o, a, k: o,
            __exit__=lambda I, o, a, k: None)
        w.zip = I.alloc(HInst(v.zcls, {}))
        w.opened = []

    def has(w, name):
        return w.v.NAMES.has(w.names, name)

    def name_of(w, I, x):
        if isinstance(x, Obj):
            return w.v.t(I.get_field(x, 'filename'), STR)
        return w.v.t(x, STR)

    def getinfo(w, I, o, a, k):
        n = w.v.t(a[0], STR)
        if I.branch(w.has(n), 'entry exists'):
            return I.alloc(HInst(w.v.zinfo, {'filename': STR.wrap(I, n)}))
        I.raise_(KeyError)

    def entry(w, I, x):
        n = w.name_of(I, x)
        if not I.branch(w.has(n), 'entry exists'):
            I.raise_(KeyError)
        if I.branch(w.broken(n), 'entry is broken'):
            I.raise_(OSError)
        return w.content(n)

    def open(w, I, o, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode != 'r':
            raise Unsupported('a zip opened for reading is written')
        return stream(w.v, w.entry(I, a[0]), w.v.zstream)

    def read(w, I, o, a, k):
        return BYTES.wrap(I, w.entry(I, a[0]))
