'''C01: content hash.'''
from .ziparch import *

ASSUMPTIONS = [
    'hashlib.sha512: the digest depends only on the concatenation of the updates',
    'streams: read(n) returns a non-empty part of at most n bytes of what remains, or nothing at the end',
    'zipfile: the file_size of an entry and the stream opened for it are those of the entry with the given name',
    'sizes are not negative',
]


def file_unit(v):
    hash_model(v)
    content = v.t(v.const('content', BYTES), BYTES)
    size = v.const('size', INT)
    v.assume(size.t >= 0)
    f = stream(v, content)
    I = v.I
    start = cat(dec(size.t), lit(':'))

    def is_(field):
        return lambda k, x: isinstance(x, Obj) and isinstance(I.h(x), HInst) and field in I.h(x).fields

    def inv(L):
        h = L.find(is_('fed'), 'hash')
        s = L.find(is_('rest'), 'stream')
        rest = v.t(I.get_field(s, 'rest'), BYTES)
        fed = v.t(I.get_field(h, 'fed'), BYTES)
        pending = L.tested(lambda x: I.type_of(x) is BYTES)     # read ahead, not hashed yet
        for x in pending:
            rest = cat(v.t(x, BYTES), rest)
        out = [('what is hashed and what remains is the content', cat(fed, rest) == cat(start, content)),
               ('the prefix is hashed', z3.Length(fed) >= z3.Length(start)),
               ('the stream is open', v.truth(I.get_field(s, 'open')))]
        if pending:
            out.append(('the end of the stream is read only once', Implies(z3.Length(v.t(pending[0], BYTES)) == 0, z3.Length(rest) == 0)))
        if any(counter(x) for f in L.frames() for x in I.h(f.env).fields.values()):
            counters = L.roles('count', ['bytes_read'], counter)
            out.append(('bytes are counted', And(v.t(counters[0], INT) + z3.Length(rest) == z3.Length(content))))
        return out

    def counter(x):
        return isinstance(x, Sym) and x.ty is INT and x is not size and not x.t.eq(size.t) \
            or isinstance(x, int) and not isinstance(x, bool) and x == 0
    v.loop(SH + ':*', inv)
    o = v.attempt(lambda: v.body(SH + ':file', f, size))
    n = z3.Length(content)
    if o.ok:
        v.check('a hash is made only when the size is as declared', n == size.t)
        v.check('hash of the framed content', v.t(o.value, STR) == H(v, content))
        v.check('the stream is closed', Not(v.truth(I.get_field(f, 'open'))))
    else:
        v.check('refused only when the size is not as declared', n != size.t)


def bytes_unit(v):
    hash_model(v)
    content = v.const('content', BYTES)
    o = v.attempt(lambda: v.body(SH + ':bytes', content))
    v.check('no error', z3.BoolVal(o.ok))
    if o.ok:
        v.check('hash of the framed content', v.t(o.value, STR) == H(v, content.t))


def frame_unit(v):
    '''different contents are framed differently (what is hashed as a function from positions to bytes)'''
    I = z3.IntSort()
    fn = lambda n: v.I.ctx.fresh_fun(n, I, I)
    n, m, la, lb = (v.const(k, INT).t for k in ('n', 'm', 'len_dec_n', 'len_dec_m'))
    a, b, x, y, fx, fy = (fn(k) for k in ('dec_n', 'dec_m', 'x', 'y', 'framed_x', 'framed_y'))
    colon, semicolon = ord(':'), ord(';')
    v.assume(And(n >= 0, m >= 0, la > 0, lb > 0))
    every = lambda k, f: v.forall(INT, lambda i: Implies(And(0 <= i, i < k), f(i)))

    def framed_as(f, n, d, ld, x):
        v.assume(every(ld, lambda i: And(f(i) == d(i), d(i) != colon)))     # digits
        v.assume(f(ld) == colon)
        v.assume(v.forall(INT, lambda i: Implies(And(0 <= i, i < n), x(i) == f(ld + 1 + i)), patterns=lambda i: [x(i)]))
        v.assume(f(ld + 1 + n) == semicolon)
        v.assume(every(ld, lambda i: f(ld + 2 + n + i) == d(i)))
    framed_as(fx, n, a, la, x)
    framed_as(fy, m, b, lb, y)
    # different numbers have different decimals
    v.assume(Implies(And(la == lb, every(la, lambda i: a(i) == b(i))), n == m))
    v.assume(v.forall(INT, lambda i: fx(i) == fy(i), patterns=lambda i: [fx(i)]))
    v.assume(v.forall(INT, lambda i: fx(i) == fy(i), patterns=lambda i: [fy(i)]))
    v.check('the decimal lengths have the same number of digits', la == lb)
    v.check('the lengths are the same', n == m)
    v.check('the contents are the same', every(n, lambda i: x(i) == y(i)))


def content_id_unit(v):
    I = v.I
    content = v.t(v.const('manifest_bytes', BYTES), BYTES)
    name_of = {}

    def info(I, o, a, k):
        if a[0] != 'meta/manifest':
            raise Unsupported('another entry of the archive is used')
        return I.alloc(HInst(ExtClass('ZipInfo', {}, dict(file_size=lambda I, o: INT.wrap(I, z3.Length(content)),
                                                          filename=lambda I, o: 'meta/manifest')), {}))

    def open_(I, o, a, k):
        if not (a[0] == 'meta/manifest' or isinstance(a[0], Obj)):
            raise Unsupported('another entry of the archive is used')
        return stream(v, content)

    def read(I, o, a, k):
        if not (a[0] == 'meta/manifest' or isinstance(a[0], Obj)):
            raise Unsupported('another entry of the archive is used')
        return BYTES.wrap(I, content)
    z = I.alloc(HInst(ExtClass('ZipFile', dict(getinfo=info, open=open_, read=read)), {}))
    v.stub(ZC + '.zipfile', lambda I, f, a, k: z)
    securehash_file_stub(v)
    v.stub(SH + ':bytes', lambda I, f, a, k: STR.wrap(I, H(v, v.t(a[0], BYTES))))
    meta = v.dict({'meta_version': 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'})
    a = v.new(ZC, archive_filename='a.zip', box_name='', name='a', _meta=meta, _content_id=None)
    r = v.getattr(a, 'content_id')
    v.check('content id is the hash of the manifest', v.t(r, STR) == H(v, content))
    r = v.getattr(a, 'content_id')
    v.check('asked again it is the same', v.t(r, STR) == H(v, content))


UNITS = [
    Unit('securehash.file', file_unit),
    Unit('securehash.bytes', bytes_unit),
    Unit('framing is injective', frame_unit),
    Unit('ZipArchive.content_id', content_id_unit),
]
