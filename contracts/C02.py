'''C02: an archive validates exactly when it is complete and untampered.'''
from contracts.ziparch import *

ASSUMPTIONS = [
    'zipfile: getinfo/open/namelist agree, the content read has the declared size or reading fails',
    'manifest values are strings (others never equal a hash)',
    'json: loading the manifest either fails or gives an object',
    'contracts proved elsewhere: securehash.file (C01), zipopener (C15), timestamps (C11)',
]
TM = 'bead.tech.timestamp'
KEYS = ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs')


class Arch(ZipModel):
    def __init__(w, v):
        super().__init__(v)
        if not hasattr(v, 'c02'):
            v.c02 = True
            v.ANY = Abs('Json')
            v.METAD = DictOf(STR, v.ANY)
            v.MANIF = DictOf(STR, STR)
            v.wellformed = z3.Function('wellformed_time', v.ANY.sort, BOOL.sort)
            v.instant = z3.Function('instant_denoted', v.ANY.sort, INSTANT.sort)
        I = v.I
        w.meta = v.METAD.unwrap(I, v.const('meta', v.METAD))
        w.manifest = v.MANIF.unwrap(I, v.const('manifest', v.MANIF))
        w.manifest_loads = v.const('manifest_loads', BOOL).t
        v.stub(ZC + '.zipfile', lambda I, f, a, k: w.zip)
        v.stub('bead.tech.persistence:zip_load', w.zip_load)
        securehash_file_stub(v)
        v.stub(SH + ':bytes', lambda I, f, a, k: STR.wrap(I, H(v, v.t(a[0], BYTES))))
        w.now = v.t(v.const('now', INSTANT), INSTANT)
        stamp_now = v.const('stamp_of_now', v.ANY)
        v.assume(And(v.wellformed(stamp_now.t), v.instant(stamp_now.t) == w.now))
        v.stub(TM + ':timestamp', lambda I, f, a, k: stamp_now)
        v.ext('datetime.datetime.now', lambda I, a, k: INSTANT.wrap(I, w.now))

        def read_time(I, f, a, k):
            x = v.t(a[0], v.ANY)
            if I.branch(v.wellformed(x), 'is a timestamp'):
                return INSTANT.wrap(I, v.instant(x))
            I.raise_(ValueError)
        v.stub(TM + ':time_from_timestamp', read_time)
        w.archive = v.new(ZC, archive_filename='a.zip', box_name='', name='a', _meta=I.alloc(HSym(v.METAD, w.meta)), _content_id=None)

    def zip_load(w, I, f, a, k):
        v = w.v
        if a[1] != 'meta/manifest':
            raise Unsupported('another entry is read')
        if I.branch(w.manifest_loads, 'the manifest is readable'):
            return I.alloc(HSym(v.MANIF, w.manifest))
        I.raise_(ValueError)


def covered(v, name):
    return Or(z3.PrefixOf(lit('data/'), name), z3.PrefixOf(lit('code/'), name))


def validate_unit(v):
    w = Arch(v)
    D, M = v.METAD, v.MANIF
    o = v.attempt(lambda: v.method(w.archive, 'validate'))
    freeze = D.get(w.meta, lit('freeze_time'))
    clauses = dict(
        meta=And(*[D.has(w.meta, lit(k)) for k in KEYS]),
        time=And(v.wellformed(freeze), INSTANT.le(v.instant(freeze), w.now)) if hasattr(INSTANT, 'le') else And(v.wellformed(freeze), v.instant(freeze) <= w.now),
        manifest=w.manifest_loads,
        listed=v.forall(STR, lambda s: Implies(And(w.has(s), covered(v, s)), M.has(w.manifest, s))),
        same=v.forall(STR, lambda s: Implies(M.has(w.manifest, s), And(w.has(s), Not(w.broken(s)), M.get(w.manifest, s) == H(v, w.content(s))))))
    if o.ok:
        v.check('accepted only with all mandatory metadata', clauses['meta'], keep=False)
        v.check('accepted only when frozen not later than now', clauses['time'], keep=False)
        v.check('accepted only when every code and data entry is in the manifest', clauses['listed'], keep=False)
        v.check('accepted only when every entry of the manifest is there with its content', clauses['same'], keep=False)
        v.check('accepted only with a manifest', clauses['manifest'], keep=False)
    else:
        v.check('refused only when incomplete or tampered', Not(And(*clauses.values())), keep=False)


UNITS = [Unit('ZipArchive.validate', validate_unit)]
