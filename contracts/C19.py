'''C19: a web saved to file loads back identical.'''
import z3
from z3 import And, If, Implies, Not, Or

from pyded.pybuiltins import to_list
from pyded.terms import *
from pyded.unit import Unit
from pyded.values import *
from pyded.interp import ExtClass
from contracts.web import types, G, S, DM

IO = 'bead_cli.web.io'
CM = 'bead_cli.web.commands'
ASSUMPTIONS = [
    'json: dump writes texts, numbers, lists and dictionaries with text keys, other values are given to default and what it returns is written in their place; '
    'load gives equal texts, lists in the same order, and for every dictionary (innermost first) what object_hook returns for it',
    'json texts are ASCII (ensure_ascii is not turned off), so they survive text files of any encoding; they are read from a file as they were written',
    'attrs classes: the constructor calls the converters and stores the arguments, asdict(recurse=False) gives the fields by their names',
]
NOT_COVERED = ['a file that is changed, truncated or not writable']


class Json:
    '''json.dump and json.load, by their contract, for an arbitrary bead'''
    def __init__(w, v):
        w.v, I = v, v.I
        t = w.t = types(v)
        # values here are objects of the classes, not terms
        for c in (DM + ':Ref', DM + ':Dummy', 'bead.meta:InputSpec'):
            I.records.pop(c, None)
        w.written, w.opened, w.texts = [], [], []
        v.json = w      # global names of the code keep what they were given first
        w.fcls = ExtClass('TextFile', {})
        w.fcls.methods.update(__enter__=lambda I, o, a, k: o, __exit__=lambda I, o, a, k: I.set_field(o, 'open', False), close=lambda I, o, a, k: I.set_field(o, 'open', False),
                              write=lambda I, o, a, k: v.json.write(o, a[0]), read=lambda I, o, a, k: v.json.read(o, a))

        def open_(I, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            f = I.alloc(HInst(w.fcls, {'name': a[0], 'mode': mode, 'open': True}))
            v.json.opened.append(f)
            return f
        v.ext('builtins.open', open_)
        v.ext('json.dump', lambda I, a, k: v.json.dump(a[0], a[1], a[2:], k))
        v.ext('json.load', lambda I, a, k: v.json.load(a[0], a[1:], k))
        v.ext('json.dumps', lambda I, a, k: v.json.dumps(a[0], a[1:], k))
        v.ext('json.loads', lambda I, a, k: v.json.loads(a[0], a[1:], k))

    def dumps(w, value, rest, k):
        text = w.v.const('json_text', STR)
        w.options(rest, k)
        w.texts.append((text.t, value))
        return text

    def write(w, f, text):
        v = w.v
        v.check('to a file open for writing', z3.BoolVal(v.I.get_field(f, 'mode') in ('w', 'wt', 'x') and v.I.get_field(f, 'open') is True), keep=False)
        (t, value), = w.texts
        v.check('the text that is written is the json', v.t(text, STR) == t, keep=False)
        w.written.append((value, v.I.get_field(f, 'name')))
        return v.const('length', INT)

    def read(w, f, a):
        v = w.v
        w.source = f
        v.check('all of the text is read', z3.BoolVal(not a), keep=False)
        v.check('from the open file', z3.BoolVal(v.I.get_field(f, 'mode') in ('r', 'rt') and v.I.get_field(f, 'open') is True), keep=False)
        w.text_read = v.const('text_read', STR)
        return w.text_read

    def loads(w, text, rest, k):
        w.v.check('the text that is loaded is that of the file', w.v.t(text, STR) == w.v.t(w.text_read, STR), keep=False)
        return w.load(w.source, rest, k, text=True)

    def dump(w, value, f, rest, k):
        v = w.v
        w.options(rest, k)
        v.check('to a file open for writing', z3.BoolVal(v.I.get_field(f, 'mode') in ('w', 'wt', 'x') and v.I.get_field(f, 'open') is True), keep=False)
        w.written.append((value, v.I.get_field(f, 'name')))

    def options(w, rest, k):
        v = w.v
        k = dict(k)
        w.default = k.pop('default', None)
        for n in ('sort_keys', 'indent', 'separators'):
            k.pop(n, None)
        v.check('json is written as ASCII with no other changes', z3.BoolVal(not rest and k.pop('ensure_ascii', True) is True and not k), keep=False)

    def text(w, x):
        return isinstance(x, str) or isinstance(x, Sym) and x.ty is STR

    def image(w, x):
        '''what is loaded for a value that was dumped'''
        v, I = w.v, w.v.I
        if x is None or isinstance(x, bool) or w.text(x) or isinstance(x, int):
            return x
        if isinstance(x, Sym) and isinstance(x.ty, ListTy):
            return w.element_wise(x)
        if isinstance(x, Obj) and I.h(x).kind == 'list':
            h = I.h(x)
            if isinstance(h, HSym):
                return w.element_wise(x)
            return v.list(*[w.image(y) for y in h.items])
        items = I.dict_items(x) if isinstance(x, Obj) and I.h(x).kind == 'dict' else None
        if items is None:
            d = w.default
            if d is None:
                I.raise_(TypeError)
            return w.image(I.call(d, [x], {}))
        for n in items:
            if not isinstance(n, str):
                raise Unsupported('json of a dictionary with keys that are not texts')
        out = v.dict({n: w.image(y) for n, y in items.items()})
        return out if w.hook is None else I.call(w.hook, [out], {})

    def element_wise(w, x):
        '''a list of any length: each element is loaded as an equal one'''
        v = w.v
        t = w.t
        ty = x.ty if isinstance(x, Sym) else v.I.h(x).ty
        if ty.elem is t.INPUT:
            w.one_input()
            return x
        raise Unsupported(f'json of {ty}')

    def one_input(w):
        v = w.v
        made = v.attempt(lambda: v.I.call(v.get('bead.meta:InputSpec'), [], {n: v.const('input_' + n, STR) for n in w.t.INPUT.fields}))
        if not made.ok:
            return      # there is no such input (its name is refused)
        a = made.value
        b = w.image(a)
        v.check('an input is loaded as an input', z3.BoolVal(w.is_a(b, 'bead.meta:InputSpec')), keep=False)
        for n in w.t.INPUT.fields:
            v.check(f'{n} of an input', w.eq(v.getattr(a, n), v.getattr(b, n)), keep=False)

    def is_a(w, o, path):
        h = w.v.I.h(o) if isinstance(o, Obj) else None
        return isinstance(h, HInst) and h.cls is w.v.get(path)

    def eq(w, a, b):
        return w.v.t(a, STR) == w.v.t(b, STR) if w.text(a) and w.text(b) else z3.BoolVal(a is b)

    def one_bead(w):
        v, t = w.v, w.t
        fields = {n: v.const(n, ty) for n, ty in t.DUMMY.fields.items()}
        a = v.I.call(v.get(DM + ':Dummy'), [], fields)
        b = w.image(a)
        v.check('a bead is loaded as a bead', z3.BoolVal(w.is_a(b, DM + ':Dummy')), keep=False)
        for n, ty in t.DUMMY.fields.items():
            got = v.getattr(b, n)
            v.check(f'{n} of a bead', v.t(got, ty) == v.t(fields[n], ty), keep=False)

    def one_ref(w):
        v = w.v
        a = v.new(DM + ':Ref', name=v.const('ref_name', STR), content_id=v.const('ref_content_id', STR))
        b = w.image(a)
        v.check('a reference is loaded as a reference', z3.BoolVal(w.is_a(b, DM + ':Ref')), keep=False)
        for n in ('name', 'content_id'):
            v.check(f'{n} of a reference', w.eq(v.getattr(a, n), v.getattr(b, n)), keep=False)

    def load(w, f, rest, k, text=False):
        v = w.v
        k = dict(k)
        w.hook = k.pop('object_hook', None)
        v.check('json is read with no other changes', z3.BoolVal(not rest and not k), keep=False)
        v.check('from the open file', z3.BoolVal(v.I.get_field(f, 'mode') in ('r', 'rt') and (text or v.I.get_field(f, 'open') is True)), keep=False)
        (value, name), = w.written
        v.check('the file that is read is the one that was written', v.t(v.I.get_field(f, 'name'), STR) == v.t(name, STR), keep=False)
        w.one_bead()
        w.one_ref()
        w.loaded = v.const('loaded', w.t.DUMMIES)
        return w.loaded


def file_unit(v):
    w = Json(v)
    name = v.const('file_name', STR)
    beads = v.const('beads', w.t.DUMMIES)
    r = v.attempt(lambda: v.call(IO + ':write_beads', name, beads))
    v.check('it can be written', z3.BoolVal(r.ok), keep=False)
    if not r.ok:
        return
    v.check('the beads are written once', z3.BoolVal(len(w.written) == 1), keep=False)
    v.check('all of them in order', v.t(w.written[0][0], w.t.DUMMIES) == v.t(beads, w.t.DUMMIES), keep=False)
    v.check('to the file', v.t(w.written[0][1], STR) == v.t(name, STR), keep=False)
    v.check('it is complete', z3.BoolVal(all(v.I.get_field(f, 'open') is False for f in w.opened)), keep=False)
    w.opened.clear()
    r = v.attempt(lambda: v.call(IO + ':read_beads', name))
    v.check('it can be read', z3.BoolVal(r.ok), keep=False)
    if r.ok:
        v.check('what was loaded is given', v.t(r.value, w.t.DUMMIES) == v.t(w.loaded, w.t.DUMMIES), keep=False)


def same_list(v, t, A, B):
    n = t.DUMMIES.n
    at = t.DUMMIES.get
    return [('as many beads', n(A) == n(B))] + [
        (f'{f} of the beads in their order', v.forall(INT, lambda i: Implies(And(0 <= i, i < n(A)), t.DUMMY.f(f, at(A, i)) == t.DUMMY.f(f, at(B, i)))))
        for f in t.DUMMY.fields]


def commands_unit(v):
    I = v.I
    t = types(v)
    name = v.const('file_name', STR)
    done = []
    v.stub(IO + ':write_beads', lambda I, f, a, k: done.append((a[0], a[1])))
    read = v.const('read', t.DUMMIES)

    def read_beads(I, f, a, k):
        done.append(a[0])
        return read
    v.stub(IO + ':read_beads', read_beads)
    v.ext('pathlib.Path', lambda I, a, k: a[0])
    sketch = t.SKETCH.wrap(I, v.const('sketch', t.SKETCH).t) if hasattr(v.const('s', t.SKETCH), 't') else v.const('sketch', t.SKETCH)
    made = []

    def from_beads(I, f, a, k):
        made.append(a[-1])
        return sketch
    v.stub(S + ':Sketch.from_beads', from_beads)
    save = v.I.call(v.get(CM + ':Save'), [v.list('rest', name)], {})
    out = v.I.call(save, [sketch], {})
    v.check('save writes once', z3.BoolVal(len(done) == 1), keep=False)
    v.check('save writes all beads of the web', v.t(done[0][1], t.DUMMIES) == v.t(v.getattr(sketch, 'beads'), t.DUMMIES), keep=False)
    v.check('save writes the file', v.t(done[0][0], STR) == v.t(name, STR), keep=False)
    v.check('save keeps the web', v.t(out, t.SKETCH) == v.t(sketch, t.SKETCH), keep=False)
    done.clear()
    load = v.I.call(v.get(CM + ':Load'), [v.list('rest', name)], {})
    out = v.I.call(load, [v.const('other', t.SKETCH)], {})
    v.check('load reads the file', v.t(done[0], STR) == v.t(name, STR), keep=False)
    v.check('load makes one web', z3.BoolVal(len(made) == 1), keep=False)
    B = v.t(made[0], t.DUMMIES)
    for label, f in same_list(v, t, B, v.t(read, t.DUMMIES)):
        v.check(f'load: {label}', f, keep=False)
    v.check('load gives the web', v.t(out, t.SKETCH) == v.t(sketch, t.SKETCH), keep=False)
    done.clear()
    v.method(sketch, 'to_file', name)
    v.check('to_file writes all beads', v.t(done[0][1], t.DUMMIES) == v.t(v.getattr(sketch, 'beads'), t.DUMMIES), keep=False)
    v.check('to_file writes the file', v.t(done[0][0], STR) == v.t(name, STR), keep=False)
    made.clear()
    v.method(v.get(S + ':Sketch'), 'from_file', name)
    B = v.t(made[0], t.DUMMIES)
    for label, f in same_list(v, t, B, v.t(read, t.DUMMIES)):
        v.check(f'from_file: {label}', f, keep=False)


UNITS = [
    Unit('commands', commands_unit, mode='abstract'),
    Unit('beads of a file', file_unit, mode='abstract'),
]
