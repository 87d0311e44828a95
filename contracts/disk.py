'''
What files hold, and what is left when the process dies.

Every effect on the disk is a step: a process can die after any of them, what it
had not handed to the disk is lost. `stable` is called after each step.
'''
from contracts.fsmodel import *


class Disk(Paths):
    def __init__(w, v, stable=lambda where: None, fails=True):
        super().__init__(v)
        I, P = v.I, v.PATH
        w.fails_, w.stable = fails, stable
        if not hasattr(v, 'FILES'):
            v.FILES = DictOf(P, STR)
        w.files = I.alloc(HSym(v.FILES, v.t(v.const('files', v.FILES), v.FILES)))
        exists = lambda I, p: BOOL.wrap(I, v.FILES.has(w.now(), p))
        for n in ('os.path.exists', 'os.path.lexists', 'os.path.isfile'):
            v.ext(n, lambda I, a, k: exists(I, w.t(a[0])))
        for n in ('os.path.realpath', 'os.path.abspath'):
            v.ext(n, lambda I, a, k: a[0])
        v.ext('os.getpid', lambda I, a, k: v.const('pid', INT))
        v.ext('os.path.dirname', lambda I, a, k: w.wrap(w.parent(w.t(a[0]))))
        v.ext('os.path.basename', lambda I, a, k: STR.wrap(I, w.pname(w.t(a[0]))))
        v.ext('os.fsync', lambda I, a, k: w.fails('fsync'))
        for n in ('shutil.copymode', 'os.chmod', 'shutil.copystat'):
            v.ext(n, lambda I, a, k: w.fails('mode'))
        for n in ('os.unlink', 'os.remove'):
            v.ext(n, lambda I, a, k: w.remove(w.t(a[0]), False))
        for n in ('os.rename', 'os.replace', 'shutil.move'):
            v.ext(n, lambda I, a, k: w.move(w.t(a[0]), w.t(a[1])))
        for n in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2'):
            v.ext(n, lambda I, a, k: w.copy(w.t(a[0]), w.t(a[1])))
        v.ext('builtins.open', lambda I, a, k: w.open(w.t(a[0]), a[1] if len(a) > 1 else k.get('mode', 'r')))
        same = lambda I, s, a, k: s
        ex = lambda I, s, a, k: exists(I, s.t)
        P.methods.update(
            exists=ex, is_file=ex, resolve=same, absolute=same,
            unlink=lambda I, s, a, k: w.remove(s.t, k.get('missing_ok') is True),
            rename=lambda I, s, a, k: w.move(s.t, w.t(a[0])), replace=lambda I, s, a, k: w.move(s.t, w.t(a[0])),
            open=lambda I, s, a, k: w.open(s.t, a[0] if a else k.get('mode', 'r')),
            write_text=lambda I, s, a, k: w.write_all(s.t, a[0]),
            read_text=lambda I, s, a, k: w.read(s.t),
            with_suffix=lambda I, s, a, k: w.derived('with_suffix', s.t, a[0]), with_name=lambda I, s, a, k: w.derived('with_name', s.t, a[0]))

    def temp_name(w, text):
        '''a name that is made of another one is of another file'''
        v = w.v
        t = v.t(text, STR)

        def parts(t):
            if t.decl().name() == World.strings.f_cat.name():
                return parts(t.arg(0)) + parts(t.arg(1))
            return [t]
        ps = parts(t)
        if len(ps) > 1:
            lits = {x.get_id() for s, x in World.strings.lits.items() if s}
            for p in ps:
                if p.get_id() not in lits and any(q.get_id() in lits for q in ps):
                    v.assume(w.path_of(t) != (p.arg(0) if p.decl().name() == w.as_posix.name() else w.path_of(p)))

    def t(w, x):
        if isinstance(x, Sym) and x.ty is STR:
            w.temp_name(x)
        return super().t(x)

    def derived(w, name, p, x):
        v = w.v
        q = z3.Function(name, v.PATH.sort, STR.sort, v.PATH.sort)(p, v.t(x, STR))
        v.assume(q != p)
        return w.wrap(q)

    def now(w):
        return w.v.t(w.files, w.v.FILES)

    def has(w, p, files=None):
        return w.v.FILES.has(w.now() if files is None else files, p)

    def get(w, p, files=None):
        return w.v.FILES.get(w.now() if files is None else files, p)

    def fails(w, where):
        if w.fails_ and w.v.choose(2, where + ' fails') == 1:
            w.v.I.raise_(OSError)

    def garbage(w):
        return STR.wrap(w.v.I, w.v.t(w.v.const('unfinished', STR), STR))

    def put(w, p, text, where):
        w.v.I.mutate(w.files, 'store', w.wrap(p), text)
        w.stable(where)

    def remove(w, p, missing_ok):
        I = w.v.I
        if not I.branch(w.has(p), 'there is a file to remove'):
            if missing_ok:
                return
            I.raise_(FileNotFoundError)
        w.fails('removal')
        I.mutate(w.files, 'delete', w.wrap(p))
        w.stable('removal')

    def move(w, p, q):
        I = w.v.I
        if not I.branch(w.has(p), 'there is a file to move'):
            I.raise_(FileNotFoundError)
        w.fails('rename')
        text = STR.wrap(I, w.get(p))
        I.mutate(w.files, 'delete', w.wrap(p))
        I.mutate(w.files, 'store', w.wrap(q), text)
        w.stable('rename')

    def copy(w, p, q):
        I = w.v.I
        if not I.branch(w.has(p), 'there is a file to copy'):
            I.raise_(FileNotFoundError)
        text = STR.wrap(I, w.get(p))
        w.put(q, w.garbage(), 'start of copying')
        w.fails('copying')
        w.put(q, text, 'copying')

    def write_all(w, p, text):
        w.put(p, w.garbage(), 'start of writing')
        w.fails('writing')
        w.put(p, text, 'writing')

    def read(w, p):
        I = w.v.I
        if not I.branch(w.has(p), 'there is a file to read'):
            I.raise_(FileNotFoundError)
        return STR.wrap(I, w.get(p))

    def open(w, p, mode):
        v, I = w.v, w.v.I
        if not isinstance(mode, str):
            raise Unsupported('open mode')
        if 'r' in mode:
            text = w.read(p)
            return I.alloc(HInst(ExtClass('reader', dict(__enter__=lambda I, o, a, k: o, __exit__=lambda I, o, a, k: None, close=lambda I, o, a, k: None,
                                                         read=lambda I, o, a, k: text)), {}))
        if 'a' in mode or '+' in mode:
            raise Unsupported('open mode')
        w.fails('open')
        if 'x' in mode and I.branch(w.has(p), 'exists'):
            I.raise_(FileExistsError)
        state = dict(pending=None, broken=False, closed=False)
        w.put(p, w.garbage(), 'truncation')

        def write(I, o, a, k):
            w.put(p, w.garbage(), 'a part is written')
            if w.fails_ and v.choose(2, 'writing fails') == 1:
                state['broken'] = True
                I.raise_(OSError)
            t = v.t(a[0], STR)
            state['pending'] = t if state['pending'] is None else World.strings.f_cat(state['pending'], t)

        def close(I, o, a, k):
            if state['closed']:
                return
            state['closed'] = True
            if state['broken'] or (w.fails_ and v.choose(2, 'closing fails') == 1):
                w.put(p, w.garbage(), 'closing')
                if not state['broken']:
                    I.raise_(OSError)
                return
            w.put(p, STR.wrap(I, state['pending'] if state['pending'] is not None else v.t('', STR)), 'closing')
        return I.alloc(HInst(ExtClass('writer', dict(__enter__=lambda I, o, a, k: o, __exit__=close, close=close, write=write, flush=lambda I, o, a, k: w.put(p, w.garbage(), 'flush'),
                                                     fileno=lambda I, o, a, k: 3)), {}))
