'''The commands, run in this process on scratch folders.'''
import contextlib
import io
import stat

from ziplib import *
from bead_cli.main import run as bead_run


class Result:
    def __init__(self, code, exc, out, err):
        self.code, self.exc, self.out, self.err = code, exc, out, err

    @property
    def ok(self):
        return self.exc is None and not self.code

    def __repr__(self):
        return f'<code {self.code} {self.exc!r} out {self.out[-300:]!r} err {self.err[-300:]!r}>'


class Cli:
    def __init__(self, d, config='config'):
        self.d = d
        self.config = os.path.join(d.tmp, config)
        self.cwd = d.tmp
        self.log = []

    def __call__(self, *argv, cwd=None):
        argv = [os.fspath(a) for a in argv]
        out, err = io.StringIO(), io.StringIO()
        code, exc = None, None
        old = os.getcwd()
        os.chdir(cwd or self.cwd)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    code = bead_run(self.config, argv)
                except SystemExit as e:
                    code = e.code
                except Violation:
                    raise
                except Exception as e:
                    exc = e
        finally:
            try:
                os.chdir(old)
            except OSError:
                os.chdir(self.d.tmp)
        r = Result(code, exc, out.getvalue(), err.getvalue())
        self.log.append((argv, repr(r)))
        return r


def snapshot(root, modes=True):
    '''path -> what is there, not following links'''
    out = {}

    def visit(p, rel):
        st = os.lstat(p)
        m = stat.S_IMODE(st.st_mode) if modes else 0
        if stat.S_ISLNK(st.st_mode):
            out[rel] = ('link', os.readlink(p))
        elif stat.S_ISDIR(st.st_mode):
            out[rel] = ('dir', m)
            for f in (sorted(os.listdir(p)) if os.access(p, os.R_OK | os.X_OK) else ()):
                visit(os.path.join(p, f), rel + '/' + f)
        elif stat.S_ISREG(st.st_mode):
            readable = os.access(p, os.R_OK)
            out[rel] = ('file', m, open(p, 'rb').read() if readable else None)
        else:
            out[rel] = ('other', m)
    if os.path.lexists(root):
        visit(str(root), '.')
    return out


def differences(a, b):
    return {k: (a.get(k, '-'), b.get(k, '-')) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def unchanged(before, after, what, ignore=lambda p: False, **data):
    diff = {k: v for k, v in differences(before, after).items() if not ignore(k)}
    expect(not diff, what, diff=diff, **data)


def tree(d, depth=2, names=None, big=False):
    '''random files: relative path -> content, with empty folders as path/ -> None'''
    r = d.rng
    names = names or ['a', 'b', 'f.txt', 'README', 'input', 'output', 'temp', '.hidden', 'é', 'x y', 'data', 'code', 'meta', 'bead', '.bead-meta', 'a.zip', '-x', '%s', 'a\\b', 'ab', "q'"]
    out = {}

    def fill(prefix, level):
        for n in r.sample(names, r.randrange(0, min(5, len(names) + 1))):
            p = prefix + n
            if level and r.random() < .4:
                out[p + '/'] = None
                fill(p + '/', level - 1)
            else:
                out[p] = content(d, big)
    fill('', depth)
    return out


def put(root, files):
    os.makedirs(root, exist_ok=True)
    for p, b in files.items():
        full = os.path.join(root, p)
        if b is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'wb') as f:
                f.write(b)


def only_files(files):
    return {p: b for p, b in files.items() if b is not None}


def read_tree(root):
    return {k[2:]: v[2] for k, v in snapshot(root).items() if v[0] == 'file'}


def ws_meta(root):
    return json.load(open(os.path.join(root, '.bead-meta/bead')))


def make_workspace(root, kind='kind', inputs=None, output=None, code=None):
    '''a workspace written without the code under test'''
    os.makedirs(root)
    for s in ('input', 'output', 'temp', '.bead-meta'):
        os.makedirs(os.path.join(root, s))
    put(os.path.join(root, 'output'), output or {})
    put(root, code or {})
    with open(os.path.join(root, '.bead-meta/bead'), 'w') as f:
        json.dump(dict(kind=kind, inputs=inputs or {}), f)
    os.chmod(os.path.join(root, 'input'), 0o555)
    return root


def stamp(n, tz='+0000'):
    '''n microseconds after 2015-03-01'''
    import datetime
    t = datetime.datetime(2015, 3, 1) + datetime.timedelta(microseconds=n)
    sign = -1 if tz[0] == '-' else 1
    t += sign * datetime.timedelta(hours=int(tz[1:3]), minutes=int(tz[3:5]))
    return t.strftime('%Y%m%dT%H%M%S%f') + tz
