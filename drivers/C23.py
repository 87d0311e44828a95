import resource
import signal
import socket
import stat as _stat
from unittest import mock

from clilib import *
import bead.box
from bead.box import Box
from bead.box_index import BoxIndex
from bead.workspace import Workspace
import bead.workspace

STAMP = '20150301T120000000000+0000'


def workspace(d, name='ws'):
    root = os.path.join(d.tmp, name)
    make_workspace(root)
    os.chmod(os.path.join(root, 'input'), 0o755)
    for sub in ('', 'output/'):
        put(root, {sub + p: b for p, b in tree(d, 1, ['a', 'b', 'c', 'd d', 'é', 'x.zip']).items()})
    return root


def break_it(d, root):
    '''make saving fail (somewhere)'''
    r = d.rng
    where = os.path.join(root, r.choice(['', 'output', 'zz', 'output/zz']))
    os.makedirs(where, exist_ok=True)
    p = os.path.join(where, r.choice(['aaa', 'm', 'zzz']))
    k = r.randrange(9)
    meta = os.path.join(root, '.bead-meta/bead')
    if k == 0:
        put(where, {os.path.basename(p): b'secret'})
        os.chmod(p, 0)
    elif k == 1:
        os.mkfifo(p)
    elif k == 2:
        os.symlink('nowhere', p)
    elif k == 3:
        os.symlink('.', p)          # endless
    elif k == 4:
        put(where, {os.path.basename(p): b'old'})
        os.utime(p, (0, 0))         # zip has no time before 1980
    elif k == 5:
        os.makedirs(p)
        os.chmod(p, 0)
    elif k == 6:
        put(root, {'.bead-meta/bead': r.choice([b'', b'{', b'{}', b'[]', b'{"kind": 1}', b'{"kind": "k", "inputs": {"a": {}}}',
                                                 b'{"kind": "k", "inputs": {"a__b": {"kind": "k", "content_id": "c", "freeze_time": "t"}}}',
                                                 b'{"kind": "\\ud800", "inputs": []}', b'{"inputs": {}}', b'\xff'])})
    elif k == 7:
        os.rmdir(os.path.join(root, r.choice(['temp', 'input'])))
    elif k == 8:
        put(where, {os.fsdecode(b'\xff\xfe-name'): b'name that is not text'})


def save(f):
    try:
        f()
        return None
    except Exception as e:
        return e


def check_failed(before, d, box, what):
    after = snapshot(box)
    left = {k: v for k, v in differences(before, after).items() if '.index.sqlite' not in k}
    expect(not left, 'a failed save changed the files at the destination', left=left, error=what)


@case(12)
def broken_workspaces(d):
    r = d.rng
    root = workspace(d)
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    if r.random() < .3:
        put(box, {'other_20140101.zip': b'not an archive', 'ws_20140101.zip': b''})
    break_it(d, root)
    before = snapshot(box)
    if r.random() < .5:
        dest = os.path.join(box, 'a_b.zip')
        e = save(lambda: Workspace(root).pack(dest, STAMP, 'comment'))
    else:
        if r.random() < .4:
            BoxIndex(Path(box)).rebuild()
            before = snapshot(box)
        e = save(lambda: Box('box', Path(box)).store(Workspace(root), STAMP))
    if e is None:
        raise Skip()
    check_failed(before, d, box, repr(e))


@case(14)
def faults(d):
    '''an error in the n-th operation of some kind'''
    r = d.rng
    root = workspace(d)
    put(root, {'one': b'1', 'output/two': b'2' * 3000})
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    error = r.choice([OSError, OSError(28, 'No space left on device'), RuntimeError, ValueError, KeyError, MemoryError, AssertionError,
                      UnicodeEncodeError('utf-8', 'x', 0, 1, 'bad'), zipfile.LargeZipFile, RecursionError, PermissionError])
    target = r.choice(['zipfile.ZipFile.write', 'zipfile.ZipFile.writestr', 'zipfile.ZipFile.close', 'zipfile.ZipFile._write_end_record', 'os.listdir', 'json.dumps', 'json.load',
                       'hashlib.sha512', 'os.path.getsize', 'zipfile.ZipFile._writecheck', 'shutil.copyfileobj', 'zlib.compressobj'])
    mod, _, attr = target.rpartition('.')
    owner = {'zipfile.ZipFile': zipfile.ZipFile, 'os': os, 'json': json, 'hashlib': hashlib, 'os.path': os.path,
             'shutil': __import__('shutil'), 'zlib': __import__('zlib')}[mod]
    real = getattr(owner, attr)
    n = r.choice([0, 0, 1, 2, 3, 5])
    count = [0]

    def failing(*a, **k):
        count[0] += 1
        if count[0] == n + 1:
            raise error
        return real(*a, **k)
    dest = Path(box) / 'x_y.zip'
    with mock.patch.object(owner, attr, failing):
        e = save(lambda: Workspace(root).pack(dest, STAMP, 'comment'))
    if e is None:
        expect(dest.exists(), 'no error, no archive')
        raise Skip()
    expect(not os.listdir(box), 'a failed save left a file', left=os.listdir(box), error=repr(e), failing=target, n=n)


@case(4)
def disk_full(d):
    r = d.rng
    root = workspace(d)
    put(root, {'output/big': r.randbytes(60000)})
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    limit = r.choice([0, 1, 100, 10000, 50000])
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            os.environ['BEAD_ZIP_COMPRESSION'] = r.choice(['off', 'deflated'])
            e = save(lambda: Workspace(root).pack(os.path.join(box, 'x.zip'), STAMP, 'c'))
            code = 0 if e is None else 3
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code == 3:
        expect(not os.listdir(box), 'a failed save left a file', left=os.listdir(box), limit=limit)


@case(10)
def existing(d):
    r = d.rng
    root = workspace(d)
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    if r.random() < .3:
        break_it(d, root)
    dest = Path(box) / f'ws_{STAMP}.zip'
    k = r.randrange(6)
    if k == 0:
        put(box, {dest.name: b''})
    elif k == 1:
        put(box, {dest.name: b'some file'})
    elif k == 2:
        make(str(dest), name='ws', data={'a': b'precious'})
    elif k == 3:
        make(str(dest), name='ws', data={'a': b'precious'})
        os.chmod(dest, 0o444)
    elif k == 4:
        make(os.path.join(d.tmp, 'elsewhere.zip'), name='ws')
        os.symlink(os.path.join(d.tmp, 'elsewhere.zip'), dest)
    else:
        os.mkdir(dest)
        put(str(dest), {'a': b'1'})
    if r.random() < .3:
        BoxIndex(Path(box)).rebuild()
    before, ino = snapshot(d.tmp), os.lstat(dest).st_ino
    if r.random() < .5:
        e = save(lambda: Workspace(root).pack(r.choice([str, Path])(dest), STAMP, 'comment'))
    else:
        e = save(lambda: Box('box', Path(box)).store(Workspace(root), STAMP))
    expect(e is not None, 'saved over an existing file', kind=k)
    after = snapshot(d.tmp)
    left = {k: v for k, v in differences(before, after).items() if '.index.sqlite' not in k}
    expect(not left and os.lstat(dest).st_ino == ino, 'an existing file was changed', left=left)


@case(6)
def save_command(d):
    '''two saves at the same moment; a box that can not be written'''
    r = d.rng
    cli = Cli(d)
    root = workspace(d)
    box = os.path.join(d.tmp, 'box')
    os.mkdir(box)
    cli('box', 'add', 'box', box)
    import bead_cli.workspace as cw
    if r.random() < .6 and hasattr(cw, 'timestamp'):
        with mock.patch.object(cw, 'timestamp', lambda: STAMP):
            first = cli('save', cwd=root)
            if not first.ok:
                raise Skip()
            before = snapshot(box)
            put(root, {'output/new': b'changed'})
            second = cli('save', cwd=root)
        expect(not second.ok, 'the second save did not fail', log=cli.log)
        check_failed(before, d, box, 'second save')
    else:
        if r.random() < .5:
            break_it(d, root)
        if r.random() < .5:
            os.chmod(box, r.choice([0o555, 0o000, 0o755]))
        res = cli('save', cwd=root)
        os.chmod(box, 0o755)
        if not res.ok:
            expect(not [f for f in os.listdir(box) if not f.startswith('.index')], 'a failed save left a file', left=os.listdir(box), log=cli.log)


from pathlib import Path
main('C23')
