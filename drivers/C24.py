'''C24: the process dies, or a write fails, at some point of a command.'''
import resource
from pathlib import Path

from boxlib import *
from clilib import *
from bead.box import Box
from bead.box_index import BoxIndex
from bead.workspace import Workspace
from bead.ziparchive import ZipArchive
from bead import zipopener

NICKS = ['in', 'in2', 'é', 'x y', 'a.b']


def forget():
    getattr(zipopener, 'close_all', lambda: None)()


# ---------------------------------------------------------------- a command with a fault
def child(f):
    '''run f in a process of its own, return the exit status and what it has written'''
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            signal.alarm(50)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            f(w)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return status, data


def changes_disk(event, args):
    if event == 'open':
        path, mode, flags = args
        return isinstance(flags, int) and bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    return event in ('os.rename', 'os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'shutil.move', 'shutil.copyfile', 'sqlite3.connect')


STDLIB = os.path.dirname(os.__file__)
TRACED = (REPO, *(os.path.join(STDLIB, x) for x in ('json', 'zipfile', 'shutil', 'contextlib', 'tempfile')))


class Clock:
    '''counts lines that are run and changes of the disk'''
    def __init__(self, die_at=None, refuse=None):
        self.lines, self.changes, self.own, self.die_at, self.refuse = 0, [], [], die_at, refuse
        self.on = True

    def trace(self, frame, event, arg):
        if not self.on or not frame.f_code.co_filename.startswith(TRACED):
            return None
        self.lines += 1
        if self.lines == self.die_at:
            os._exit(77)
        if self.changes and frame.f_code.co_filename.startswith(REPO):
            self.own.append(self.lines)
        return self.trace

    def hook(self, event, args):
        if self.on and changes_disk(event, args):
            self.changes.append(self.lines)
            if self.refuse == len(self.changes) and event != 'sqlite3.connect':
                raise OSError(28, 'No space left on device')

    def run(self, f):
        sys.addaudithook(self.hook)
        sys.settrace(self.trace)
        try:
            f()
        finally:
            self.on = False
            sys.settrace(None)


def rehearse(f):
    '''run to the end: the points of interest'''
    def run(w):
        c = Clock()
        c.run(f)
        os.write(w, json.dumps([c.lines, c.changes, c.own]).encode())
    status, data = child(run)
    if status or not data:
        raise Skip(f'the command does not run: {status}')
    return json.loads(data)


def faulty(f, fault):
    kind, n = fault

    def run(w):
        if kind == 'die':
            Clock(die_at=n).run(f)
        elif kind == 'refuse':
            Clock(refuse=n).run(f)
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == 'die in write' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            f()
    return child(run)[0]


def some_fault(r, lines, changes, own):
    k = r.randrange(10)
    if k < 4 and own:
        start = r.choice(changes)
        near = [x for x in own if x >= start] or own
        if r.random() < .4:
            near = near[:80]
        return 'die', r.choice(near) + r.choice([0, 0, 1])
    if k < 6 and changes:
        n = r.choice(changes) + r.choice([0, 1, 1, 2, 3, 5, 8, 13, 20, 40, 80, 200, r.randrange(400)])
        return 'die', max(1, n)
    if k == 6:
        return 'die', r.randrange(1, lines + 1)
    if k == 7 and changes:
        return 'refuse', r.randrange(1, len(changes) + 1)
    return r.choice(['die in write', 'fail in write', 'fail in write']), r.choice([0, 1, 10, 50, 100, 200, r.randrange(500), r.randrange(5000), r.randrange(40000)])


# ---------------------------------------------------------------- what is stored
class World:
    def __init__(self, d):
        r = self.r = d.rng
        self.d = d
        self.cli = Cli(d)
        self.boxes, self.beads = {}, {}
        for n in r.sample(['box1', 'box2', 'b x', 'é'], r.choice([1, 2, 2, 3])):
            p = os.path.join(d.tmp, 'boxes', n)
            os.makedirs(p)
            self.boxes[n] = p
            if not self.cli('box', 'add', n, p).ok:
                raise Skip('no box')
            for _ in range(r.choice([0, 1, 3])):
                b = bead(d, p, ['a', 'b', 'bead', 'é', 'x y'], past=True)
                if b and (b['name'], b['content_id']) not in {(x['name'], x['content_id']) for x in self.beads.values() if os.path.dirname(x['path']) == p}:
                    self.beads[b['path']] = b
                elif b:
                    os.unlink(b['path'])
            if r.random() < .4:
                self.cli('box', 'index', '--box', n)
        if r.random() < .12:
            # no list of boxes yet
            self.cli.log.append('no list of boxes')
            for f in os.listdir(self.cli.config):
                os.unlink(os.path.join(self.cli.config, f))
            self.fresh = True
        files = [b for b in self.beads.values()]
        self.ws = os.path.join(d.tmp, 'ws')
        inputs = {}
        for n in r.sample(NICKS, r.choice([0, 1, 2, 3])):
            inputs[n] = dict(kind=r.choice(KINDS), content_id=H(r.randbytes(3)), freeze_time=stamp(r.randrange(10 ** 9)))
        self.output = only_files(tree(d, 1, big=True))
        self.output['f'] = r.choice([content(d), r.randbytes(r.choice([10, 3000, 30000]))])
        make_workspace(self.ws, inputs=inputs, output=self.output, code={'c': b'code'})
        self.inputs = inputs

    def command(self):
        r = self.r
        k = 0 if getattr(self, 'fresh', False) else r.randrange(9)
        names = sorted(self.boxes)
        if k == 0:
            new = os.path.join(self.d.tmp, 'boxes', 'new')
            os.makedirs(new)
            return ('box', 'add', 'new', new)
        if k == 1:
            return ('box', 'forget', r.choice(names))
        if k == 2 and self.inputs:
            return ('input', 'delete', r.choice(sorted(self.inputs)))
        if k in (3, 4) and self.beads:
            return ('input', 'add', r.choice([n for n in NICKS + ['other'] if n not in self.inputs]), r.choice(sorted(self.beads)))
        if k in (5, 7):
            n = r.choice(names)
            p = self.boxes[n]
            for _ in range(2):
                b = bead(self.d, p, ['new1', 'new2'], past=True)
                if b:
                    self.beads[b['path']] = b
            mine = [q for q in self.beads if os.path.dirname(q) == p]
            if mine and os.path.exists(os.path.join(p, '.index.sqlite')):
                q = r.choice(mine)
                os.unlink(q)
                del self.beads[q]
            return ('box', 'index', '--box', n)
        return ('save', r.choice(names))

    def observe(self):
        '''what can be read'''
        forget()
        o = {}
        x = self.cli('box', 'list')
        o['the list of boxes'] = x.out if x.ok else f'unreadable: {x}'
        try:
            m = Workspace(self.ws).meta
            o['the records of the workspace'] = (m['kind'], m['inputs'])
        except Exception as e:
            o['the records of the workspace'] = f'unreadable: {e!r}'
        for n, p in self.boxes.items():
            if os.path.exists(os.path.join(p, '.index.sqlite')):
                try:
                    ix = BoxIndex(Path(p))
                    o['entries', n] = {(b.name, b.content_id): found(b) for b in ix.get_beads([], n)}
                except Exception as e:
                    o['entries', n] = f'unreadable: {e!r}'
            else:
                try:
                    o['found', n] = {found(b) for b in Box(n, Path(p)).all_beads()}
                except Exception as e:
                    o['found', n] = f'unreadable: {e!r}'
        return o


@case(10)
def dies(d):
    r = d.rng
    w = World(d)
    cmd = w.command()
    run = lambda: w.cli(*cmd, cwd=w.ws)
    before = w.observe()
    saved = os.path.join(d.tmp, 'saved')
    parts_ = ['boxes', 'ws', 'config']
    for p in parts_:
        shutil.copytree(os.path.join(d.tmp, p), os.path.join(saved, p), symlinks=True)
    points = rehearse(run)
    after = w.observe()

    def restore():
        for p in parts_:
            full = os.path.join(d.tmp, p)
            for top, dirs, _ in os.walk(full):
                os.chmod(top, 0o755)
            shutil.rmtree(full)
            shutil.copytree(os.path.join(saved, p), full, symlinks=True)
    for _ in range(20 if d.thorough else 12):
        restore()
        fault = some_fault(r, *points)
        status = faulty(run, fault)
        data = dict(command=cmd, fault=fault, status=status)
        there = snapshot(os.path.join(d.tmp, 'boxes'))
        for p, b in w.beads.items():
            rel = './' + os.path.relpath(p, os.path.join(d.tmp, 'boxes'))
            expect(rel in there and os.path.isfile(p) and open(p, 'rb').read() == open(os.path.join(saved, 'boxes', rel), 'rb').read(), 'a stored bead is not as it was', bead=p, **data)
        now = w.observe()
        for k in ('the list of boxes', 'the records of the workspace'):
            expect(now[k] in (before[k], after[k]), f'{k}: not as before, nor as after the change', now=now[k], before=before[k], after=after[k], **data)
        for k in now:
            if k[0] == 'entries':
                n, b, a = now[k], before.get(k, {}), after.get(k, {})
                expect(isinstance(n, dict), 'the index is not readable', now=n, **data)
                for x in set(b) | set(a) | set(n):
                    if cmd[0] == 'save' and x not in b:
                        continue
                    expect(n.get(x) in (b.get(x), a.get(x)), 'an entry of the index is not as before, nor as after the change', entry=x, now=n.get(x), before=b.get(x), after=a.get(x), **data)
                expect(not (set(b) & set(a)) - set(n), 'an entry of the index is lost', now=n, before=b, **data)
            if k[0] == 'found' and k in before:
                expect(isinstance(now[k], set) and before[k] <= now[k], 'beads that were there are not found', now=now[k], before=before[k], **data)
        # half written?
        for rel, x in there.items():
            if rel.endswith('.zip') and not os.path.lexists(os.path.join(saved, 'boxes', rel)):
                p = os.path.join(d.tmp, 'boxes', rel)
                whole = complete(p, w.output)
                try:
                    forget()
                    a = ZipArchive(Path(p))
                    a.validate()
                    name, cid = a.name, a.content_id
                except Exception:
                    continue
                expect(whole, 'a bead that is not complete is valid', file=p, **data)


def entries(box):
    forget()
    try:
        return {(b.name, b.content_id): found(b) for b in BoxIndex(Path(box)).get_beads([], 'box')}
    except Exception as e:
        expect(False, f'the index is not readable: {e!r}')


@case(8)
def index_entry(d):
    '''changing the index'''
    r = d.rng
    box = os.path.join(d.tmp, 'box')
    os.makedirs(box)

    def add(n):
        out = []
        for _ in range(2 * n):
            b = bead(d, box, ['a', 'b', 'x y'], past=True)
            if b and (b['name'], b['content_id']) in ids:
                os.unlink(b['path'])
            elif b and not b['inputs'] and r.random() < .7:
                os.unlink(b['path'])
            elif b:
                ids.add((b['name'], b['content_id']))
                out.append(b)
        return out
    ids = set()
    old = add(r.choice([0, 1, 3]))
    BoxIndex(Path(box)).rebuild()
    new = add(r.choice([1, 2]))
    what = r.choice(['add', 'add', 'remove', 'sync'])
    gone = r.choice(old) if old and what != 'add' else None
    if gone and what == 'sync':
        os.unlink(gone['path'])
    if what == 'remove' and not gone or what == 'add' and not new:
        raise Skip('nothing to do')
    db = os.path.join(box, '.index.sqlite')
    saved = open(db, 'rb').read()

    def run():
        forget()
        ix = BoxIndex(Path(box))
        if what == 'add':
            ix.index_archive_file(Path(new[0]['path']))
        elif what == 'remove':
            ix.unindex_archive_file(Path(gone['path']))
        else:
            ix.sync()
    before = entries(box)
    points = rehearse(run)
    after = entries(box)
    for _ in range(40 if d.thorough else 25):
        for n in os.listdir(box):
            if n.startswith('.index'):
                os.unlink(os.path.join(box, n))
        with open(db, 'wb') as f:
            f.write(saved)
        fault = some_fault(r, *points)
        status = faulty(run, fault)
        now = entries(box)
        for x in set(before) | set(after) | set(now):
            expect(now.get(x) in (before.get(x), after.get(x)), 'an entry of the index is not as before, nor as after the change', entry=x, now=now.get(x), before=before.get(x),
                   after=after.get(x), operation=what, fault=fault, status=status)


def complete(p, output):
    try:
        with zipfile.ZipFile(p) as z:
            return all(z.read('data/' + n) == b for n, b in output.items()) and z.testzip() is None and z.read('code/c') == b'code' and bool(z.read('meta/bead'))
    except Exception:
        return False


if __name__ == '__main__':
    main('whatever happens in the middle of a change, what was stored before is still readable')
