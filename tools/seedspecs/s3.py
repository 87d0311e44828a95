'''Third round: thought up from the statements of the properties.'''
import importlib.util, pathlib
_s2 = importlib.util.spec_from_file_location('s2', pathlib.Path(__file__).with_name('s2.py'))
_m = importlib.util.module_from_spec(_s2)
_s2.loader.exec_module(_m)
ZIP, CLI = _m.ZIP, _m.CLI
WEB = '''
from bead.meta import InputSpec
from bead_cli.web.sketch import Sketch, heads_of, color_beads, set_sources, set_sinks
from bead_cli.web.dummy import Dummy, Ref
from bead_cli.web.freshness import Freshness
def bead(name, content, day=1, inputs=(), **kw):
    return Dummy(name=name, content_id=content, kind='k', freeze_time_str=f'202001{day:02}T000000000000+0000',
                 inputs=[InputSpec(n, 'k', c, f'202001{d:02}T000000000000+0000') for n, c, d in inputs], **kw)
'''
SEEDS = [
dict(id='C01-longer', property='C01',
  edits=[('bead/tech/securehash.py', '        while True:\n', '        while bytes_read < file_size:\n')],
  needs='a stream with more bytes than declared, the declared length at the end of a block',
  breaks='a hash is produced for a stream that is longer than declared',
  demo='''
import io
from bead.tech import securehash
try:
    securehash.file(io.BytesIO(b'0123456789'), 10)
    class Short(io.BytesIO):
        def read(self, n=-1):
            return super().read(5)
    securehash.file(Short(b'0123456789'), 5)
except AssertionError:
    pass
else:
    raise SystemExit('hash of a longer stream')
'''),
dict(id='C02-zone', property='C02',
  edits=[('bead/ziparchive.py', '        freeze_time = read_time(self.meta[meta.FREEZE_TIME])\n', '        freeze_time = read_time(self.meta[meta.FREEZE_TIME]).replace(tzinfo=now.tzinfo)\n')],
  needs='an archive saved recently in a time zone other than the current one',
  breaks='a good archive is refused as one from the future, or one from the future accepted',
  demo=ZIP + '''
from datetime import datetime, timedelta, timezone
t = (datetime.now(timezone.utc) - timedelta(minutes=10)).astimezone(timezone(timedelta(hours=14)))
assert valid(make(tmp / 'a.zip', data={'f': b'1'}, time=t.strftime('%Y%m%dT%H%M%S%f%z')))
t = (datetime.now(timezone.utc) + timedelta(minutes=10)).astimezone(timezone(-timedelta(hours=12)))
assert not valid(make(tmp / 'b.zip', data={'f': b'1'}, time=t.strftime('%Y%m%dT%H%M%S%f%z')))
'''),
dict(id='C03-stem', property='C03',
  edits=[('bead/workspace.py', '            return f not in {\n', '            return os.path.splitext(f)[0] not in {\n')],
  needs='a code file named like a special folder, with an extension',
  breaks='the code file output.py is not saved',
  demo=ZIP + '''
ws = workspace(tmp / 'ws', **{'output.py': 'x', 'b.py': 'y'})
ws.pack(tmp / 'b.zip', '20200101T000000000000+0000', '')
names = zipfile.ZipFile(tmp / 'b.zip').namelist()
assert 'code/b.py' in names and 'code/output.py' in names, names
'''),
dict(id='C04-blank', property='C04',
  edits=[('bead/ziparchive.py', '            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]\n', '            fs_path = fs_dir / zip_path[zip_dir_prefix_len:].strip()\n')],
  needs='a file whose name begins or ends with a blank',
  breaks='the file is unpacked under another name',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b'1', 'g ': b'2', ' d/h': b'3'})
ZipArchive(p).unpack_data_to(tmp / 'out')
got = {str(f.relative_to(tmp / 'out')): f.read_bytes() for f in (tmp / 'out').rglob('*') if f.is_file()}
assert got == {'f': b'1', 'g ': b'2', ' d/h': b'3'}, got
'''),
dict(id='C05-review', property='C05',
  edits=[('bead_cli/workspace.py', "            die('Bead is damaged')\n", "            if not review:\n                die('Bead is damaged')\n            warning('Bead is damaged')\n")],
  needs='opening a damaged bead with --review',
  breaks='a workspace is made of an archive that is not valid',
  demo=ZIP + CLI + '''
b = boxdir()
make(b / 'x_20200101T000000000000+0000.zip', data={'f': b'1'}, extra={'data/f': b'2'})
cli('box', 'add', 'b', b)
cli('edit', '--review', 'x', 'ws')
assert not (tmp / 'ws').exists()
'''),
dict(id='C06-prefix', property='C06',
  edits=[('bead/workspace.py', '            fs.rmtree(input_dir / input_nick)\n', "            for folder in input_dir.glob(f'{input_nick}*'):\n                fs.rmtree(folder)\n")],
  needs='an input whose name continues that of the unloaded one',
  breaks='data of another input is removed',
  demo=ZIP + '''
ws = workspace(tmp / 'ws')
a = ZipArchive(make(tmp / 'a.zip', data={'f': b'1'}))
ws.load('in', a)
ws.load('in2', a)
ws.unload('in')
assert not ws.is_loaded('in') and ws.is_loaded('in2')
'''),
dict(id='C07-float-time', property='C07',
  edits=[('bead/box_rawfs.py', 'lambda bead: bead.freeze_time > timestamp,', 'lambda bead: bead.freeze_time.timestamp() > timestamp.timestamp(),'),
         ('bead/box_rawfs.py', 'lambda bead: bead.freeze_time < timestamp,', 'lambda bead: bead.freeze_time.timestamp() < timestamp.timestamp(),')],
  needs='times a microsecond apart, so far in the future that floats can not tell them apart',
  breaks='a newer bead is not found',
  demo=ZIP + '''
from bead.box import Box
b = boxdir()
make(b / 'x.zip', time='90000101T000000000001+0000')
assert [x.name for x in Box('b', b).search().newer_than('90000101T000000000000+0000').all()] == ['x']
'''),
dict(id='C08-unique-names', property='C08',
  edits=[('bead/box.py', '            if bead.content_id not in seen_content_ids:\n                seen_content_ids.add(bead.content_id)\n', '            if (bead.name, bead.content_id) not in seen_content_ids:\n                seen_content_ids.add((bead.name, bead.content_id))\n')],
  needs='the same archive under two names',
  breaks='two beads with the same content id are kept',
  demo=ZIP + '''
from bead.box import Box
b = boxdir()
make(b / 'x.zip')
make(b / 'y.zip')
assert len(Box('b', b).search().all()) == 2
assert len(Box('b', b).search().unique().all()) == 1
'''),
dict(id='C09-like', property='C09',
  edits=[('bead/box_index.py', "('kind = ?', lambda v: v)", "('kind LIKE ?', lambda v: v)")],
  needs='kinds that differ in the case of letters, or with wildcards',
  breaks='beads of another kind are found',
  demo=ZIP + '''
from bead.box import Box
from bead.box_index import BoxIndex
b = boxdir()
make(b / 'x.zip', kind='kind')
make(b / 'y.zip', kind='Kind')
BoxIndex(b).rebuild()
assert [x.name for x in Box('b', b).search().by_kind('kind').all()] == ['x']
'''),
dict(id='C09-inputs-twice', property='C09',
  edits=[('bead/box_index.py', '        FROM inputs WHERE bead_name = ? AND bead_content_id = ?\n    \'\'\', (name, content_id))\n    \n    inputs = []', '        FROM inputs WHERE bead_content_id = ?\n    \'\'\', (content_id,))\n    \n    inputs = []')],
  needs='an archive with inputs under two names',
  breaks='each input of the beads is there twice',
  demo=ZIP + '''
from bead.box import Box
from bead.box_index import BoxIndex
b = boxdir()
i = {'in': dict(kind='k', content_id='c', freeze_time='20200101T000000000000+0000')}
make(b / 'x.zip', inputs=i)
make(b / 'y.zip', inputs=i)
BoxIndex(b).rebuild()
assert [len(x.inputs) for x in Box('b', b).search().all()] == [1, 1]
'''),
dict(id='C10-case', property='C10',
  edits=[('bead/box_index.py', "    conn.execute('DELETE FROM beads WHERE file_path = ?', (file_path,))", "    conn.execute('DELETE FROM beads WHERE file_path LIKE ?', (file_path,))")],
  needs='names of archives that differ in case only, or with an underscore where the other has another character; one of them deleted',
  breaks='a bead that is in the box is dropped from the index',
  demo=ZIP + '''
from bead.box import Box
from bead.box_index import BoxIndex
b = boxdir()
make(b / 'x_y.zip')
make(b / 'x-y.zip', data={'f': b'1'})
BoxIndex(b).rebuild()
(b / 'x_y.zip').unlink()
BoxIndex(b).sync()
assert [x.name for x in Box('b', b).search().all()] == ['x-y']
'''),
dict(id='C10-hidden', property='C10',
  edits=[('bead/box_index.py', "            for archive_path in self.box_directory.glob('*.zip'):\n", "            for archive_path in self.box_directory.glob('[!.]*.zip'):\n")],
  needs='a bead with a name that begins with a dot, and a synchronization',
  breaks='the bead is dropped from the index',
  demo=ZIP + '''
from bead.box import Box
from bead.box_index import BoxIndex
b = boxdir()
make(b / '.x.zip')
BoxIndex(b).rebuild()
assert [x.name for x in Box('b', b).search().all()] == ['.x']
BoxIndex(b).sync()
assert [x.name for x in Box('b', b).search().all()] == ['.x']
'''),
dict(id='C09-lookup-by-content', property='C09',
  edits=[('bead/box_index.py', """        'SELECT file_path FROM beads WHERE name = ? AND content_id = ?',
        (name, content_id)
""", """        'SELECT file_path FROM beads WHERE content_id = ?',
        (content_id,)
""")],
  needs='the same archive under two names in an indexed box',
  breaks='one of the two beads can not be resolved',
  demo=ZIP + '''
from bead.box import Box
from bead.box_index import BoxIndex
b = boxdir()
make(b / 'x.zip')
make(b / 'y.zip')
BoxIndex(b).rebuild()
box = Box('b', b)
assert sorted(box.resolve(x).name for x in box.search().all()) == ['x', 'y']
'''),
dict(id='C13-spelling', property='C13',
  edits=[('bead_cli/box.py', '        location = directory.resolve()\n', '        location = directory.absolute()\n')],
  needs='a folder that is already known, given in another way',
  breaks='the location is in the list twice',
  demo=ZIP + CLI + '''
b = boxdir()
(tmp / 'link').symlink_to(b)
cli('box', 'add', 'b', b)
cli('box', 'add', 'c', tmp / 'link')
from bead_cli.environment import Environment
assert [x.name for x in Environment.from_dir(tmp / 'config').get_boxes()] == ['b']
'''),
dict(id='C14-next-tie', property='C14',
  edits=[('bead_cli/input.py', '                        bead = query.newer_than(input.freeze_time).oldest()', '                        bead = query.at_or_newer(input.freeze_time).newer()')],
  needs='two beads of the kind with the same time as the input',
  breaks='--next gives another bead of the same time, not the next one',
  demo=ZIP + CLI + '''
b = boxdir()
old = make(b / 'x_20200101T000000000000+0000.zip', data={'f': b'1'})
make(b / 'z_20200101T000000000000+0000.zip', data={'f': b'2'})
new = make(b / 'x_20200102T000000000000+0000.zip', data={'f': b'3'}, time='20200102T000000000000+0000')
cli('box', 'add', 'b', b)
ws = workspace(tmp / 'ws')
ws.load('in', ZipArchive(old))
cli('input', 'update', 'in', '--next', '-w', tmp / 'ws')
assert ws.get_input('in').content_id == ZipArchive(new).content_id
'''),
dict(id='C15-failed-open', property='C15',
  edits=[('bead/zipopener.py', '    def open(self, filename):\n', '    def open(self, filename):\n        self.access(filename)\n'),
         ('bead/zipopener.py', '            self.open_zip_files[filename] = ZipFile(filename)\n\n        self.access(filename)\n', '            self.open_zip_files[filename] = ZipFile(filename)\n')],
  needs='a file that could not be opened, and then a full cache',
  breaks='no other file can be opened',
  demo=ZIP + '''
from bead.zipopener import OpenZipLRUCache
c = OpenZipLRUCache(2)
try:
    c.open(tmp / 'missing.zip')
except OSError:
    pass
for i in range(4):
    p = make(tmp / f'{i}.zip', data={'f': b'%d' % i})
    assert c.open(p).read('data/f') == b'%d' % i
c.close_all()
'''),
dict(id='C16-missing-root', property='C16',
  edits=[('bead_cli/web/sketch.py', '            for name in sorted(set(bead_names))\n            if name in self.dummy_by_name\n', '            for name in sorted(set(bead_names))\n            if name in self.dummy_by_name and self.sketch.cluster_by_name[name].head.is_not_phantom\n')],
  needs='a named source of which no version is there',
  breaks='beads made from it are not kept',
  demo=WEB + '''
s = Sketch.from_beads([bead('a', 'a', inputs=[('gone', 'g', 1)]), bead('b', 'b', inputs=[('a', 'a', 1)]), bead('c', 'c')])
assert {x.name for x in set_sources(s, ['gone']).beads} == {'gone', 'a', 'b'}
assert {x.name for x in set_sinks(s, ['a']).beads} == {'gone', 'a'}
'''),
dict(id='C17-accents', property='C17',
  edits=[('bead_cli/web/dummy.py', '        return cls(bead.name, bead.content_id)\n', '        import unicodedata\n        return cls(unicodedata.normalize("NFC", bead.name), bead.content_id)\n')],
  needs='names that differ only in the form of an accent',
  breaks='two beads become one node',
  demo=WEB + '''
s = Sketch.from_beads([bead('e\\u0301', 'x'), bead('\\u00e9', 'x')])
assert len(s.beads) == 2, s.beads
'''),
dict(id='C17-shared-missing', property='C17',
  edits=[('bead_cli/web/graph.py', '            src = bead_index[src_ref] = Dummy.phantom_from_input(bead, input)\n', '            src = bead_index.setdefault(Ref(input.name, input.kind), Dummy.phantom_from_input(bead, input))\n')],
  needs='two versions of a missing bead as inputs',
  breaks='one node stands for both',
  demo=WEB + '''
s = Sketch.from_beads([bead('a', 'a', inputs=[('i', '1', 1)]), bead('b', 'b', inputs=[('i', '2', 2)])])
assert {(x.name, x.content_id) for x in s.beads} == {('a', 'a'), ('b', 'b'), ('i', '1'), ('i', '2')}
assert {(e.src.content_id, e.dest.name) for e in s.edges} == {('1', 'a'), ('2', 'b')}
'''),
dict(id='C18-own-version', property='C18',
  edits=[('bead_cli/web/sketch.py', 'if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref]):', 'if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref] if e.src.name != cluster_head.name):')],
  needs='the newest version has an older version of the same bead as input',
  breaks='a bead is marked up to date though one of its inputs is superseded',
  demo=WEB + '''
s = Sketch.from_beads([bead('a', '1', 1), bead('a', '2', 2, inputs=[('a', '1', 1)])])
s.color_beads()
assert [x.freshness for x in s.beads] == [Freshness.SUPERSEDED, Freshness.OUT_OF_DATE], s.beads
'''),
dict(id='C20-dot', property='C20',
  edits=[('bead/workspace.py', '            meta.FREEZE_NAME: workspace.name}', '            meta.FREEZE_NAME: workspace.directory.stem}')],
  needs='a workspace with a dot in its name',
  breaks='another name is recorded in the archive',
  demo=ZIP + '''
ws = workspace(tmp / 'ws-1.2')
ws.pack(tmp / 'b.zip', '20200101T000000000000+0000', '')
assert ZipArchive(tmp / 'b.zip').meta['freeze_name'] == 'ws-1.2'
'''),
dict(id='C21-setgid', property='C21',
  edits=[('bead/tech/fs.py', '    os.chmod(path, mode | stat.S_IWRITE)\n', '    os.chmod(path, (mode | stat.S_IWRITE) & (stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO))\n')],
  needs='a folder with the setgid bit',
  breaks='the bit is lost',
  demo='''
from bead.tech import fs
d = tmp / 'd'
d.mkdir()
d.chmod(0o2555)
fs.make_writable(d)
assert d.stat().st_mode & 0o7777 == 0o2755, oct(d.stat().st_mode)
'''),
dict(id='C22-home', property='C22',
  edits=[('bead/workspace.py', '            if parent == ws.directory:\n', '            if ws.directory in (parent, fs.Path.home()):\n')],
  needs='a workspace that encloses the home folder',
  breaks='the enclosing workspace is not found',
  demo=ZIP + '''
from bead.workspace import Workspace
workspace(tmp / 'ws')
(tmp / 'ws/home/sub').mkdir(parents=True)
os.environ['HOME'] = str(tmp / 'ws/home')
os.chdir(tmp / 'ws/home/sub')
assert Workspace.for_current_working_directory().directory == (tmp / 'ws').resolve()
'''),
dict(id='C23-not-zip', property='C23',
  edits=[('bead/workspace.py', '            if zipfilename.exists():\n                zipfilename.unlink()\n', '            if zipfilename.exists() and zipfile.is_zipfile(zipfilename):\n                zipfilename.unlink()\n')],
  needs='the save fails when the archive is finished',
  breaks='an unfinished file is left in the box',
  demo=ZIP + '''
ws = workspace(tmp / 'ws', f='1')
def fail(self):
    raise OSError(28, 'No space left on device')
saved = zipfile.ZipFile._write_end_record
zipfile.ZipFile._write_end_record = fail
try:
    ws.pack(tmp / 'b.zip', '20200101T000000000000+0000', '')
except OSError:
    pass
else:
    raise SystemExit('no failure')
finally:
    zipfile.ZipFile._write_end_record = saved
assert not (tmp / 'b.zip').exists()
'''),
dict(id='C24-autocommit', property='C24',
  edits=[('bead/box_index.py', '    conn = sqlite3.connect(str(index_path))\n', '    conn = sqlite3.connect(str(index_path), isolation_level=None)\n')],
  needs='the process dies between adding a bead and its inputs to the index',
  breaks='the index has the bead without its inputs',
  demo=ZIP + '''
from bead import box_index
from bead.box import Box
b = boxdir()
i = {'in': dict(kind='k', content_id='c', freeze_time='20200101T000000000000+0000')}
p = make(b / 'x.zip', inputs=i)
x = box_index.BoxIndex(b)
def fail(*args):
    raise KeyboardInterrupt
saved = box_index.insert_input_record
box_index.insert_input_record = fail
try:
    x.index_archive_file(p)
except KeyboardInterrupt:
    pass
box_index.insert_input_record = saved
assert [len(y.inputs) for y in Box('b', b).search().all()] in ([], [1])
'''),
dict(id='C26-content', property='C26',
  edits=[('bead_cli/web/sketch.py', '    head_edges = tuple(e for e in sketch.edges if e.dest_ref in head_by_ref)\n', '    head_ids = {c.head.content_id for c in sketch.clusters}\n    head_edges = tuple(e for e in sketch.edges if e.dest.content_id in head_ids)\n    head_by_ref.update((e.dest_ref, e.dest) for e in head_edges)\n')],
  needs='an older version with the same content as the newest one of another name',
  breaks='the older version is kept with its links',
  demo=WEB + '''
i = [('in', 'i', 1)]
s = Sketch.from_beads([bead('in', 'i'), bead('a', '1', 1, inputs=i), bead('a', '2', 2, inputs=i), bead('b', '1', 1, inputs=i)])
h = heads_of(s)
assert {(x.name, x.content_id) for x in h.beads} == {('in', 'i'), ('a', '2'), ('b', '1')}
'''),
]
