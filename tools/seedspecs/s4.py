'''Fourth round: changes that the drivers missed when they were thought up (they were strengthened since), and others.'''
import importlib.util, pathlib
_s3 = importlib.util.spec_from_file_location('s3', pathlib.Path(__file__).with_name('s3.py'))
_m = importlib.util.module_from_spec(_s3)
_s3.loader.exec_module(_m)
ZIP, CLI, WEB = _m.ZIP, _m.CLI, _m.WEB
SEEDS = [
dict(id='C02-large-file', property='C02',
  edits=[('bead/ziparchive.py', '            if hash != archived_hash:\n', '            if hash != archived_hash and info.file_size < 1024 ** 2:\n')],
  needs='a changed file of a megabyte or more',
  breaks='changed large files are accepted',
  demo=ZIP + '''
big = b'0' * (3 << 20)
good = make(tmp / 'a.zip', data={'f': big})
assert valid(good)
with zipfile.ZipFile(good) as z:
    e = {n: z.read(n) for n in z.namelist()}
e['data/f'] = big[:-1] + b'1'
with zipfile.ZipFile(tmp / 'b.zip', 'w') as z:
    for n, b in e.items():
        z.writestr(n, b)
assert not valid(tmp / 'b.zip')
'''),
dict(id='C02-slash', property='C02',
  edits=[('bead/ziparchive.py', '        manifest = self.manifest\n        # check', "        manifest = {name.rstrip('/') for name in self.manifest}.union(self.manifest)\n        # check")],
  needs='an unlisted file named like a listed entry without the slash at its end',
  breaks='the unlisted file is accepted',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b'1', 'd/': b''})
assert valid(p)
p = make(tmp / 'b.zip', data={'f': b'1', 'd/': b''}, extra={'data/d': b'not listed'})
assert not valid(p)
'''),
dict(id='C03-deep', property='C03',
  edits=[('bead/workspace.py', '        for f in os.listdir(path):\n', "        if zip_path.count('/') > 20:\n            return\n        for f in os.listdir(path):\n")],
  needs='folders nested more than twenty levels',
  breaks='files in deep folders are not saved',
  demo=ZIP + '''
ws = workspace(tmp / 'ws')
deep = tmp / 'ws' / 'output' / '/'.join('abcdefghijklmnopqrstuvwxyz')
deep.mkdir(parents=True)
(deep / 'f').write_text('deep')
ws.pack(tmp / 'b.zip', '20200101T000000000000+0000', '')
names = zipfile.ZipFile(tmp / 'b.zip').namelist()
assert 'data/' + '/'.join('abcdefghijklmnopqrstuvwxyz') + '/f' in names, names
'''),
dict(id='C04-first-megabyte', property='C04',
  edits=[('bead/ziparchive.py', 'shutil.copyfileobj(source, target)', 'target.write(source.read(1024 ** 2))')],
  needs='a file of more than a megabyte',
  breaks='large files are cut',
  demo=ZIP + '''
big = bytes(range(256)) * 5000
p = make(tmp / 'a.zip', data={'f': big, 'g': b'1'})
ZipArchive(p).unpack_data_to(tmp / 'out')
assert (tmp / 'out' / 'f').read_bytes() == big and (tmp / 'out' / 'g').read_bytes() == b'1'
'''),
dict(id='C04-already-there', property='C04',
  edits=[('bead/ziparchive.py', '        with self.zipfile.open(zip_path) as source:\n', '        if fs_path.exists() and fs_path.stat().st_size == self.zipfile.getinfo(zip_path).file_size:\n            return\n        with self.zipfile.open(zip_path) as source:\n')],
  needs='a file of the same length is there already',
  breaks='the file keeps its earlier content',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b'new', 'g': b'new'})
(tmp / 'out').mkdir()
(tmp / 'out' / 'f').write_bytes(b'old')
(tmp / 'out' / 'g').write_bytes(b'older')
ZipArchive(p).unpack_data_to(tmp / 'out')
assert (tmp / 'out' / 'f').read_bytes() == b'new' and (tmp / 'out' / 'g').read_bytes() == b'new'
'''),
dict(id='C06-case', property='C06',
  edits=[('bead/workspace.py', '        del m[meta.INPUTS][input_nick]\n', '        m[meta.INPUTS] = {k: v for k, v in m[meta.INPUTS].items() if k.lower() != input_nick.lower()}\n')],
  needs='two inputs whose names differ only in case',
  breaks='deleting one deletes the record of the other, too',
  demo=ZIP + '''
ws = workspace(tmp / 'ws')
for n in ('data', 'Data', 'other'):
    ws.add_input(n, 'k', 'c' + n, '20200101T000000000000+0000')
ws.delete_input('data')
assert {i.name for i in ws.inputs} == {'Data', 'other'}, ws.inputs
'''),
dict(id='C06-same-content', property='C06',
  edits=[('bead/workspace.py', '        m[meta.INPUTS][input_nick] = {\n', '        if m[meta.INPUTS].get(input_nick, {}).get(meta.INPUT_CONTENT_ID) == content_id:\n            return\n        m[meta.INPUTS][input_nick] = {\n')],
  needs='loading an archive over a record of the same content id that has another kind or freeze time',
  breaks='the kind and freeze time recorded are not those of the archive',
  demo=ZIP + '''
p = make(tmp / 'a_20200101.zip', data={'f': b'1'}, kind='the right kind')
a = ZipArchive(p)
ws = workspace(tmp / 'ws')
ws.add_input('in', 'wrong', a.content_id, '20100101T000000000000+0000')
ws.load('in', a)
i, = ws.inputs
assert (i.kind, i.content_id, i.freeze_time_str) == ('the right kind', a.content_id, '20200101T000000000000+0000'), i
'''),
dict(id='C06-linked', property='C06',
  edits=[('bead/workspace.py', '            fs.rmtree(input_dir / input_nick)\n', '            fs.rmtree((input_dir / input_nick).resolve())\n')],
  needs='the folder of an input is a link to that of another one',
  breaks='the data of the other input is removed',
  demo=ZIP + '''
p = make(tmp / 'a_20200101.zip', data={'f': b'1'})
a = ZipArchive(p)
ws = workspace(tmp / 'ws')
ws.load('in', a)
ws.add_input('same', a.kind, a.content_id, a.freeze_time_str)
inputs = tmp / 'ws' / 'input'
inputs.chmod(0o755)
(inputs / 'same').symlink_to('in')
inputs.chmod(0o555)
try:
    ws.unload('same')
except OSError:
    pass
assert (inputs / 'in' / 'f').read_bytes() == b'1'
'''),
dict(id='C08-half-id', property='C08',
  edits=[('bead/box.py', '            if bead.content_id not in seen_content_ids:\n                seen_content_ids.add(bead.content_id)\n', '            short_id = bead.content_id[:64]\n            if short_id not in seen_content_ids:\n                seen_content_ids.add(short_id)\n')],
  needs='content ids with the same first half',
  breaks='beads of different content are taken for copies',
  demo=ZIP + '''
from bead.bead import Bead
from bead.box import Box, search
def bead(name, content):
    b = Bead()
    b.name, b.kind, b.content_id, b.freeze_time_str, b.inputs, b.box_name = name, 'k', content, '20200101T000000000000+0000', [], 'box'
    return b
box = Box('box', boxdir())
box.resolver.get_beads = lambda conditions, box_name: [bead('x', 'a' * 64 + 'b' * 64), bead('y', 'a' * 64 + 'c' * 64), bead('z', 'a' * 64 + 'b' * 64)]
assert [b.name for b in search([box]).unique().all()] == ['x', 'y']
'''),
dict(id='C09-hundred', property='C09',
  edits=[('bead/box_index.py', "    sql += ' ORDER BY freeze_time_unix'\n", "    sql += ' ORDER BY freeze_time_unix LIMIT 100'\n")],
  needs='more than a hundred matching beads',
  breaks='an indexed box finds a hundred beads at most',
  demo=ZIP + '''
from bead.box_index import BoxIndex
b = boxdir()
for i in range(105):
    make(b / f'x_202001010000{i:08}+0000.zip', data={'f': str(i).encode()})
ix = BoxIndex(b)
ix.rebuild()
assert len(ix.get_beads([], 'box')) == 105
'''),
dict(id='C09-case', property='C09',
  edits=[('bead/box_index.py', "('name = ?', lambda v: v)", "('name = ? COLLATE NOCASE', lambda v: v)")],
  needs='beads whose names differ only in case',
  breaks='an indexed box finds beads of other names',
  demo=ZIP + '''
from bead.box import Box
from bead.box_index import BoxIndex
b = boxdir()
make(b / 'x_20200101.zip', data={'f': b'1'})
make(b / 'X_20200101.zip', data={'f': b'2'})
plain = [x.name for x in Box('b', b).search().by_name('x').all()]
BoxIndex(b).rebuild()
indexed = [x.name for x in Box('b', b).search().by_name('x').all()]
assert plain == indexed == ['x'], (plain, indexed)
'''),
dict(id='C10-linked', property='C10',
  edits=[('bead/box_index.py', "            archive = ZipArchive(archive_path, box_name='')\n            archive.validate()", "            archive = ZipArchive(archive_path.resolve(), box_name='')\n            archive.validate()")],
  needs='an archive in the box that is a link to a file of another name',
  breaks='the bead is indexed with the name of the file the link leads to',
  demo=ZIP + '''
from bead.box_index import BoxIndex
b = boxdir()
make(tmp / 'store' / 'blob1.zip', data={'f': b'1'})
(b / 'x_20200101.zip').symlink_to(tmp / 'store' / 'blob1.zip')
ix = BoxIndex(b)
ix.rebuild()
assert [x.name for x in ix.get_beads([], 'box')] == ['x']
'''),
dict(id='C10-contained-name', property='C10',
  edits=[('bead/box_index.py', '                if str(relative_path) not in indexed_files:', '                if not any(str(relative_path) in indexed for indexed in indexed_files):')],
  needs='a new archive whose file name is the end of another one already indexed',
  breaks='the new archive is not indexed by a sync',
  demo=ZIP + '''
from bead.box_index import BoxIndex
b = boxdir()
make(b / 'raw-data_20200101.zip', data={'f': b'1'})
ix = BoxIndex(b)
ix.sync()
make(b / 'data_20200101.zip', data={'f': b'2'})
ix.sync()
assert {x.name for x in ix.get_beads([], 'box')} == {'raw-data', 'data'}
'''),
dict(id='C10-removed-case', property='C10',
  edits=[('bead/box_index.py', "conn.execute('DELETE FROM beads WHERE file_path = ?', (file_path,))", "conn.execute('DELETE FROM beads WHERE file_path LIKE ?', (file_path,))")],
  needs='removal of an archive while there is another one matching its file name as a pattern',
  breaks='the other archive disappears from the index, too',
  demo=ZIP + '''
from bead.box_index import BoxIndex
b = boxdir()
make(b / 'my_data_20200101.zip', data={'f': b'1'})
make(b / 'my-data_20200101.zip', data={'f': b'2'})
ix = BoxIndex(b)
ix.rebuild()
(b / 'my_data_20200101.zip').unlink()
ix.sync()
assert {x.name for x in ix.get_beads([], 'box')} == {'my-data'}
'''),
dict(id='C12-changed-file', property='C12',
  edits=[('bead/box.py', '            archive.content_id != bead.content_id or\n', '')],
  needs='the file of a bead is replaced between the search and its resolution',
  breaks='another archive is given for the bead',
  demo=ZIP + '''
from bead.box import Box, resolve, search
from bead import zipopener
b = boxdir()
make(b / 'x_20200101.zip', data={'f': b'1'})
boxes = [Box('b', b)]
bead = search(boxes).by_name('x').newest()
zipopener.close_all()
make(b / 'x_20200101.zip', data={'f': b'changed'})
try:
    a = resolve(boxes, bead)
except Exception:
    pass
else:
    assert a.content_id == bead.content_id
'''),
dict(id='C13-folder-name', property='C13',
  edits=[('bead_cli/environment.py', 'if box.location == directory:', 'if box.location.name == directory.name:')],
  needs='two boxes in different places whose folders have the same name',
  breaks='the second box is refused',
  demo=ZIP + CLI + '''
for p in ('home/beads', 'work/beads'):
    (tmp / p).mkdir(parents=True)
cli('box', 'add', 'home', tmp / 'home/beads')
cli('box', 'add', 'work', tmp / 'work/beads')
from bead_cli.environment import Environment
assert [b.name for b in Environment.from_dir(tmp / 'config').get_boxes()] == ['home', 'work']
'''),
dict(id='C13-blank', property='C13',
  edits=[('bead_cli/box.py', 'env.forget_box(name)', 'env.forget_box(name.strip())')],
  needs='forgetting a box whose name is that of another one with a blank at its end',
  breaks='another box is forgotten',
  demo=ZIP + CLI + '''
for p in ('1', '2'):
    (tmp / p).mkdir(parents=True)
cli('box', 'add', 'home', tmp / '1')
cli('box', 'add', 'home ', tmp / '2')
cli('box', 'forget', 'home ')
from bead_cli.environment import Environment
assert [b.name for b in Environment.from_dir(tmp / 'config').get_boxes()] == ['home']
'''),
dict(id='C14-first-missing', property='C14',
  edits=[('bead_cli/input.py', """                    warning(f'Could not find bead for "{input.name}"')\n            else:\n                _update""", """                    warning(f'Could not find bead for "{input.name}"')\n                    return\n            else:\n                _update""")],
  needs='updating all inputs when there is no bead for one that is not loaded',
  breaks='the inputs after that one are not updated',
  demo=ZIP + CLI + '''
b = boxdir()
make(b / 'x_20200101.zip', data={'f': b'1'}, kind='x')
ws = workspace(tmp / 'ws')
ws.add_input('a', 'nowhere', 'c', '20190101T000000000000+0000')
ws.add_input('b', 'x', 'c', '20190101T000000000000+0000')
cli('box', 'add', 'b', b)
cli('input', 'update', cwd=tmp / 'ws')
assert (tmp / 'ws/input/b/f').exists()
'''),
dict(id='C20-many-inputs', property='C20',
  edits=[('bead/workspace.py', '                for input in workspace.inputs},', '                for input in workspace.inputs[:64]},')],
  needs='more than 64 inputs',
  breaks='the inputs after the 64th are not recorded in the archive',
  demo=ZIP + '''
ws = workspace(tmp / 'ws')
for i in range(70):
    ws.add_input(f'n{i}', 'k', f'c{i}', '20200101T000000000000+0000')
ws.pack(tmp / 'b.zip', '20200101T000000000000+0000', '')
assert len(ZipArchive(tmp / 'b.zip').inputs) == 70
'''),
]
