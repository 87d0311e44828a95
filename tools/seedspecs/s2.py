ZIP = '''
import json, zipfile, hashlib, os, stat
from pathlib import Path
from bead.ziparchive import ZipArchive
def H(b):
    n = str(len(b)).encode()
    return hashlib.sha512(n + b':' + b + b';' + n).hexdigest()
def make(path, data=None, code=None, kind='kind', time='20200101T000000000000+0000', inputs=None, extra=None):
    path.parent.mkdir(parents=True, exist_ok=True)
    e = {'data/' + k: v for k, v in (data or {}).items()}
    e.update({'code/' + k: v for k, v in (code or {}).items()})
    e['meta/bead'] = json.dumps(dict(meta_version='aaa947a6-1f7a-11e6-ba3a-0021cc73492e', kind=kind, freeze_time=time, freeze_name='x', inputs=inputs or {})).encode()
    e['meta/manifest'] = json.dumps({k: H(v) for k, v in e.items()}).encode()
    e.update(extra or {})
    with zipfile.ZipFile(path, 'w') as z:
        for k, v in e.items():
            z.writestr(k, v)
    return path
def workspace(root, **files):
    from bead.workspace import Workspace
    ws = Workspace(root)
    ws.create('the kind')
    for k, v in files.items():
        (root / k).write_text(v)
    return ws
def valid(path):
    try:
        ZipArchive(path).validate()
        return True
    except Exception:
        return False
def boxdir(name='box'):
    d = tmp / name
    d.mkdir()
    return d
'''
CLI = '''
from bead_cli.main import run
def cli(*args, cwd=None):
    old = os.getcwd()
    os.chdir(cwd or tmp)
    try:
        return run(str(tmp / 'config'), [str(a) for a in args])
    except SystemExit as e:
        return e.code
    finally:
        os.chdir(old)
'''
SEEDS = [
dict(id='C02-directory-entry', property='C02',
  edits=[('bead/ziparchive.py', '                if name not in manifest:\n', "                if name not in manifest and not name.endswith('/'):\n")],
  needs='an unlisted entry of the data or code section whose name ends in a slash',
  breaks='the unlisted entry (which can have content) is accepted',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b'1'})
assert valid(p)
p = make(tmp / 'b.zip', data={'f': b'1'}, extra={'code/sub/': b'not listed'})
assert not valid(p)
'''),
dict(id='C02-emptied-file', property='C02',
  edits=[('bead/ziparchive.py', '            if hash != archived_hash:\n', '            if info.file_size and hash != archived_hash:\n')],
  needs='a listed file that was replaced with an empty one',
  breaks='the content of empty entries is not checked',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b''})
assert valid(p)
p = make(tmp / 'b.zip', data={'g': b'1'}, extra={'data/f': b''})
with zipfile.ZipFile(p) as z:
    parts = {n: z.read(n) for n in z.namelist()}
m = json.loads(parts['meta/manifest'])
m['data/f'] = H(b'was here')
parts['meta/manifest'] = json.dumps(m).encode()
with zipfile.ZipFile(p, 'w') as z:
    for k, v in parts.items():
        z.writestr(k, v)
assert not valid(p)
'''),
dict(id='C03-upper-case', property='C03',
  edits=[('bead/workspace.py', '            return f not in {\n', '            return f.lower() not in {\n')],
  needs='a code file or folder whose name differs from those of the special folders only in case',
  breaks='the file is not saved',
  demo=ZIP + '''
ws = workspace(tmp / 'ws', Temp='code', other='x')
ws.pack(tmp / 'ws_20200101.zip', '20200101T000000000000+0000', '')
with zipfile.ZipFile(tmp / 'ws_20200101.zip') as z:
    assert z.read('code/Temp') == b'code' and z.read('code/other') == b'x'
'''),
dict(id='C04-longer-file', property='C04',
  edits=[('bead/ziparchive.py', "            with open(fs_path, 'wb') as target:\n", "            with open(fs_path, 'r+b' if fs_path.exists() else 'wb') as target:\n")],
  needs='unpacking over an existing file that is longer',
  breaks='the tail of the previous file stays',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b'short'})
d = tmp / 'to'
d.mkdir()
(d / 'f').write_bytes(b'something longer')
ZipArchive(p).unpack_data_to(d)
assert (d / 'f').read_bytes() == b'short'
'''),
dict(id='C05-known-content', property='C05',
  edits=[('bead_cli/input.py', '        _check_load_with_feedback(workspace, input.name, archive)\n    else:\n        print(f\'"{input.name}" is already loaded - skipping\')\n',
   '        # its content id is the recorded one\n        workspace.load(input.name, archive)\n    else:\n        print(f\'"{input.name}" is already loaded - skipping\')\n')],
  needs='loading a recorded input from an archive with the right manifest and a changed file',
  breaks='the content id covers the manifest only, the damaged data is put in place without validation',
  demo=ZIP + CLI + '''
box = boxdir()
p = make(box / 'a_20200101.zip', data={'f': b'good'})
cid = ZipArchive(p).content_id
with zipfile.ZipFile(p) as z:
    parts = {n: z.read(n) for n in z.namelist()}
parts['data/f'] = b'evil'
from bead import zipopener
zipopener.close_all()
with zipfile.ZipFile(p, 'w') as z:
    for k, v in parts.items():
        z.writestr(k, v)
ws = workspace(tmp / 'ws')
ws.add_input('a', 'kind', cid, '20200101T000000000000+0000')
cli('box', 'add', 'box', box)
cli('input', 'load', cwd=tmp / 'ws')
assert not (tmp / 'ws/input/a/f').exists()
'''),
dict(id='C06-hidden-file', property='C06',
  edits=[('bead/tech/fs.py', '        for file in files:\n            yield root / file\n', "        for file in files:\n            if not file.startswith('.'):\n                yield root / file\n")],
  needs='input data with a hidden file',
  breaks='the hidden file is not made read-only',
  demo=ZIP + '''
p = make(tmp / 'a.zip', data={'f': b'1', '.h': b'2', 's/.x': b'3'})
ws = workspace(tmp / 'ws')
ws.load('in', ZipArchive(p))
d = tmp / 'ws/input/in'
for f in ('f', '.h', 's/.x'):
    assert not stat.S_IMODE(os.stat(d / f).st_mode) & 0o200, f
'''),
dict(id='C07-two-limits', property='C07',
  edits=[('bead/box_rawfs.py', 'for check_type, check_param in conditions]', 'for check_type, check_param in dict(conditions).items()]')],
  needs='two conditions of the same type, the stricter one first',
  breaks='only the last condition of a type counts',
  demo=ZIP + '''
from bead.box import Box
box = boxdir()
make(box / 'a_1.zip', time='20200101T000000000000+0000')
make(box / 'b_1.zip', time='20200102T000000000000+0000')
bs = Box('b', box).search().newer_than('20200101T000000000000+0000').newer_than('20190101T000000000000+0000').all()
assert len(bs) == 1, bs
'''),
dict(id='C08-string-order', property='C08',
  edits=[('bead/box.py', '        return min(beads, key=lambda b: b.freeze_time)', '        return min(beads, key=lambda b: b.freeze_time_str)')],
  needs='beads saved in different time zones',
  breaks='the oldest is by the text of the time stamp',
  demo=ZIP + '''
from bead.box import Box, search
box, box2 = boxdir(), boxdir('2')
make(box / 'a.zip', time='20200101T000000000000+0000')
make(box2 / 'b.zip', time='20200101T010000000000+0200')
assert search([Box('b', box), Box('2', box2)]).oldest().name == 'b'
'''),
dict(id='C08-unique-per-box', property='C08',
  edits=[('bead/box.py', "            all_beads.extend(beads)\n\n        return self._apply_unique_filter(all_beads)", "            all_beads.extend(self._apply_unique_filter(beads))\n\n        return all_beads")],
  needs='the same bead in two boxes',
  breaks='the unique filter is applied within boxes only',
  demo=ZIP + '''
from bead.box import Box, search
box, box2 = boxdir(), boxdir('2')
make(box / 'a.zip')
make(box2 / 'a.zip')
assert len(search([Box('b', box), Box('2', box2)]).unique().all()) == 1
'''),
dict(id='C09-same-content', property='C09',
  edits=[('bead/box_index.py', "FROM inputs WHERE bead_name = ? AND bead_content_id = ?\n    ''', (name, content_id))", "FROM inputs WHERE bead_content_id = ?\n    ''', (content_id,))")],
  needs='the same archive under two names in one box',
  breaks='inputs are listed once for each copy',
  demo=ZIP + '''
from bead.box_index import BoxIndex
box = boxdir()
i = dict(i=dict(kind='k', content_id='c', freeze_time='20200101T000000000000+0000'))
make(box / 'a.zip', inputs=i)
make(box / 'b.zip', inputs=i)
ix = BoxIndex(box)
ix.rebuild()
bs = ix.get_beads([], 'box')
assert [len(b.inputs) for b in bs] == [1, 1], [b.inputs for b in bs]
'''),
dict(id='C10-other-version', property='C10',
  edits=[('bead/box_index.py', 'WHERE (bead_name, bead_content_id) IN (\n            SELECT name, content_id FROM beads WHERE file_path = ?', 'WHERE bead_name IN (\n            SELECT name FROM beads WHERE file_path = ?')],
  needs='removing one of two versions of a bead that has inputs',
  breaks='the inputs of the other versions are dropped, too',
  demo=ZIP + '''
from bead.box_index import BoxIndex
box = boxdir()
i = dict(i=dict(kind='k', content_id='c', freeze_time='20200101T000000000000+0000'))
make(box / 'a_20200101.zip', inputs=i)
make(box / 'a_20200102.zip', inputs=i, time='20200102T000000000000+0000')
ix = BoxIndex(box)
ix.rebuild()
(box / 'a_20200101.zip').unlink()
ix.sync()
bs = ix.get_beads([], 'box')
assert [len(b.inputs) for b in bs] == [1], [b.inputs for b in bs]
'''),
dict(id='C10-renamed', property='C10',
  edits=[('bead/box_index.py', '            orphaned_files = indexed_files - current_files\n', '            orphaned_files = indexed_files - current_files if len(indexed_files) > len(current_files) else set()\n')],
  needs='a deleted bead and a new one since the last synchronization',
  breaks='the deleted bead stays in the index',
  demo=ZIP + '''
from bead.box_index import BoxIndex
box = boxdir()
make(box / 'a.zip')
ix = BoxIndex(box)
ix.rebuild()
(box / 'a.zip').unlink()
make(box / 'b.zip', kind='other')
ix.sync()
assert [b.name for b in ix.get_beads([], 'box')] == ['b']
'''),
dict(id='C11-half-hour', property='C11',
  edits=[('bead/tech/timestamp.py', "(v('tzhour', 0) * 60 + v('tzmin', 0)))", "v('tzhour', 0) * 60 + v('tzmin', 0))")],
  needs='a time zone west of Greenwich that is not at full hours',
  breaks='the minutes of the zone are added with the wrong sign',
  demo='''
from bead.tech.timestamp import time_from_timestamp
assert time_from_timestamp('20200101T000000000000-0330') == time_from_timestamp('20200101T033000000000+0000')
'''),
dict(id='C12-space', property='C12',
  edits=[('bead/box.py', "        zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'\n", "        name = workspace.name.strip()\n        zipfilename = self.directory / f'{name}_{freeze_time}.zip'\n")],
  needs='a workspace whose name ends in a space',
  breaks='the bead is not found under the name of the workspace',
  demo=ZIP + '''
from bead.box import Box
box = Box('box', boxdir())
ws = workspace(tmp / 'name ')
box.store(ws, '20200101T000000000000+0000')
assert box.search().by_name('name ').all()
'''),
dict(id='C12-resolved-by-name', property='C12',
  edits=[('bead/box.py', '            archive.content_id != bead.content_id or\n', "            archive.freeze_time_str != bead.freeze_time_str or\n")],
  needs='an archive replaced by another one that has the same time stamp, after the search',
  breaks='a different bead is given',
  demo=ZIP + '''
from bead.box import Box
from bead import zipopener
d = boxdir()
make(d / 'a_20200101.zip', data={'f': b'1'})
box = Box('box', d)
b = box.search().by_name('a').first()
zipopener.close_all()
make(d / 'a_20200101.zip', data={'f': b'2'})
try:
    a = box.resolve(b)
except Exception:
    a = b
assert a.content_id == b.content_id
'''),
dict(id='C13-sorted', property='C13',
  edits=[('bead_cli/environment.py', '            for box in boxes]\n', '            for box in sorted(boxes, key=lambda box: box.name)]\n')],
  needs='boxes that were not defined in the order of their names',
  breaks='the order of boxes is not kept',
  demo=ZIP + '''
from bead_cli.environment import Environment
e = Environment.from_dir(tmp)
for n in 'bca':
    e.add_box(n, tmp / n)
e.save()
assert [b.name for b in Environment.from_dir(tmp).get_boxes()] == ['b', 'c', 'a']
'''),
dict(id='C14-second-box', property='C14',
  edits=[('bead_cli/input.py', '                archive = box.resolve(bead)\n                break\n            except LookupError:\n                continue\n', '                archive = box.resolve(bead)\n                break\n            except LookupError:\n                if not box.all_beads():\n                    continue\n                break\n')],
  needs='the recorded bead in another box than the first one that has beads',
  breaks='other boxes are not considered',
  demo=ZIP + CLI + '''
b0, b1, b2 = boxdir('b0'), boxdir('b1'), boxdir('b2')
make(b1 / 'x_20200101.zip')
p = make(b2 / 'a_20200101.zip', data={'f': b'good'})
ws = workspace(tmp / 'ws')
ws.add_input('a', 'kind', ZipArchive(p).content_id, '20200101T000000000000+0000')
for b in (b0, b1, b2):
    cli('box', 'add', b.name, b)
cli('input', 'load', cwd=tmp / 'ws')
assert (tmp / 'ws/input/a/f').exists()
'''),
dict(id='C19-undecodable', property='C19',
  edits=[('bead_cli/web/io.py', 'dump = partial(json.dump, default=encoder, sort_keys=True, indent=4)', 'dump = partial(json.dump, default=encoder, sort_keys=True, indent=4, ensure_ascii=False)')],
  needs='a bead whose file name is not valid UTF-8',
  breaks='the web can not be written',
  demo='''
from bead_cli.web.dummy import Dummy
from bead_cli.web.io import read_beads, write_beads
a = Dummy(name='caf\\udce9', content_id='a', kind='k', freeze_time_str='20200101T000000000000+0000')
write_beads(tmp / 'w', [a])
assert read_beads(tmp / 'w') == [a]
'''),
dict(id='C19-unnamed-box', property='C19',
  edits=[('bead_cli/web/io.py', '        if key not in {CLASS_NAME, ENCODING}\n', "        if key not in {CLASS_NAME, ENCODING} and value != 'UNKNOWN'\n")],
  needs='a bead with a field of the value UNKNOWN other than its name',
  breaks='the field is not read back',
  demo='''
from bead_cli.web.dummy import Dummy
from bead_cli.web.io import read_beads, write_beads
a = Dummy(name='UNKNOWN', content_id='a', kind='k', box_name='UNKNOWN', freeze_time_str='20200101T000000000000+0000')
write_beads(tmp / 'w', [a])
assert read_beads(tmp / 'w') == [a]
'''),
dict(id='C20-zone', property='C20',
  edits=[('bead/workspace.py', "                    meta.INPUT_FREEZE_TIME: input.freeze_time_str}\n                for input in workspace.inputs},", "                    meta.INPUT_FREEZE_TIME: input.freeze_time_str.replace('-0000', '+0000')}\n                for input in workspace.inputs},")],
  needs='an input whose time has -0000 in it',
  breaks='the time is saved in another form, also where it is no zone',
  demo=ZIP + '''
ws = workspace(tmp / 'ws')
ws.add_input('a', 'kind', 'c', '20200101T000000000000-0000')
p = tmp / 'ws_20200101.zip'
ws.pack(p, '20200101T000000000000+0000', '')
assert [i.freeze_time_str for i in ZipArchive(p).inputs] == ['20200101T000000000000-0000']
'''),
dict(id='C21-group', property='C21',
  edits=[('bead/tech/fs.py', '    os.chmod(path, mode & ~stat.S_IWRITE)', '    os.chmod(path, mode & ~(stat.S_IWUSR | stat.S_IWGRP | stat.S_IWOTH))')],
  needs='a group writable file',
  breaks='making it read-only changes the permission of the group, too',
  demo='''
import os, stat
from bead.tech import fs
p = tmp / 'f'
p.write_text('')
os.chmod(p, 0o664)
fs.make_readonly(p)
assert stat.S_IMODE(os.stat(p).st_mode) == 0o464, oct(os.stat(p).st_mode)
'''),
dict(id='C22-output-file', property='C22',
  edits=[('bead/workspace.py', '(dir / layouts.Workspace.OUTPUT).is_dir(),', '(dir / layouts.Workspace.OUTPUT).exists(),')],
  needs='a directory with an output file instead of a folder',
  breaks='the directory is taken for a workspace',
  demo=ZIP + '''
ws = workspace(tmp / 'ws')
(tmp / 'ws/output').rmdir()
(tmp / 'ws/output').write_text('')
assert not ws.is_valid
'''),
dict(id='C23-odd-file', property='C23',
  edits=[('bead/workspace.py', '        except (RuntimeError, Exception):\n', '        except (RuntimeError, OSError, ValueError):\n')],
  needs='something in the workspace that is neither a file nor a folder',
  breaks='the failed save leaves its archive behind',
  demo=ZIP + '''
ws = workspace(tmp / 'ws', f='x')
os.mkfifo(tmp / 'ws/zz')
try:
    ws.pack(tmp / 'ws_20200101.zip', '20200101T000000000000+0000', '')
    assert False
except AssertionError:
    pass
assert not (tmp / 'ws_20200101.zip').exists()
'''),
dict(id='C24-two-commits', property='C24',
  edits=[('bead/box_index.py', "    ''', (archive.name, archive.content_id, archive.kind, \n          archive.freeze_time_str, freeze_time_unix, str(relative_path)))\n", "    ''', (archive.name, archive.content_id, archive.kind, \n          archive.freeze_time_str, freeze_time_unix, str(relative_path)))\n    conn.commit()\n")],
  needs='the process dies between adding a bead and its inputs to the index',
  breaks='the bead is in the index without its inputs',
  demo=ZIP + '''
from bead import box_index
from bead.box_index import BoxIndex
box = boxdir()
i = dict(i=dict(kind='k', content_id='c', freeze_time='20200101T000000000000+0000'))
p = make(box / 'a.zip', inputs=i)
ix = BoxIndex(box)
if os.fork() == 0:
    box_index.insert_input_record = lambda *a: os._exit(0)
    ix.index_archive_file(p)
    os._exit(0)
os.wait()
for b in ix.get_beads([], 'box'):
    assert len(b.inputs) == 1
'''),
]
