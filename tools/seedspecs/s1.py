WEB = '''
from bead_cli.web.dummy import Dummy
from bead_cli.web.sketch import Sketch, set_sinks, set_sources, heads_of
from bead_cli.web.freshness import *
from bead.meta import InputSpec
def bead(name, cid, day, *inputs):
    return Dummy(name=name, content_id=cid, kind='k' + name, freeze_time_str='201001%02dT000000000000+0000' % day,
        inputs=[InputSpec(name=i.name, kind=i.kind, content_id=i.content_id, freeze_time_str=i.freeze_time_str) for i in inputs])
'''
SEEDS = [
dict(id='C01-short-block', property='C01',
  edits=[('bead/tech/securehash.py', '            if not block:\n                break\n            bytes_read += len(block)\n            hash.update(block)\n',
   '            bytes_read += len(block)\n            hash.update(block)\n            if len(block) < READ_BLOCK_SIZE:\n                break\n')],
  needs='a stream that gives fewer bytes than asked for before its end',
  breaks='the hash of a stream with short reads is not computed',
  demo='''
import io
from bead.tech import securehash
class Short(io.BytesIO):
    def read(self, n=-1):
        return super().read(min(n, 3))
data = b'0123456789'
assert securehash.file(Short(data), 10) == securehash.bytes(data)
'''),
dict(id='C15-fifo', property='C15',
  edits=[('bead/zipopener.py', "self.access_times[filename] = self.access_count\n", "self.access_times.setdefault(filename, self.access_count)\n")],
  needs='a full cache whose first opened archive was used again recently',
  breaks='the archive closed to make room is the first opened one, not the least recently requested one',
  demo="""
import zipfile
from bead import zipopener
for i in range(4):
    with zipfile.ZipFile(tmp / f'{i}.zip', 'w') as z:
        z.writestr('a', str(i))
c = zipopener.OpenZipLRUCache(3)
h = c.open(tmp / '0.zip')
c.open(tmp / '1.zip'), c.open(tmp / '2.zip'), c.open(tmp / '0.zip'), c.open(tmp / '3.zip')
assert h.fp is not None
assert sorted(f.name for f in c.open_zip_files) == ['0.zip', '2.zip', '3.zip']
"""),
dict(id='C16-self-link', property='C16',
  edits=[('bead_cli/web/sketch.py', 'return {(e.src.name, e.dest.name) for e in edges}', 'return {(e.src.name, e.dest.name) for e in edges if e.src.name != e.dest.name}')],
  needs='a bead that has an earlier version of itself as input',
  breaks='links inside of a kept cluster are dropped by the filter',
  demo=WEB + '''
a = bead('a', 'a1', 1)
b1 = bead('b', 'b1', 2, a)
b2 = bead('b', 'b2', 3, a, b1)
s = set_sinks(Sketch.from_beads([a, b1, b2]), ['b'])
assert len(s.edges) == 3, s.edges
'''),
dict(id='C17-same-bead-twice', property='C17',
  edits=[('bead_cli/web/graph.py', "    for input in bead.inputs:\n        src_ref = Ref.from_bead(input)\n", "    seen = set()\n    for input in bead.inputs:\n        src_ref = Ref.from_bead(input)\n        if src_ref in seen:\n            continue\n        seen.add(src_ref)\n")],
  needs='one bead used under two input names',
  breaks='the second input gets no link',
  demo=WEB + """
from bead_cli.web.graph import generate_input_edges
from bead_cli.web.dummy import Ref
class B: pass
import attr
a = bead('a', 'a1', 1)
b = bead('b', 'b1', 2, a, a)
s = Sketch.from_beads([a, b])
assert len(s.edges) == 2
"""),
dict(id='C18-phantom-input', property='C18',
  edits=[('bead_cli/web/sketch.py', 'if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref]):',
   "if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref] if e.src.name != e.dest.name):")],
  needs='the newest version has an older version of the same bead as input',
  breaks='a bead with a superseded input is marked up to date',
  demo=WEB + '''
b1 = bead('b', 'b1', 2)
b2 = bead('b', 'b2', 3, b1)
s = Sketch.from_beads([b1, b2])
s.color_beads()
assert b2.freshness is OUT_OF_DATE, b2.freshness
'''),
dict(id='C26-own-input', property='C26',
  edits=[('bead_cli/web/sketch.py', 'head_edges = tuple(e for e in sketch.edges if e.dest_ref in head_by_ref)',
   'head_edges = tuple(e for e in sketch.edges if e.dest_ref in head_by_ref and e.src.name != e.dest.name)')],
  needs='the newest version has an older version of the same bead as input',
  breaks='an input of a cluster head is lost',
  demo=WEB + '''
b1 = bead('b', 'b1', 2)
b2 = bead('b', 'b2', 3, b1)
s = heads_of(Sketch.from_beads([b1, b2]))
assert len(s.edges) == 1 and len(s.beads) == 2
'''),
]
