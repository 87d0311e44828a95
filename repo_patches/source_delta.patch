From 95a7739d93c92e7af2fbba6d6d6604d217a7d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 01/19] fix: an archive file without a valid bead name is an
 InvalidArchive

One such file made every search of a box without index fail with ValueError.
---
 bead/ziparchive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..0cbd7ff 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -30,7 +30,10 @@ class ZipArchive(Archive):
     def __init__(self, filename, box_name=''):
         self.archive_filename = filename
         self.box_name = box_name
-        self.name = bead_name_from_file_path(filename)
+        try:
+            self.name = bead_name_from_file_path(filename)
+        except ValueError as e:
+            raise InvalidArchive(filename) from e
         self._meta = self._load_meta()
         self._content_id = None
 
-- 
2.43.0


From 8523208bf07a9e0d145f2aca8de8564373f428ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 02/19] fix: ignore archives with unusable metadata when
 searching a box without index

A single zip file with incomplete metadata made every search of the box fail.
---
 bead/box_rawfs.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..a029c7c 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -98,14 +98,22 @@ class RawFilesystemResolver:
                 yield archive
 
     def _bead_from_archive(self, archive: Archive) -> Bead:
-        """Create a Bead instance from Archive metadata."""
+        """
+        Create a Bead instance from Archive metadata.
+
+        Raises InvalidArchive, when the archive has no usable metadata.
+        """
         bead = Bead()
-        bead.kind = archive.kind
-        bead.name = archive.name
-        bead.inputs = archive.inputs
-        bead.content_id = archive.content_id
-        bead.freeze_time_str = archive.freeze_time_str
-        bead.box_name = archive.box_name
+        try:
+            bead.kind = archive.kind
+            bead.name = archive.name
+            bead.inputs = archive.inputs
+            bead.content_id = archive.content_id
+            bead.freeze_time_str = archive.freeze_time_str
+            bead.box_name = archive.box_name
+            bead.freeze_time  # searches need it to be readable
+        except Exception as e:
+            raise InvalidArchive(archive.location) from e
         return bead
 
     def get_file_path(self, name: str, content_id: str) -> Path:
@@ -120,9 +128,9 @@ class RawFilesystemResolver:
         for path in self._glob_bead_files(name):
             try:
                 archive = ZipArchive(path, box_name='')
-                if archive.name == name and archive.content_id == content_id:
+                bead = self._bead_from_archive(archive)
+                if bead.name == name and bead.content_id == content_id:
                     # Cache the successful lookup
-                    bead = self._bead_from_archive(archive)
                     self._cache_bead_and_path(bead, path)
                     return path
             except InvalidArchive:
-- 
2.43.0


From 990acba7d76fc430de3922648012fc8709daea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:19 +0000
Subject: [PATCH 03/19] fix: find beads by name regardless of their characters
 and file name's timestamp

The name was used as a glob pattern, so e.g. 'a[1]' was never found, and neither
were beads whose file name has only a date or no time at all.
---
 bead/box_rawfs.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index a029c7c..f52224d 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -55,12 +55,15 @@ class RawFilesystemResolver:
         self._path_cache[key] = path
 
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
-        """Glob for bead files in box directory, optionally filtered by bead name."""
-        if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
-        else:
-            pattern = '*.zip'
-        return self.box_directory.glob(pattern)
+        """
+        Find bead files in box directory, optionally only those, that can have the bead name.
+
+        The file name of a bead starts with its name.
+        """
+        # bead names can contain characters that are special in glob patterns
+        for path in self.box_directory.glob('*.zip'):
+            if path.name.startswith(bead_name):
+                yield path
 
     def get_beads(self, conditions, box_name: str) -> list[Bead]:
         """Retrieve beads matching conditions by scanning filesystem."""
-- 
2.43.0


From 0f87c313606cede0f9e6db0fb1b0ae4d9e8a8d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 04/19] fix: refuse to extract archive entries outside of the
 target directory

---
 bead/ziparchive.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 0cbd7ff..e4ef975 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -175,16 +175,26 @@ class ZipArchive(Archive):
     def extract_dir(self, zip_dir: str, fs_dir: tech.fs.Path):
         '''
             Extract all files from zipfile under zip_dir to fs_dir.
-        '''
-
-        tech.fs.ensure_directory(fs_dir)
 
+            Refuses to extract anything if a file would be created outside of fs_dir.
+        '''
         zip_dir_prefix = zip_dir + '/'
         zip_dir_prefix_len = len(zip_dir_prefix)
 
-        for zip_path in self.zipfile.namelist():
-            if not zip_path.startswith(zip_dir_prefix):
-                continue
+        zip_paths = [
+            zip_path
+            for zip_path in self.zipfile.namelist()
+            if zip_path.startswith(zip_dir_prefix)
+        ]
+
+        for zip_path in zip_paths:
+            relative_path = os.path.normpath(zip_path[zip_dir_prefix_len:])
+            if os.path.isabs(relative_path) or relative_path.split(os.path.sep)[0] == os.path.pardir:
+                raise InvalidArchive(self.archive_filename)
+
+        tech.fs.ensure_directory(fs_dir)
+
+        for zip_path in zip_paths:
             fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
             self.extract_file(zip_path, fs_path)
 
-- 
2.43.0


From e0156a5a901898461f0c73f9c9a067d2969d6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 05/19] fix: index freeze times exactly, to the microsecond

Conversion through float made some times off by one, so that beads one
microsecond apart could not be told apart by queries.
---
 bead/box_index.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..feb27c8 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -4,6 +4,9 @@ SQLite-based index for bead storage and retrieval.
 
 import sqlite3
 from contextlib import closing
+from datetime import datetime
+from datetime import timedelta
+from datetime import timezone
 from pathlib import Path
 
 from .bead import Bead
@@ -13,6 +16,9 @@ from .meta import InputSpec
 from .ziparchive import ZipArchive
 
 
+UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
+
 def create_update_connection(index_path: Path):
     '''Create database connection for updates and ensure schema exists.'''
     conn = sqlite3.connect(str(index_path))
@@ -125,12 +131,12 @@ def find_file_path(conn, name, content_id):
 
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
-    if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
-    elif isinstance(timestamp, str):
+    if isinstance(timestamp, str):
         from .tech.timestamp import time_from_timestamp
-        dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+        timestamp = time_from_timestamp(timestamp)
+    if hasattr(timestamp, 'timestamp'):
+        # integer arithmetic: floats are not precise enough for microseconds
+        return (timestamp - UNIX_EPOCH) // timedelta(microseconds=1)
     return timestamp
 
 
-- 
2.43.0


From 336ebe82c4995bf0d7831f10dd8b8db94e1e86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 06/19] fix: refuse input names that can not be read back

An input named e.g. a__b was recorded, and then reading inputs of the workspace failed.
---
 bead/workspace.py | 2 ++
 bead_cli/input.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..e1f74d7 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -134,6 +134,8 @@ class Workspace(Bead):
         return (self.directory / layouts.Workspace.INPUT / input_nick).is_dir()
 
     def add_input(self, input_nick, kind, content_id, freeze_time_str):
+        # refuse names, that can not be read back
+        meta.InputName(input_nick)
         m = self.meta
         m[meta.INPUTS][input_nick] = {
             meta.INPUT_KIND: kind,
diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..c95f47d 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -1,9 +1,9 @@
-import os.path
 from typing import TYPE_CHECKING
 
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +67,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
-- 
2.43.0


From 872db58f7aa04beb58f1910044def08844417f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 07/19] fix: web of boxes having the same bead

The same bead in two boxes made creation of the web fail, if the bead had inputs.
---
 bead_cli/web/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..c0bbea4 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -45,7 +45,7 @@ class Sketch:
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                for bead in tuple(bead_index.values())))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From dddb9f49c062bc2c9dcf7e76888422a4dc87232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 08/19] fix: reject timestamps with a trailing newline

---
 bead/tech/timestamp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..76aea84 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -97,7 +97,7 @@ _NAMED_REGEXPS = (
 def _compile_parser(template):
     for name, regexp in _NAMED_REGEXPS:
         template = template.replace(name, regexp)
-    match = re.compile(template + '$').match
+    match = re.compile(template).fullmatch
 
     def convert(timeish: str):
         parts = match(timeish)
@@ -165,7 +165,7 @@ _TIME_UNITS = {
 }
 
 _DELTA = r'([+-]?\d+)([{units}])'.format(units='wdHMS')
-_DELTAS = '(?:{})*$'.format(_DELTA)
+_DELTAS = '(?:{})*'.format(_DELTA)
 
 
 def parse_timedelta(delta_str):
@@ -174,7 +174,7 @@ def parse_timedelta(delta_str):
 
         E.g. '2w4d' for 2 weeks and 4 days
     '''
-    match = re.match(_DELTAS, delta_str)
+    match = re.fullmatch(_DELTAS, delta_str)
     if match:
         delta = timedelta()
         for amount, unit_abbrev in re.findall(_DELTA, delta_str):
-- 
2.43.0


From 26854d9246ad8ca232785535cc8674d097c1ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 09/19] fix: timestamp of the present moment is right when
 daylight saving time ends

In the repeated hour the time zone was wrong, giving a time one hour off, even in the future.
---
 bead/tech/timestamp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 76aea84..6ab37b0 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -1,5 +1,6 @@
 from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from datetime import tzinfo
 import re
 import time as _time
@@ -195,7 +196,8 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    # going through UTC, as local time is ambiguous when daylight saving time ends
+    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 4fb23b107798dc3701840c5dbd0ea0be21498ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:13 +0000
Subject: [PATCH 10/19] fix: consistent choice of the newest bead of a cluster
 for equal freeze times

The head was the last of the newest beads, while freshness was given to the first of them.
---
 bead_cli/web/cluster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/cluster.py b/bead_cli/web/cluster.py
index cf847a8..13cda34 100644
--- a/bead_cli/web/cluster.py
+++ b/bead_cli/web/cluster.py
@@ -43,10 +43,12 @@ class Cluster:
         """
         Time sorted list of beads, most recent first.
         """
+        # ties are resolved the same way as for .head, so that
+        # when the first bead is not a phantom, then it is the head
         return (
             sorted(
-                self.beads_by_content_id.values(),
-                key=(lambda bead: bead.freeze_time),
+                reversed(self.beads_by_content_id.values()),
+                key=(lambda bead: (bead.freeze_time, bead.is_not_phantom)),
                 reverse=True))
 
     def reset_freshness(self):
-- 
2.43.0


From 7b27f7dea73bc5ed654023afcfacd4435f208cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 11/19] fix: refuse to store a bead with a name that can not be
 read back

A bead named e.g. a__b was stored, but it could never be found or opened.
---
 bead/box.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..4afe45f 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -23,6 +23,7 @@ from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
@@ -447,6 +448,9 @@ class Box:
         if not self.directory.is_dir():
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
         
+        if not BeadName.is_wellformed(workspace.name):
+            raise BoxError(f'Box "{self.name}": can not store bead with invalid name "{workspace.name}"')
+
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
-- 
2.43.0


From 85961e87d002f5c4c7a0e4953a9a75a3d7e6760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 12/19] fix: index of boxes with URI special characters in
 their directory

The index of a box in a directory like 'a#b' could not be opened for queries.
---
 bead/box_index.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index feb27c8..09ba94a 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -32,10 +32,15 @@ def create_update_connection(index_path: Path):
 
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
+    conn = sqlite3.connect(read_only_uri(index_path), uri=True)
     return closing(conn)
 
 
+def read_only_uri(index_path: Path):
+    # directory names can contain characters that are special in URIs
+    return index_path.absolute().as_uri() + '?mode=ro'
+
+
 def create_schema(conn):
     '''Create database schema if it doesn't exist.'''
     conn.execute('''
@@ -235,7 +240,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with closing(sqlite3.connect(read_only_uri(index_path), uri=True)):
             pass
         return True
     except Exception:
-- 
2.43.0


From 4f75906e26efded2e7ae9799dfd50cc27576ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 13/19] fix: rebuilding the index of a box without valid
 archives leaves an empty index

There was no index left at all, and queries failed.
---
 bead/box_index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead/box_index.py b/bead/box_index.py
index 09ba94a..84a77f4 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -272,6 +272,7 @@ class BoxIndex:
         '''Rebuild index from scratch by scanning all files.'''
         if self.index_path.exists():
             self.index_path.unlink()
+        ensure_index(self.box_directory)
         
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
-- 
2.43.0


From 7f218e6a1590344fe453b12772b4ba1e97c87e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 14/19] fix: rmtree does not change permissions behind a
 symbolic link given as root

---
 bead/tech/fs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index e0ecac6..a88bc7a 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -61,7 +61,9 @@ def all_subpaths(dir: Path, followlinks=False):
 
 
 def rmtree(root: Path, *args, **kwargs):
-    for path in all_subpaths(root, followlinks=False):
-        if not os.path.islink(path):
-            make_writable(path)
+    # a link is not followed even as root: shutil.rmtree will refuse it
+    if not os.path.islink(root):
+        for path in all_subpaths(root, followlinks=False):
+            if not os.path.islink(path):
+                make_writable(path)
     shutil.rmtree(root, *args, **kwargs)
-- 
2.43.0


From a44bdb8b4ad8f1d2b844858be2ddf63402fa935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 15/19] fix: head of a cluster of missing beads older than
 EPOCH is one of them

---
 bead_cli/web/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/cluster.py b/bead_cli/web/cluster.py
index 13cda34..ccc9cea 100644
--- a/bead_cli/web/cluster.py
+++ b/bead_cli/web/cluster.py
@@ -36,7 +36,8 @@ class Cluster:
         def head_order(bead):
             return (bead.is_not_phantom, bead.freeze_time)
 
-        if head_order(bead) >= head_order(self.head):
+        # the initial head is not one of the beads, it has to go, even for phantoms older than EPOCH
+        if len(self) == 1 or head_order(bead) >= head_order(self.head):
             self.head = bead
 
     def beads(self):
-- 
2.43.0


From e5e706a5ab035f5a4ffd8399ec0205602b1c9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 16/19] fix: bead name read from a file name with a newline is
 a prefix of it

---
 bead/ziparchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index e4ef975..eca0ade 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -216,7 +216,7 @@ def bead_name_from_file_path(path):
     '''
     name_with_timestamp, ext = os.path.splitext(os.path.basename(path))
     # assert ext == '.zip'  # not enforced to allow having beads with different extensions
-    name = re.sub('_[0-9]{8}(?:[tT][-+0-9]*)?$', '', name_with_timestamp)
+    name = re.sub(r'_[0-9]{8}(?:[tT][-+0-9]*)?\Z', '', name_with_timestamp)
     return meta.BeadName(name)
 
 
-- 
2.43.0


From 51dba7839b8bb8e27c264c7146c5bfda9ba3be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 17/19] fix: freeze times with a zone offset of a day or more
 made every search of their box fail

---
 bead/tech/timestamp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 6ab37b0..ce57fb0 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -113,7 +113,7 @@ def _compile_parser(template):
                 *
                 (v('tzhour', 0) * 60 + v('tzmin', 0)))
 
-            return datetime(
+            parsed = datetime(
                 v('year', 0),
                 v('month', 1),
                 v('day', 1),
@@ -122,6 +122,8 @@ def _compile_parser(template):
                 v('second', 0),
                 v('microsec', 0),
                 FixedOffset(tzoffset, 'TZ' + str(tzoffset)))
+            parsed.utcoffset()  # raises ValueError for offsets of a day or more
+            return parsed
     return convert
 
 
-- 
2.43.0


From b50ce2f646d5af0d0290acd728e2b171dcdc0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 18/19] fix: any character was accepted before the microseconds
 of a time

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index ce57fb0..4cf5b51 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -141,7 +141,7 @@ _ISO8601_PARSERS = [
         '{YEAR}-{MONTH}-{DAY}',
         '{YEAR}{MONTH}{DAY}T{HOUR}{MINUTE}{SECOND}{TIMEZONE}',
         '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}{TIMEZONE}',
-        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}.{MICROSEC}{TIMEZONE}',
+        '{YEAR}-{MONTH}-{DAY}T{HOUR}:{MINUTE}:{SECOND}[.]{MICROSEC}{TIMEZONE}',
     )]
 
 
-- 
2.43.0


From 380ca0236ed2160710c94aee98cf198c876043d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 19/19] fix: replace the list of boxes and workspace metadata
 atomically

The file was truncated before the new content was written: a crash or a full
disk in between lost the list of boxes or the inputs of the workspace.
---
 bead/tech/persistence.py | 18 ++++++++++++++++--
 bead_cli/environment.py  |  3 +--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..e3fc112 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -4,6 +4,8 @@ Functions to persist python structures or load them.
 
 import io
 import json
+import os
+import shutil
 
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
@@ -55,5 +57,17 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
-        dump(content, f)
+    # The file is replaced only when its new content is complete, so that
+    # failures and crashes in the middle of writing do not damage it.
+    path = os.path.realpath(path)
+    temp_path = f'{path}.tmp'
+    try:
+        with open(temp_path, 'w') as f:
+            dump(content, f)
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0

