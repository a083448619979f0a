From 08b056ba386a4df772875bc412b3e090b8176c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:21 +0000
Subject: [PATCH 01/48] fix: find beads with glob metacharacters in their name

---
 bead/box_rawfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 6ccce4f..e97502f 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -1,3 +1,4 @@
+import glob
 from typing import Iterable
 from typing import Iterator
 
@@ -57,7 +58,7 @@ class RawFilesystemResolver:
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
         if bead_name:
-            pattern = bead_name + '_????????T????????????[-+]????.zip'
+            pattern = glob.escape(bead_name) + '_????????T????????????[-+]????.zip'
         else:
             pattern = '*.zip'
         return self.box_directory.glob(pattern)
-- 
2.43.0


From 09b1e7bd48154b142b3b08b4709352adf487c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 02/48] fix: find beads by name in archives without full time
 suffix

---
 bead/box_rawfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index e97502f..1d300fb 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -58,7 +58,9 @@ class RawFilesystemResolver:
     def _glob_bead_files(self, bead_name: str = '') -> Iterator[Path]:
         """Glob for bead files in box directory, optionally filtered by bead name."""
         if bead_name:
-            pattern = glob.escape(bead_name) + '_????????T????????????[-+]????.zip'
+            # the time suffix is optional and can be shortened, thus
+            # this can match archives of other beads as well
+            pattern = glob.escape(bead_name) + '*.zip'
         else:
             pattern = '*.zip'
         return self.box_directory.glob(pattern)
-- 
2.43.0


From 3a3c045c335c5b8f722a785df819d5a6b44f5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 03/48] fix: refuse bead names, that can not be read back from
 archives

---
 bead/box.py           | 4 ++++
 bead_cli/workspace.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/box.py b/bead/box.py
index 7085d41..19a33b2 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -23,6 +23,7 @@ from .box_query import QueryCondition
 from .box_rawfs import RawFilesystemResolver
 from .exceptions import BoxError
 from .exceptions import InvalidArchive
+from .meta import BeadName
 from .tech.timestamp import time_from_timestamp
 from .ziparchive import ZipArchive
 
@@ -447,6 +448,9 @@ class Box:
         if not self.directory.is_dir():
             raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
         
+        if not BeadName.is_wellformed(workspace.name):
+            raise BoxError(f'Box "{self.name}": can not store bead with name "{workspace.name}"')
+
         zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 98de29d..2cbb11b 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -5,6 +5,7 @@ from bead import layouts
 from bead import tech
 from bead.exceptions import BoxError
 from bead.exceptions import InvalidArchive
+from bead.meta import BeadName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -32,7 +33,7 @@ def assert_may_be_valid_name(name):
     Refuse bead names that are non cross platform file-system compatible
     '''
     valid_syntax = (
-        name
+        BeadName.is_wellformed(name)
         and os.path.sep not in name
         and '/' not in name
         and '\\' not in name
-- 
2.43.0


From 6873d13ade82a4f390281c97c6dd7675a0ee60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 04/48] fix: refuse malformed input names in input add

---
 bead_cli/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 199683f..c95f47d 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -1,9 +1,9 @@
-import os.path
 from typing import TYPE_CHECKING
 
 from bead.box import resolve
 from bead.box import search
 from bead.exceptions import InvalidArchive
+from bead.meta import InputName
 from bead.workspace import Workspace
 
 from . import arg_help
@@ -67,7 +67,7 @@ class CmdAdd(Command):
         bead_ref_base = args.bead_ref_base
         workspace = get_workspace(args)
 
-        if os.path.dirname(input_nick):
+        if not InputName.is_wellformed(input_nick):
             die(f'Invalid input name: {input_nick}')
 
         if bead_ref_base is USE_INPUT_NICK:
-- 
2.43.0


From da16bd3d0e352547870516f88eef025931041ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 05/48] fix: tolerate archives with malformed names in boxes

---
 bead/ziparchive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 9ccf20a..06102f6 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -30,7 +30,10 @@ class ZipArchive(Archive):
     def __init__(self, filename, box_name=''):
         self.archive_filename = filename
         self.box_name = box_name
-        self.name = bead_name_from_file_path(filename)
+        try:
+            self.name = bead_name_from_file_path(filename)
+        except ValueError as e:
+            raise InvalidArchive(self.archive_filename) from e
         self._meta = self._load_meta()
         self._content_id = None
 
-- 
2.43.0


From 3db95846e8ddf4984ff7a6296cef67d29189b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 06/48] fix: skip archives with malformed metadata when
 scanning a box

---
 bead/box_rawfs.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 1d300fb..ce06528 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -103,12 +103,19 @@ class RawFilesystemResolver:
     def _bead_from_archive(self, archive: Archive) -> Bead:
         """Create a Bead instance from Archive metadata."""
         bead = Bead()
-        bead.kind = archive.kind
-        bead.name = archive.name
-        bead.inputs = archive.inputs
-        bead.content_id = archive.content_id
-        bead.freeze_time_str = archive.freeze_time_str
-        bead.box_name = archive.box_name
+        try:
+            bead.kind = archive.kind
+            bead.name = archive.name
+            bead.inputs = archive.inputs
+            bead.content_id = archive.content_id
+            bead.freeze_time_str = archive.freeze_time_str
+            bead.box_name = archive.box_name
+            bead.freeze_time  # must be readable
+        except InvalidArchive:
+            raise
+        except Exception as e:
+            # missing or malformed metadata, damaged manifest
+            raise InvalidArchive(archive.location) from e
         return bead
 
     def get_file_path(self, name: str, content_id: str) -> Path:
@@ -123,9 +130,9 @@ class RawFilesystemResolver:
         for path in self._glob_bead_files(name):
             try:
                 archive = ZipArchive(path, box_name='')
-                if archive.name == name and archive.content_id == content_id:
+                bead = self._bead_from_archive(archive)
+                if bead.name == name and bead.content_id == content_id:
                     # Cache the successful lookup
-                    bead = self._bead_from_archive(archive)
                     self._cache_bead_and_path(bead, path)
                     return path
             except InvalidArchive:
-- 
2.43.0


From 3343751e9784c86c704ddb7bb155e703f1d2fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 07/48] fix: report unreadable archive members as invalid
 archive

---
 bead/ziparchive.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index 06102f6..e7f932b 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -61,8 +61,13 @@ class ZipArchive(Archive):
             - has freezed name
             - has inputs (even if empty)
         '''
-        if not all(self._checks()):
-            raise InvalidArchive
+        try:
+            valid = all(self._checks())
+        except Exception as e:
+            # e.g. damaged compressed data, missing or malformed manifest
+            raise InvalidArchive(self.archive_filename) from e
+        if not valid:
+            raise InvalidArchive(self.archive_filename)
 
     def _checks(self):
         yield self._has_well_formed_meta()
-- 
2.43.0


From 926519079168e5e0c81d1c96a1d49f350c465acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 08/48] fix: refuse archives with metadata missing from the
 manifest

---
 bead/ziparchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index e7f932b..a66e97a 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -72,6 +72,7 @@ class ZipArchive(Archive):
     def _checks(self):
         yield self._has_well_formed_meta()
         yield self._bead_creation_time_is_in_the_past()
+        yield layouts.Archive.BEAD_META in self.manifest
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
 
-- 
2.43.0


From a928ee4b0918fdf5dadc0313a02452bb299f9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 09/48] fix: refuse archives with files to be extracted outside
 of the workspace

---
 bead/ziparchive.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index a66e97a..cfdd241 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -73,6 +73,7 @@ class ZipArchive(Archive):
         yield self._has_well_formed_meta()
         yield self._bead_creation_time_is_in_the_past()
         yield layouts.Archive.BEAD_META in self.manifest
+        yield self._file_extracted_outside() is None
         yield self._extra_file() is None
         yield self._file_with_different_content_id() is None
 
@@ -91,6 +92,15 @@ class ZipArchive(Archive):
         #                 2010/04/08/precision-and-accuracy-of-datetime/
         return freeze_time <= now
 
+    def _file_extracted_outside(self):
+        for name in self.zipfile.namelist():
+            root, _, fs_name = name.partition('/')
+            if root not in (layouts.Archive.DATA, layouts.Archive.CODE):
+                continue
+            fs_path = tech.fs.Path(fs_name)
+            if fs_path.is_absolute() or '..' in fs_path.parts:
+                return name
+
     def _extra_file(self):
         data_dir_prefix = layouts.Archive.DATA + '/'
         code_dir_prefix = layouts.Archive.CODE + '/'
-- 
2.43.0


From d1497bca642acc39f7bec78342a07fa2612eadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 10/48] fix: tolerate archives with malformed input references
 in boxes

---
 bead/meta.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bead/meta.py b/bead/meta.py
index f36faf8..ea0ebd1 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -76,9 +76,13 @@ assert isinstance(InputName('asd'), BeadName)
 @attr.s(auto_attribs=True, frozen=True)
 class InputSpec:
     name: InputName = attr.ib(converter=InputName)
-    kind: str
-    content_id: str
-    freeze_time_str: str
+    kind: str = attr.ib(validator=attr.validators.instance_of(str))
+    content_id: str = attr.ib(validator=attr.validators.instance_of(str))
+    freeze_time_str: str = attr.ib()
+
+    @freeze_time_str.validator
+    def _check_freeze_time_str(self, _attribute, value):
+        time_from_timestamp(value)
 
     @property
     def freeze_time(self):
-- 
2.43.0


From a90765b6719bb775d8a8a4af6cb4b9836a1ad82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 11/48] fix: do not leave partial archive in box when save is
 interrupted from keyboard

---
 bead/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index b661690..753f875 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -117,7 +117,7 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
-        except (RuntimeError, Exception):
+        except BaseException:
             if zipfilename.exists():
                 zipfilename.unlink()
             raise
-- 
2.43.0


From 928bb9781936573a93692f9d3fdd88ff47b2903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:53 +0000
Subject: [PATCH 12/48] fix: allow saving files with timestamps not
 representable in zip files

---
 bead/workspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead/workspace.py b/bead/workspace.py
index 753f875..5c6da1d 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -253,6 +253,7 @@ class _ZipCreator:
                 mode='w',
                 compression=compression,
                 allowZip64=True,
+                strict_timestamps=False,
             ) as self.zipfile:
                 self.zipfile.comment = comment.encode('utf-8')
                 self.add_data(workspace)
-- 
2.43.0


From c1a0073eb15df5d232b2489a32fe8461673b2fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 13/48] fix: save consistent archive even if files are changed
 during save

---
 bead/workspace.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 5c6da1d..d6173da 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -203,6 +203,26 @@ class Workspace(Bead):
         return ws
 
 
+class _CopyingReader:
+    '''
+    File-like object, that copies everything read from source to target.
+    '''
+    def __init__(self, source, target):
+        self.source = source
+        self.target = target
+
+    def read(self, size):
+        block = self.source.read(size)
+        self.target.write(block)
+        return block
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, *_exc):
+        self.source.close()
+
+
 class _ZipCreator:
     def __init__(self):
         self.hashes = {}
@@ -214,10 +234,12 @@ class _ZipCreator:
 
     def add_file(self, path, zip_path: str):
         assert self.zipfile
-        self.zipfile.write(path, zip_path)
-        self.add_hash(
-            zip_path,
-            securehash.file(open(path, 'rb'), os.path.getsize(path)))
+        zipinfo = zipfile.ZipInfo.from_file(path, zip_path, strict_timestamps=False)
+        zipinfo.compress_type = self.zipfile.compression
+        # the file can be changed by others any time, thus it must be read only once
+        with open(path, 'rb') as source, self.zipfile.open(zipinfo, 'w') as target:
+            hash = securehash.file(_CopyingReader(source, target), zipinfo.file_size)
+        self.add_hash(zip_path, hash)
 
     def add_path(self, path, zip_path):
         if os.path.isdir(path):
@@ -253,7 +275,6 @@ class _ZipCreator:
                 mode='w',
                 compression=compression,
                 allowZip64=True,
-                strict_timestamps=False,
             ) as self.zipfile:
                 self.zipfile.comment = comment.encode('utf-8')
                 self.add_data(workspace)
-- 
2.43.0


From 390c830658062c01d787bb4a1725f43eb14318be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 14/48] fix: record true freeze time in the repeated hour at
 the end of DST

---
 bead/tech/timestamp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 72056a5..cbd5b6f 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -1,5 +1,6 @@
 from datetime import datetime
 from datetime import timedelta
+from datetime import timezone
 from datetime import tzinfo
 import re
 import time as _time
@@ -195,7 +196,8 @@ def timestamp():
         - when parsed back, can be compared with others
           even from different time zones
     '''
-    return datetime.now(Local).strftime('%Y%m%dT%H%M%S%f%z')
+    # NOTE: Local does not know which one of the repeated hours it is at the end of DST
+    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 237d2d07ad618afac105c66088b3a36eb0c9d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 15/48] fix: interpret relative times correctly across DST
 changes

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index cbd5b6f..752ddf6 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -230,7 +230,7 @@ def time_from_user(timeish):
         pass
     try:
         # fall back to interpreting it as a time-delta added to `now`
-        return datetime.now(Local) + parse_timedelta(timeish)
+        return datetime.now(timezone.utc) + parse_timedelta(timeish)
     except ValueError:
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From f6f885ccc1b437f1490ae5ee44e7760d4422b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 16/48] fix: support index in boxes with URI metacharacters in
 their path

---
 bead/box_index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b24c653..acaf9c5 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -5,6 +5,7 @@ SQLite-based index for bead storage and retrieval.
 import sqlite3
 from contextlib import closing
 from pathlib import Path
+from urllib.parse import quote
 
 from .bead import Bead
 from .box_query import QueryCondition
@@ -26,7 +27,7 @@ def create_update_connection(index_path: Path):
 
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)
+    conn = sqlite3.connect(f"file:{quote(str(index_path))}?mode=ro", uri=True)
     return closing(conn)
 
 
@@ -229,7 +230,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{index_path}?mode=ro", uri=True)):
+        with closing(sqlite3.connect(f"file:{quote(str(index_path))}?mode=ro", uri=True)):
             pass
         return True
     except Exception:
-- 
2.43.0


From 0866e1738e697d99fe563b9477619ba95cc3f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 17/48] fix: index freeze times with exact microseconds

---
 bead/box_index.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index acaf9c5..fb3ec11 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -4,6 +4,9 @@ SQLite-based index for bead storage and retrieval.
 
 import sqlite3
 from contextlib import closing
+from datetime import datetime
+from datetime import timedelta
+from datetime import timezone
 from pathlib import Path
 from urllib.parse import quote
 
@@ -126,12 +129,13 @@ def find_file_path(conn, name, content_id):
 
 def timestamp_to_unix_utc_microseconds(timestamp):
     """Convert timestamp to UTC unix microseconds for database storage."""
-    if hasattr(timestamp, 'timestamp'):
-        return int(timestamp.timestamp() * 1_000_000)
-    elif isinstance(timestamp, str):
+    if isinstance(timestamp, str):
         from .tech.timestamp import time_from_timestamp
-        dt = time_from_timestamp(timestamp)
-        return int(dt.timestamp() * 1_000_000)
+        timestamp = time_from_timestamp(timestamp)
+    if hasattr(timestamp, 'timestamp'):
+        # NOTE: floating point arithmetic (.timestamp()) would not be exact
+        epoch = datetime.fromtimestamp(0, tz=timezone.utc)
+        return (timestamp - epoch) // timedelta(microseconds=1)
     return timestamp
 
 
-- 
2.43.0


From 74d6ca131338d69ac5125483a23736710d3cf156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:26 +0000
Subject: [PATCH 18/48] fix: do not lose workspace metadata when writing it is
 interrupted

---
 bead/tech/persistence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/tech/persistence.py b/bead/tech/persistence.py
index 81e21a0..d66ef0e 100644
--- a/bead/tech/persistence.py
+++ b/bead/tech/persistence.py
@@ -4,6 +4,7 @@ Functions to persist python structures or load them.
 
 import io
 import json
+import os
 
 # json is used for serializing objects for persistence as it is
 # - in the standard library from >=2.6 (including 3.*)
@@ -55,5 +56,8 @@ def file_load(path):
 
 
 def file_dump(content, path):
-    with open(path, 'w') as f:
+    # path has either the old or the new content, even if writing is interrupted
+    temp_path = f'{path}.new'
+    with open(temp_path, 'w') as f:
         dump(content, f)
+    os.replace(temp_path, path)
-- 
2.43.0


From 50bf642052fc31182a7f0d9130684d57fd766940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 19/48] fix: do not lose list of boxes when writing it is
 interrupted

---
 bead_cli/environment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bead_cli/environment.py b/bead_cli/environment.py
index 93e4262..cdfabd7 100644
--- a/bead_cli/environment.py
+++ b/bead_cli/environment.py
@@ -35,8 +35,7 @@ class Environment:
             self._content = persistence.load(f)
 
     def save(self):
-        with open(self.filename, 'w') as f:
-            persistence.dump(self._content, f)
+        persistence.file_dump(self._content, self.filename)
 
     def get_boxes(self):
         def box(box_spec):
-- 
2.43.0


From 52cf484f474a740621aa36ef1689a02b771d3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 20/48] fix: do not take partially unpacked input data as
 loaded

---
 bead/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index d6173da..a0b2009 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -160,7 +160,10 @@ class Workspace(Bead):
                 input_nick,
                 archive.kind, archive.content_id, archive.freeze_time_str)
             destination_dir = input_dir / input_nick
-            archive.unpack_data_to(destination_dir)
+            # a partially unpacked input must not be taken for a loaded one
+            with fs.temp_dir(input_dir) as temp_dir:
+                archive.unpack_data_to(temp_dir / input_nick)
+                (temp_dir / input_nick).rename(destination_dir)
             for f in fs.all_subpaths(destination_dir):
                 fs.make_readonly(f)
         finally:
-- 
2.43.0


From 3797a0925dca8bb03c32da2ad6886cd29c241249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 21/48] fix: do not take partially removed input data as loaded

---
 bead/workspace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index a0b2009..956f4e2 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -177,7 +177,11 @@ class Workspace(Bead):
         input_dir = self.directory / layouts.Workspace.INPUT
         fs.make_writable(input_dir)
         try:
-            fs.rmtree(input_dir / input_nick)
+            # partially removed data must not be taken for a loaded input
+            with fs.temp_dir(input_dir) as temp_dir:
+                fs.make_writable(input_dir / input_nick)
+                (input_dir / input_nick).rename(temp_dir / input_nick)
+                fs.rmtree(temp_dir / input_nick)
         finally:
             fs.make_readonly(input_dir)
 
-- 
2.43.0


From 0b8601c1d978a7f88ae2debeeb792d7998f11ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 22/48] fix: show web of beads also when the same bead is in
 several boxes

---
 bead_cli/web/sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead_cli/web/sketch.py b/bead_cli/web/sketch.py
index b66f94a..e917022 100644
--- a/bead_cli/web/sketch.py
+++ b/bead_cli/web/sketch.py
@@ -45,7 +45,7 @@ class Sketch:
         edges = tuple(
             itertools.chain.from_iterable(
                 generate_input_edges(bead_index, bead)
-                for bead in beads))
+                for bead in list(bead_index.values())))
         return cls(tuple(bead_index.values()), edges)
 
     @classmethod
-- 
2.43.0


From 0d1643d82710ee82bdcd2d74e5fc558ee53f6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 23/48] fix: allow further web sub-commands after view

---
 bead_cli/web/commands.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead_cli/web/commands.py b/bead_cli/web/commands.py
index 4fd113b..df2f11e 100644
--- a/bead_cli/web/commands.py
+++ b/bead_cli/web/commands.py
@@ -192,6 +192,7 @@ class View(ProcessorWithFileName):
     def __call__(self, sketch):
         print(f"Viewing {self.file_name}")
         webbrowser.open(self.file_name.as_posix())
+        return sketch
 
 
 class Filter(SketchProcessor):
-- 
2.43.0


From cfc9c86e26683523baef74e59e516af1dbc8788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:41 +0000
Subject: [PATCH 24/48] fix: draw beads and inputs with backslash in their name

---
 bead_cli/web/graphviz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index b7016ca..2d086cc 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -27,7 +27,7 @@ digraph {{
 
 
 def node_cluster(bead):
-    id = bead.name.replace('"', '\\"')
+    id = bead.name.replace('\\', '\\\\').replace('"', '\\"')
     return f'"cluster_{id}"'
 
 
@@ -113,7 +113,7 @@ class Context:
         after_label = [dest]
         silent_helper_nodes = []
         color = bead_color(bead_src) if not is_auxiliary_edge else 'grey90'
-        label = html.escape(name)
+        label = html.escape(name).replace('\\', '\\\\')
 
         # add auxiliary nodes before label
         for _ in range(4):
-- 
2.43.0


From 20c9fa086595a31a722e3c257ffdaa8929b4af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 25/48] fix: index saved bead if the index was created during
 the save

---
 bead/box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead/box.py b/bead/box.py
index 19a33b2..6ca2358 100644
--- a/bead/box.py
+++ b/bead/box.py
@@ -455,6 +455,8 @@ class Box:
         workspace.pack(zipfilename, freeze_time=freeze_time, comment=ARCHIVE_COMMENT)
         
         # Add to resolver
+        # an index might have been created by others since this box was opened
+        self.resolver = self._create_resolver()
         self.resolver.index_archive_file(zipfilename)
         
         return zipfilename
-- 
2.43.0


From 98ae612b26b86f1478d947f93dfaa19256879ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 26/48] fix: do not miss beads saved while the box index is
 being rebuilt

---
 bead/box_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index fb3ec11..4ac88a7 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -266,7 +266,10 @@ class BoxIndex:
         '''Rebuild index from scratch by scanning all files.'''
         if self.index_path.exists():
             self.index_path.unlink()
-        
+        # the index must exist before looking for archives, so that beads
+        # saved from now on are added to the index by whoever saves them
+        ensure_index(self.box_directory)
+
         for zip_path in self.box_directory.glob('*.zip'):
             self.index_archive_file(zip_path)
     
-- 
2.43.0


From 29069e145ceccc1661d972dfae471617aedce13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 27/48] fix: do not follow a symbolic link when removing an
 input

---
 bead/tech/fs.py   | 3 +++
 bead/workspace.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index e0ecac6..9bde6d3 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -61,6 +61,9 @@ def all_subpaths(dir: Path, followlinks=False):
 
 
 def rmtree(root: Path, *args, **kwargs):
+    if os.path.islink(root):
+        os.unlink(root)
+        return
     for path in all_subpaths(root, followlinks=False):
         if not os.path.islink(path):
             make_writable(path)
diff --git a/bead/workspace.py b/bead/workspace.py
index 956f4e2..1542623 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -179,7 +179,8 @@ class Workspace(Bead):
         try:
             # partially removed data must not be taken for a loaded input
             with fs.temp_dir(input_dir) as temp_dir:
-                fs.make_writable(input_dir / input_nick)
+                if not (input_dir / input_nick).is_symlink():
+                    fs.make_writable(input_dir / input_nick)
                 (input_dir / input_nick).rename(temp_dir / input_nick)
                 fs.rmtree(temp_dir / input_nick)
         finally:
-- 
2.43.0


From 147b8dddadc41519ac49c3ecbd27f2032f9f62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 28/48] fix: list copies of a bead in an unindexed box only
 once

---
 bead/box_rawfs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index ce06528..71855d6 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -80,12 +80,13 @@ class RawFilesystemResolver:
         else:
             paths = self._glob_bead_files()
 
-        beads = []
+        # copies of a bead are the same bead - the index has them only once, too
+        beads = {}
         for archive in self._archives_from(paths, box_name):
             if match(archive):
                 bead = self._bead_from_archive(archive)
-                beads.append(bead)
-        return beads
+                beads[bead.name, bead.content_id] = bead
+        return list(beads.values())
 
     def _archives_from(self, paths: Iterable[Path], box_name: str) -> Iterator[Archive]:
         for path in paths:
-- 
2.43.0


From ed57c3e13261999e0b0d3d916de921f37157d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 29/48] fix: load/update the other inputs, when an indexed
 archive became unreadable

---
 bead_cli/input.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index c95f47d..4d3e473 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -129,6 +129,9 @@ class CmdUpdate(Command):
                 bead = search(env.get_boxes()).by_kind(input.kind).at_or_older(args.bead_time).newest()
                 # Resolve bead to archive for _update_input
                 archive = resolve(env.get_boxes(), bead)
+            except InvalidArchive:
+                # damaged since it was indexed
+                warning(f'Bead for {input.name} is found but damaged - not loading.')
             except LookupError:
                 if workspace.is_loaded(input.name):
                     print(
@@ -228,7 +231,8 @@ def _load(env, workspace, input):
                 bead = box.search().by_content_id(content_id).first()
                 archive = box.resolve(bead)
                 break
-            except LookupError:
+            except (LookupError, InvalidArchive):
+                # also when an indexed archive is damaged
                 continue
         if archive is None:
             warning(f'Could not find bead for input "{input.name}" - not loaded!')
-- 
2.43.0


From 4696abc2898f0e3b70f9a90ab385357fbcba87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 30/48] fix: refuse archives with malformed kind or input
 references

---
 bead/box_rawfs.py  | 2 ++
 bead/ziparchive.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index 71855d6..f22600c 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -112,6 +112,8 @@ class RawFilesystemResolver:
             bead.freeze_time_str = archive.freeze_time_str
             bead.box_name = archive.box_name
             bead.freeze_time  # must be readable
+            if not isinstance(bead.kind, str):
+                raise TypeError(f'malformed kind: {bead.kind!r}')
         except InvalidArchive:
             raise
         except Exception as e:
diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index cfdd241..ffbf5d3 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -79,7 +79,10 @@ class ZipArchive(Archive):
 
     def _has_well_formed_meta(self):
         meta = self.meta
-        return all(key in meta for key in META_KEYS)
+        if not all(key in meta for key in META_KEYS):
+            return False
+        self.inputs  # raises an exception if there is a malformed one
+        return isinstance(self.kind, str)
 
     def _bead_creation_time_is_in_the_past(self):
         read_time = timestamp.time_from_timestamp
-- 
2.43.0


From ad94244a646279c18111ba19c5d37a05d5339bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 31/48] fix: keep inputs write protected, when loading or
 unloading them fails or is interrupted

---
 bead/tech/fs.py   |  2 +-
 bead/workspace.py | 31 ++++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index 9bde6d3..cf7f74e 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -34,7 +34,7 @@ def temp_dir(dir=None):
     try:
         yield Path(temp_dir)
     finally:
-        shutil.rmtree(temp_dir, ignore_errors=True)
+        rmtree(temp_dir, ignore_errors=True)
 
 
 def make_readonly(path: Path):
diff --git a/bead/workspace.py b/bead/workspace.py
index 1542623..61c9ce4 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -154,18 +154,24 @@ class Workspace(Bead):
         Make output data files in archive available under input directory
         '''
         input_dir = self.directory / layouts.Workspace.INPUT
-        fs.make_writable(input_dir)
         try:
+            fs.make_writable(input_dir)
             self.add_input(
                 input_nick,
                 archive.kind, archive.content_id, archive.freeze_time_str)
             destination_dir = input_dir / input_nick
-            # a partially unpacked input must not be taken for a loaded one
+            # a partially unpacked or unprotected input must not be taken for a loaded one
             with fs.temp_dir(input_dir) as temp_dir:
                 archive.unpack_data_to(temp_dir / input_nick)
-                (temp_dir / input_nick).rename(destination_dir)
-            for f in fs.all_subpaths(destination_dir):
-                fs.make_readonly(f)
+                for f in fs.all_subpaths(temp_dir / input_nick):
+                    fs.make_readonly(f)
+                # moving a directory needs write permission
+                fs.make_writable(temp_dir / input_nick)
+                try:
+                    (temp_dir / input_nick).rename(destination_dir)
+                finally:
+                    if destination_dir.exists():
+                        fs.make_readonly(destination_dir)
         finally:
             fs.make_readonly(input_dir)
 
@@ -175,13 +181,20 @@ class Workspace(Bead):
         '''
         assert self.has_input(input_nick)
         input_dir = self.directory / layouts.Workspace.INPUT
-        fs.make_writable(input_dir)
+        loaded_dir = input_dir / input_nick
         try:
+            fs.make_writable(input_dir)
             # partially removed data must not be taken for a loaded input
             with fs.temp_dir(input_dir) as temp_dir:
-                if not (input_dir / input_nick).is_symlink():
-                    fs.make_writable(input_dir / input_nick)
-                (input_dir / input_nick).rename(temp_dir / input_nick)
+                try:
+                    # moving a directory needs write permission
+                    if not loaded_dir.is_symlink():
+                        fs.make_writable(loaded_dir)
+                    loaded_dir.rename(temp_dir / input_nick)
+                except BaseException:
+                    if loaded_dir.is_dir() and not loaded_dir.is_symlink():
+                        fs.make_readonly(loaded_dir)
+                    raise
                 fs.rmtree(temp_dir / input_nick)
         finally:
             fs.make_readonly(input_dir)
-- 
2.43.0


From 1fe240c105c7267d60a4a4d2f29d118931e1049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:27 +0000
Subject: [PATCH 32/48] fix: do not crash on updating an input, when a damaged
 copy of its bead is found

---
 bead_cli/input.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bead_cli/input.py b/bead_cli/input.py
index 4d3e473..e68dcb6 100644
--- a/bead_cli/input.py
+++ b/bead_cli/input.py
@@ -183,9 +183,10 @@ class CmdUpdate(Command):
 
 
 def _update_input(workspace, input, archive):
-    if workspace.is_loaded(input.name) and input.content_id == archive.content_id:
-        assert input.kind == archive.kind
-        assert input.freeze_time == archive.freeze_time
+    is_same_version = (
+        (input.content_id, input.kind, input.freeze_time)
+        == (archive.content_id, archive.kind, archive.freeze_time))
+    if workspace.is_loaded(input.name) and is_same_version:
         print(
             f'Skipping update of {input.name}:'
             + f' it is already at requested version ({input.freeze_time})')
-- 
2.43.0


From 32e5dc21587b660783fd5a115d3fe065c40bc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 33/48] fix: refuse bead and input names that are not valid
 text, as they can not be indexed

Also make the index of boxes work below folders with such names.
---
 bead/box_index.py | 7 +++++--
 bead/meta.py      | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index 4ac88a7..b8aaf8f 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -30,7 +30,7 @@ def create_update_connection(index_path: Path):
 
 def create_query_connection(index_path: Path):
     '''Create read-only database connection for queries.'''
-    conn = sqlite3.connect(f"file:{quote(str(index_path))}?mode=ro", uri=True)
+    conn = sqlite3.connect(f"file:{quote(bytes(index_path))}?mode=ro", uri=True)
     return closing(conn)
 
 
@@ -234,7 +234,7 @@ def can_read_index(box_directory: Path) -> bool:
     """Test if SQLite index can be read."""
     index_path = box_directory / '.index.sqlite'
     try:
-        with closing(sqlite3.connect(f"file:{quote(str(index_path))}?mode=ro", uri=True)):
+        with closing(sqlite3.connect(f"file:{quote(bytes(index_path))}?mode=ro", uri=True)):
             pass
         return True
     except Exception:
@@ -332,6 +332,9 @@ class BoxIndex:
         try:
             with create_query_connection(self.index_path) as conn:
                 return query_beads(conn, conditions, box_name)
+        except UnicodeEncodeError:
+            # looking for a value, that can not be in the index
+            return []
         except Exception as e:
             raise BoxIndexError(f"Failed to query index: {e}")
     
diff --git a/bead/meta.py b/bead/meta.py
index ea0ebd1..28fb412 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -57,7 +57,11 @@ class ValidatingStr(str):
 class BeadName(ValidatingStr):
     @classmethod
     def is_wellformed(cls, string: str) -> bool:
-        # check, that string can be a path in current directory
+        # check, that string can be a path in current directory, and can be indexed (as UTF-8)
+        try:
+            string.encode('utf-8')
+        except UnicodeEncodeError:
+            return False
         return string not in ('', '.', '..') and '/' not in string and '__' not in string
 
 
-- 
2.43.0


From 6f51f111d6f322cea5e08a14b858a031b1149c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 34/48] fix: drawing beads with control characters in their
 names

---
 bead_cli/web/graphviz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index 2d086cc..5e6cb90 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -1,4 +1,5 @@
 import html
+import re
 
 from .freshness import Freshness
 
@@ -58,7 +59,8 @@ def dot_cluster_as_fragments(cluster_name, beads, indent='  '):
     # they have the same name
     assert {bead.name for bead in beads} == {cluster_name}
 
-    label = html.escape(cluster_name)
+    # some characters can not occur in HTML labels, not even in escaped form
+    label = html.escape(re.sub('[\0-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]', '\N{REPLACEMENT CHARACTER}', cluster_name))
 
     yield indent
     yield node_cluster(beads[0])
-- 
2.43.0


From dd9baf766df4bd81c17fbb4aa5f7a09cbf600eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:24 +0000
Subject: [PATCH 35/48] fix: do not invent a bead for names, which have only
 missing beads from before the epoch

---
 bead_cli/web/cluster.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/bead_cli/web/cluster.py b/bead_cli/web/cluster.py
index cf847a8..5c91b68 100644
--- a/bead_cli/web/cluster.py
+++ b/bead_cli/web/cluster.py
@@ -1,8 +1,6 @@
 from typing import Dict
 from typing import Iterable
 
-from bead.tech.timestamp import EPOCH_STR
-
 from . import graphviz
 from .dummy import Dummy
 from .freshness import Freshness
@@ -18,15 +16,7 @@ class Cluster:
         self.name = name
         self.beads_by_content_id = {}
 
-        # use a phantom bead instead of None for default value
-        phantom_head = (
-            Dummy(
-                name=name,
-                freeze_time_str=EPOCH_STR,
-                content_id='PhantomBead',
-                kind='EMPTY CLUSTER'))
-        phantom_head.set_freshness(Freshness.PHANTOM)
-        self.head = phantom_head
+        self.head = None
 
     def add(self, bead):
         assert bead.name == self.name
@@ -36,7 +26,7 @@ class Cluster:
         def head_order(bead):
             return (bead.is_not_phantom, bead.freeze_time)
 
-        if head_order(bead) >= head_order(self.head):
+        if self.head is None or head_order(bead) >= head_order(self.head):
             self.head = bead
 
     def beads(self):
-- 
2.43.0


From d4f9b2ef373066f15567244af7cb608d4dddf7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:55 +0000
Subject: [PATCH 36/48] fix: freshness of versions with the same freeze time
 depended on the order of beads

---
 bead_cli/web/cluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bead_cli/web/cluster.py b/bead_cli/web/cluster.py
index 5c91b68..cbab863 100644
--- a/bead_cli/web/cluster.py
+++ b/bead_cli/web/cluster.py
@@ -24,7 +24,7 @@ class Cluster:
         self.beads_by_content_id[bead.content_id] = bead
 
         def head_order(bead):
-            return (bead.is_not_phantom, bead.freeze_time)
+            return (bead.is_not_phantom, bead.freeze_time, bead.content_id)
 
         if self.head is None or head_order(bead) >= head_order(self.head):
             self.head = bead
@@ -36,7 +36,7 @@ class Cluster:
         return (
             sorted(
                 self.beads_by_content_id.values(),
-                key=(lambda bead: bead.freeze_time),
+                key=(lambda bead: (bead.freeze_time, bead.content_id)),
                 reverse=True))
 
     def reset_freshness(self):
-- 
2.43.0


From 0005c076d1a41b4cd6ee7d78c0c7a92e2fa7e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:02 +0000
Subject: [PATCH 37/48] fix: colouring of webs with very long chains of inputs

---
 bead_cli/web/graph.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/bead_cli/web/graph.py b/bead_cli/web/graph.py
index e320e9a..15094d3 100644
--- a/bead_cli/web/graph.py
+++ b/bead_cli/web/graph.py
@@ -128,24 +128,26 @@ def toposort(edges: Sequence[Edge]) -> List[Node]:
     node_by_ref = node_index_from_edges(edges)
 
     todo = set(node_by_ref.keys())
-    path: List[Ref] = []
+    # path from a root, with the inputs to be visited (no recursion: path can be very long)
+    path: Dict[Ref, Iterator[Edge]] = {}
     output: List[Node] = []
 
-    def dfs(ref: Ref):
+    def enter(ref: Ref):
         if ref in path:
-            raise ValueError('Loop detected!', path, ref)
-
-        path.append(ref)
-        for input_edge in edges_by_dest[ref]:
-            input_node = input_edge.src
-            if input_node.ref in todo:
-                dfs(input_node.ref)
-        path.pop()
-
-        todo.remove(ref)
-        output.append(node_by_ref[ref])
+            raise ValueError('Loop detected!', list(path), ref)
+        path[ref] = iter(edges_by_dest[ref])
 
     while todo:
-        dfs(next(iter(todo)))
+        enter(next(iter(todo)))
+        while path:
+            ref, input_edges = next(reversed(path.items()))
+            for input_edge in input_edges:
+                if input_edge.src_ref in todo:
+                    enter(input_edge.src_ref)
+                    break
+            else:
+                del path[ref]
+                todo.remove(ref)
+                output.append(node_by_ref[ref])
 
     return output
-- 
2.43.0


From b677e4ff1dbdd536d215a6c4c04b5068a6b1d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 38/48] fix: show backslashes in names as they are in group
 titles

---
 bead_cli/web/graphviz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bead_cli/web/graphviz.py b/bead_cli/web/graphviz.py
index 5e6cb90..d81e870 100644
--- a/bead_cli/web/graphviz.py
+++ b/bead_cli/web/graphviz.py
@@ -61,6 +61,8 @@ def dot_cluster_as_fragments(cluster_name, beads, indent='  '):
 
     # some characters can not occur in HTML labels, not even in escaped form
     label = html.escape(re.sub('[\0-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]', '\N{REPLACEMENT CHARACTER}', cluster_name))
+    # graphviz substitutes escape sequences even in HTML labels
+    label = label.replace('\\', '\\\\')
 
     yield indent
     yield node_cluster(beads[0])
-- 
2.43.0


From 8153f3e72131ce9ed0338d06cb0dc83b5766d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 39/48] fix: verification refuses archives with an unsupported
 meta version

---
 bead/ziparchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bead/ziparchive.py b/bead/ziparchive.py
index ffbf5d3..272fb07 100644
--- a/bead/ziparchive.py
+++ b/bead/ziparchive.py
@@ -82,6 +82,7 @@ class ZipArchive(Archive):
         if not all(key in meta for key in META_KEYS):
             return False
         self.inputs  # raises an exception if there is a malformed one
+        self.content_id  # raises an exception if meta version is not supported
         return isinstance(self.kind, str)
 
     def _bead_creation_time_is_in_the_past(self):
-- 
2.43.0


From 8e6072f4afc183da135b42fe55fe8395691b6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 40/48] fix: refuse impossible time zone offsets, they broke
 searching among other beads

---
 bead/tech/timestamp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 752ddf6..927d300 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -113,7 +113,7 @@ def _compile_parser(template):
                 *
                 (v('tzhour', 0) * 60 + v('tzmin', 0)))
 
-            return datetime(
+            moment = datetime(
                 v('year', 0),
                 v('month', 1),
                 v('day', 1),
@@ -122,6 +122,8 @@ def _compile_parser(template):
                 v('second', 0),
                 v('microsec', 0),
                 FixedOffset(tzoffset, 'TZ' + str(tzoffset)))
+            moment.utcoffset()  # raises ValueError for offsets, that make moment unusable
+            return moment
     return convert
 
 
-- 
2.43.0


From 6e19debc43a0c1046f99988244b263bd74f795bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 41/48] fix: report too large time differences as usage errors

---
 bead/tech/timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 927d300..2921e8e 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -233,6 +233,6 @@ def time_from_user(timeish):
     try:
         # fall back to interpreting it as a time-delta added to `now`
         return datetime.now(timezone.utc) + parse_timedelta(timeish)
-    except ValueError:
+    except (ValueError, OverflowError):
         raise ValueError(
             'Can not interpret string either as time or as delta', timeish)
-- 
2.43.0


From fd29f2d77180aefebadf7d2b61a045bc0f393dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 42/48] fix: freeze times in time zones having seconds in their
 offset

---
 bead/tech/timestamp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bead/tech/timestamp.py b/bead/tech/timestamp.py
index 2921e8e..12e7c73 100644
--- a/bead/tech/timestamp.py
+++ b/bead/tech/timestamp.py
@@ -199,7 +199,11 @@ def timestamp():
           even from different time zones
     '''
     # NOTE: Local does not know which one of the repeated hours it is at the end of DST
-    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
+    now = datetime.now(timezone.utc).astimezone()
+    # there is no place for seconds in the notation of time zones
+    minutes = int(now.utcoffset() / timedelta(minutes=1))
+    now = now.astimezone(timezone(timedelta(minutes=minutes)))
+    return now.strftime('%Y%m%dT%H%M%S%f%z')
 
 
 # a not so forgiving parser
-- 
2.43.0


From 258cc0d5923f11e48d28582d7e962f8c3f23f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 43/48] fix: never overwrite an archive created by another
 process at the same moment

---
 bead/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index 61c9ce4..bc8ddd9 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -117,6 +117,8 @@ class Workspace(Bead):
         assert not zipfilename.exists()
         try:
             _ZipCreator().create(zipfilename, self, freeze_time, comment)
+        except FileExistsError:
+            raise
         except BaseException:
             if zipfilename.exists():
                 zipfilename.unlink()
@@ -293,7 +295,8 @@ class _ZipCreator:
         try:
             with zipfile.ZipFile(
                 zip_file_name,
-                mode='w',
+                # never overwrite an archive, that was created by others just now
+                mode='x',
                 compression=compression,
                 allowZip64=True,
             ) as self.zipfile:
-- 
2.43.0


From b52b1b4dedace7adc960897e9a8429f2b12d13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 44/48] fix: do not remove the index from below other processes
 when rebuilding it

---
 bead/box_index.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/bead/box_index.py b/bead/box_index.py
index b8aaf8f..5f2435f 100644
--- a/bead/box_index.py
+++ b/bead/box_index.py
@@ -252,6 +252,23 @@ def ensure_index(box_directory: Path) -> bool:
         return False
 
 
+def clear_index(index_path: Path):
+    '''
+    Forget everything in an index.
+
+    The index file of other processes, which may be using it right now,
+    must not be removed: their changes would be lost, or their rollback journal
+    would be taken for that of the new index.
+    '''
+    with closing(sqlite3.connect(str(index_path))) as conn:
+        conn.execute('BEGIN IMMEDIATE')
+        if conn.execute('PRAGMA integrity_check').fetchone() != ('ok',):
+            raise sqlite3.DatabaseError('index is corrupted')
+        conn.execute('DROP TABLE IF EXISTS inputs')
+        conn.execute('DROP TABLE IF EXISTS beads')
+        create_schema(conn)
+
+
 class BoxIndex:
     '''
     SQLite-based index for a bead box implementing BoxResolver protocol.
@@ -265,7 +282,13 @@ class BoxIndex:
     def rebuild(self):
         '''Rebuild index from scratch by scanning all files.'''
         if self.index_path.exists():
-            self.index_path.unlink()
+            try:
+                clear_index(self.index_path)
+            except sqlite3.Error as e:
+                if 'locked' in str(e):
+                    raise
+                # not usable
+                self.index_path.unlink()
         # the index must exist before looking for archives, so that beads
         # saved from now on are added to the index by whoever saves them
         ensure_index(self.box_directory)
-- 
2.43.0


From abaa656a6c708033d1bf433795360e6e61c99286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 45/48] fix: refuse bead and input names too long to be used

---
 bead/meta.py          | 10 ++++++++--
 bead_cli/workspace.py |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bead/meta.py b/bead/meta.py
index 28fb412..5615e6a 100644
--- a/bead/meta.py
+++ b/bead/meta.py
@@ -59,10 +59,16 @@ class BeadName(ValidatingStr):
     def is_wellformed(cls, string: str) -> bool:
         # check, that string can be a path in current directory, and can be indexed (as UTF-8)
         try:
-            string.encode('utf-8')
+            encoded = string.encode('utf-8')
         except UnicodeEncodeError:
             return False
-        return string not in ('', '.', '..') and '/' not in string and '__' not in string
+        return (
+            string not in ('', '.', '..')
+            and '/' not in string
+            and '__' not in string
+            and '\0' not in string
+            and len(encoded) <= 255
+        )
 
 
 assert type(BeadName('asd')) is BeadName
diff --git a/bead_cli/workspace.py b/bead_cli/workspace.py
index 2cbb11b..ca3c047 100644
--- a/bead_cli/workspace.py
+++ b/bead_cli/workspace.py
@@ -38,11 +38,17 @@ def assert_may_be_valid_name(name):
         and '/' not in name
         and '\\' not in name
         and ':' not in name
+        and is_possible_in_box(name)
     )
     if not valid_syntax:
         die(f'Invalid name "{name}"')
 
 
+def is_possible_in_box(name):
+    # file names can not be longer than 255 bytes
+    return len(os.fsencode(f'{name}_{timestamp()}.zip')) <= 255
+
+
 class CmdNew(Command):
     '''
     Create and initialize new workspace directory for a new bead.
-- 
2.43.0


From 2feee28497a58a24925ed20ddb3e4ca8381089ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 46/48] fix: find beads by name in files named like '..zip'

---
 bead/box_rawfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bead/box_rawfs.py b/bead/box_rawfs.py
index f22600c..f19e86b 100644
--- a/bead/box_rawfs.py
+++ b/bead/box_rawfs.py
@@ -60,7 +60,8 @@ class RawFilesystemResolver:
         if bead_name:
             # the time suffix is optional and can be shortened, thus
             # this can match archives of other beads as well
-            pattern = glob.escape(bead_name) + '*.zip'
+            # ('.zip' is not an extension after leading dots only)
+            pattern = glob.escape(bead_name.removesuffix('.zip')) + '*.zip'
         else:
             pattern = '*.zip'
         return self.box_directory.glob(pattern)
-- 
2.43.0


From 277f174c88a77bcb4536e056c57e257ad6d78067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 47/48] fix: do not change permissions of files hard linked
 elsewhere when removing a workspace or an input

---
 bead/tech/fs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bead/tech/fs.py b/bead/tech/fs.py
index cf7f74e..2a7e064 100644
--- a/bead/tech/fs.py
+++ b/bead/tech/fs.py
@@ -65,6 +65,9 @@ def rmtree(root: Path, *args, **kwargs):
         os.unlink(root)
         return
     for path in all_subpaths(root, followlinks=False):
-        if not os.path.islink(path):
-            make_writable(path)
+        # only non-posix systems need files to be writable for removing them,
+        # it would change the permissions of their hard links elsewhere
+        if os.path.isdir(path) or os.name != 'posix':
+            if not os.path.islink(path):
+                make_writable(path)
     shutil.rmtree(root, *args, **kwargs)
-- 
2.43.0


From cd5f440b56642c067662bb0f21bc9e2ec489c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 48/48] fix: do not change permissions of other files when
 loading an input fails

---
 bead/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bead/workspace.py b/bead/workspace.py
index bc8ddd9..9528282 100644
--- a/bead/workspace.py
+++ b/bead/workspace.py
@@ -172,7 +172,7 @@ class Workspace(Bead):
                 try:
                     (temp_dir / input_nick).rename(destination_dir)
                 finally:
-                    if destination_dir.exists():
+                    if destination_dir.is_dir() and not destination_dir.is_symlink():
                         fs.make_readonly(destination_dir)
         finally:
             fs.make_readonly(input_dir)
-- 
2.43.0

